#pragma once
#include <opencv2/core.hpp>
inline uint32_t hmix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
cv::Mat simvid_frame(unsigned w,unsigned h,unsigned salt,unsigned i);
#include <atomic>
extern std::atomic<bool> g_decoder_faults;
