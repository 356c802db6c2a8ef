#pragma once
#include <opencv2/core.hpp>
#include <vector>
inline uint32_t hmix(uint32_t a){ a^=a>>16; a*=0x7feb352dU; a^=a>>15; a*=0x846ca68bU; a^=a>>16; return a; }
struct GlRender { int ctx; double mv[16],pr[16]; bool textured; int tw,th; std::vector<unsigned char> tex; int w,h; };   // what one rendering of the panoramic sphere showed
struct GlWorld { std::vector<GlRender> renders; int live=0; uint64_t wait_at=0; int wait_ms=0,waits=0; bool faults=false,decoder_faults=false; };
GlWorld& glworld();
void gl_foreign_context();       // another library makes its own context current
void gl_no_context();            // ... or none
cv::Mat pano_frame(unsigned w,unsigned h,unsigned salt,unsigned i);
unsigned gl_pixel(int render,int row,int col);
void gl_reset();
