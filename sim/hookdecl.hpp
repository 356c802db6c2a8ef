#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" size_t sim_cache_min_size();
extern "C" int sim_frame_w(); extern "C" int sim_frame_h();
#endif
