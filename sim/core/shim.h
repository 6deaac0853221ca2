// force-included in front of every engine source: spin hints become scheduling points
#pragma once
#include <immintrin.h>
#include <cmath>
extern "C" void sim_pause(void);
#define _mm_pause() sim_pause()
