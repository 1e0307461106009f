#pragma once
#include "sim.h"
#include <stdio.h>
#include <string>
// a parameter drawn by name and index, so that one can be changed without disturbing the others
inline long P(long lo, long hi, const char* fmt, int i = 0, int j = 0){ char b[64]; snprintf(b, sizeof b, fmt, i, j); return sim::param(b, lo, hi); }
inline bool F(int num, int den, const char* fmt, int i = 0, int j = 0){ char b[64]; snprintf(b, sizeof b, fmt, i, j); return sim::flip(b, num, den); }
