// The context with a tick of 10 ms instead of one second
#define VF_TICK_MS 10
#include "h_ctx.cpp"
