// Work of the library: basic blocks entered (compiler instrumentation of the
// library only) plus bytes handled by the C library's text and memory functions.
#pragma once
#include "vf.h"
extern uint64_t vf_work, vf_work_limit;
extern void (*vf_work_over)();
