#pragma once
// a virtual clock in place of the system's: every clock reads the same number of nanoseconds
#include <time.h>
#include <sys/time.h>
static long long clock_ns = 0, clock_tick = 0, clock_last = 0;
extern "C" int clock_gettime( clockid_t, struct timespec* t ) noexcept { clock_last = clock_ns; t->tv_sec = clock_ns / 1000000000; t->tv_nsec = clock_ns % 1000000000; clock_ns += clock_tick; return 0; }
