// The steady clock of the code under test reads the instants the harness chooses (nanoseconds, any real value).
#ifndef SYMX_CLOCK_H
#define SYMX_CLOCK_H
#ifdef __cplusplus
#include "symx_pre.h"
#include <chrono>
extern "C" double symx_now();
namespace std { namespace chrono {
struct symx_clock { typedef double rep; typedef nano period; typedef chrono::duration<double,nano> duration; typedef chrono::time_point<symx_clock> time_point;
  static constexpr bool is_steady=true; static time_point now() noexcept { return time_point(duration(symx_now())); } };
}}
#define steady_clock symx_clock
#define high_resolution_clock symx_clock
#define system_clock symx_clock
#endif
#endif
