// Included before everything in instrumented code: std::string is instantiated in the simulated program (and so instrumented, seen by
// the race detector and the scheduler) instead of being taken from the system's library.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
