// Replacement of the standard clocks in the executable that links fake_clock.cpp.
#pragma once
extern long long fakeNs;
