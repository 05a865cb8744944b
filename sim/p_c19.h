#pragma once
#include "sim.h"
struct TimeRun {                          // what one build of the library made of a script
	std::vector<i64> results, events, times;
	std::vector<int16_t> audio[3];
	std::string state;
	bool aged = false;
};
extern "C" void timeRun64(const Scenario & sc, TimeRun & r);
extern "C" void timeRun32(const Scenario & sc, TimeRun & r);
