#pragma once
#include "sim.h"
struct HostJob {                          // one use of a stream or of raw memory
	int kind = 0;                         // 0 write, 1 read with the reader, 2 load WAVE, 3 raw memory, 4 raw file
	i64 bits = 16, channels = 1, rate = 44100, params = 0, prefix = 0;
	std::vector<int16_t> frames;          // what is written
	std::vector<i64> pieces;              // sizes of the appended pieces, 0: terminate between, -1: ask again for header
	std::vector<unsigned char> in;        // what is read, as this host sees it
	IoPlan plan;
};
struct HostOut { std::vector<i64> results; std::vector<int16_t> frames; std::vector<unsigned char> file; };
extern "C" void hostRunLE(const HostJob & j, HostOut & o);
extern "C" void hostRunBE(const HostJob & j, HostOut & o);
