#pragma once
#include "world.h"
std::string evStr(const Event & e);
std::string getters(World & w);                 // all observable attributes of all live tracks and contexts
std::string firstDiff(const std::string & a, const std::string & b);
void cmpAudio(const char * cls, int c, const World & a, const World & b);
void cmpEvents(const char * cls, const World & a, const World & b);
u64 abstractState(World & w);
std::string deepState(World & w);   // getters, effects, references, contents of data objects
