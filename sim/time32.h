/* makes BKBase.h choose the representation of time of 32 bit platforms */
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX 0x7fffffff
