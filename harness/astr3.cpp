#define VP_ARENA
#include "str2.cpp"
