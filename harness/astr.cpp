#define VP_ARENA
#include "str.cpp"
