#define WHICH 18
#include "C17.cpp"
