#define DAMAGED
#include "truncate.cpp"
