// BIN files as other software writes them.
#define FORMATS {"bin"}
#include "foreign.cpp"
