// PTC files as other software writes them.
#define FORMATS {"ptc"}
#include "foreign.cpp"
