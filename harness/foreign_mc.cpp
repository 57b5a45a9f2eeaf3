// MC files as other software writes them.
#define FORMATS {"mc"}
#include "foreign.cpp"
