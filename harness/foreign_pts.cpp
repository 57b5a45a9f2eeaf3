// PTS files as other software writes them.
#define FORMATS {"pts"}
#include "foreign.cpp"
