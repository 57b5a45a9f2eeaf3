// PRT files as other software writes them.
#define FORMATS {"prt"}
#include "foreign.cpp"
