// The same histories against the interleaved layout (C03).
#define INTERLEAVE
#include "table.cpp"
