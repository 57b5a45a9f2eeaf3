// Nearest neighbour queries (C19).
#define NEAREST
#include "spatial.cpp"
