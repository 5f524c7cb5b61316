// Concurrent future programs with move-only results
#define MOVE_ONLY 1
#include "concfut.hpp"
