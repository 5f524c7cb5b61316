// Concurrent future programs with copyable results
#define MOVE_ONLY 0
#include "concfut.hpp"
