// MC: variant=asan
// C13: every activation equals its textbook function on numbers, vectors and matrices, by name and by identifier.
#include "act_main.h"
void explore() { explore_acts(false); }
