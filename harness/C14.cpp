// MC: variant=asan
// C14: every activation derivative is the slope of its activation, on numbers, vectors and matrices, by name and by identifier.
#include "act_main.h"
void explore() { explore_acts(true); }
