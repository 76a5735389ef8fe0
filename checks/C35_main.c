// the command line program of the tree under test, callable as a function of a process of its own
#undef CBQN_LIB
#define CBQN_LIB 0
#define main cbqn_main
#include "main.c"
