#define CHARGEN 1
#include "echo7.c"
