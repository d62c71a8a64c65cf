// che build of generated programs with one mistake put in: see dtrans.c
#define BAD_RUN 1
const char *scen_name = "dbad";
#include "dtrans.c"
