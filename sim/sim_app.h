// Included in every translated module: what simulation drivers may call.
#ifndef SIM_APP_H
#define SIM_APP_H
#ifndef _XOPEN_SOURCE
#define _XOPEN_SOURCE 700
#endif
#include <stddef.h>
void sim_note(int what, long a, long b);
void sim_bytes(int what, const void *p, size_t n);
long sim_arg(int i);
int sim_opp(int kind);
size_t sim_str(int id, void *buf, size_t n);
int sim_input(int id, void *buf, size_t n);
int sim_output(int id, const void *buf, size_t n);
#endif
