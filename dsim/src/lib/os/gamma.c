#link pthread
#include <time.h>
#include <unistd.h>

pub typedef { int ticks; time_t last; } clock_data_t;

pub void tick(clock_data_t *c) {
	c->ticks++;
	c->last = time(NULL);
}

pub int pid() {
	return OS.getpid();
}
