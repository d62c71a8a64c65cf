// Drives the event loop of prog/torrent: a handler that does what the simulator says.
#import ioloop.c

#define ASK_ACTION 0
#define ASK_AMOUNT 1
#define ASK_TARGET 2
#define ASK_STOP 9
#define ASK_LISTEN 10

#define N_START 1
#define N_EVENT 2
#define N_WROTE 3
#define N_CLOSE 4
#define N_TIMER 5
#define N_FIRED 6
#define N_CONNECT 7
#define N_LOOP 8
#define N_END 9
#define N_CONN 10

typedef {
	int id;
} st_t;

void *ctxs[4000] = {};
int nids = 0;
int curconn = -1;

int idof(void *ctx) {
	st_t *s = ioloop.get_stash(ctx);
	if (!s) {
		s = calloc!(1, sizeof(st_t));
		s->id = nids++;
		ctxs[s->id] = ctx;
		ioloop.set_stash(ctx, s);
		OS.sim_note(N_CONN, s->id, curconn);
	}
	return s->id;
}

void handle(void *ctx, int event, void *edata) {
	if (event == ioloop.CONNECTED) {
		int *k = edata;
		if (k) {
			if (*k != curconn) panic("wrong init data");
		} else if (curconn >= 0) {
			panic("no init data");
		}
	}
	int id = idof(ctx);
	if (event == ioloop.EXIT) ctxs[id] = NULL;
	curconn = -1;
	if (event == ioloop.DATA_IN) {
		ioloop.buff_t *b = edata;
		OS.sim_bytes(id, b->data, b->len);
	}
	int ev = 0;
	if (event == ioloop.CONNECTED) ev = 1;
	if (event == ioloop.CONNECT_FAILED) ev = 2;
	if (event == ioloop.DATA_IN) ev = 3;
	if (event == ioloop.WRITE_FINISHED) ev = 4;
	if (event == ioloop.EXIT) ev = 5;
	OS.sim_note(N_EVENT, id, ev);
	if (event == ioloop.CONNECT_FAILED) return;
	actions();
	if (event == ioloop.EXIT) free(ioloop.get_stash(ctx));
}

void actions() {
	while (true) {
		int a = OS.sim_arg(ASK_ACTION);
		if (a == 0) return;
		int n = OS.sim_arg(ASK_AMOUNT);
		int target = OS.sim_arg(ASK_TARGET);
		switch (a) {
			case 1: {
				char *b = calloc!(n + 1, 1);
				OS.sim_str(target, b, n);
				if (ioloop.write(ctxs[target], b, n)) {
					OS.sim_note(N_WROTE, target, n);
				} else {
					OS.sim_note(N_WROTE, target, -1);
				}
				free(b);
			}
			case 2: {
				OS.sim_note(N_CLOSE, target, 0);
				ioloop.close(ctxs[target]);
			}
			case 3: {
				OS.sim_note(N_TIMER, target, n);
				switch (target) {
					case 0: { ioloop.set_timer(t0, n); }
					case 1: { ioloop.set_timer(t1, n); }
					case 2: { ioloop.set_timer(t2, n); }
					case 3: { ioloop.set_timer(t3, n); }
				}
			}
			case 4: {
				char addr[100] = {};
				sprintf(addr, "server:%d", 8000 + target);
				int k = target;
				curconn = k;
				OS.sim_note(N_CONNECT, k, 0);
				ioloop.connect(addr, handle, &k);
				OS.sim_note(N_CONNECT, k, 1);
				curconn = -1;
			}
		}
	}
}

void fired(int k) {
	OS.sim_note(N_FIRED, k, 0);
	actions();
}
void t0() { fired(0); }
void t1() { fired(1); }
void t2() { fired(2); }
void t3() { fired(3); }

int main() {
	if (OS.sim_arg(ASK_LISTEN)) {
		ioloop.listen("localhost:7000", handle);
	}
	OS.sim_note(N_START, 0, 0);
	actions();
	while (true) {
		OS.sim_note(N_LOOP, 0, 0);
		if (OS.sim_arg(ASK_STOP)) break;
		if (!ioloop.process()) {
			OS.sim_note(N_END, 1, 0);
			return 0;
		}
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
