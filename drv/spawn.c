// Drives os/proc.spawn: several children, data in, data out, exit status.
#include <signal.h>
#import os/proc
#import reader
#import writer

#define A_CHILDREN 0
#define A_MODE 1
#define A_PENDING 2
#define A_INLEN 16
#define A_PROG 24
#define A_ORDER 32
#define A_READSIZE 40

#define N_START 1
#define N_SPAWNED 2
#define N_FAILED 3
#define N_WRITEERR 4
#define N_EOF 5
#define N_WAIT 6
#define N_END 7
#define N_READERR 8

#define B_OUT 100
#define B_ERR 200

proc.proc_t *begin(int i) {
	char *progs[] = {"/bin/filter", "/bin/source", "/bin/sink", "/bin/missing"};
	char name[20] = {};
	snprintf(name, sizeof(name), "child%d", i);
	char var[20] = {};
	snprintf(var, sizeof(var), "NUMBER=%d", i);
	char *argv[] = {progs[OS.sim_arg(A_PROG + i)], name, "two words", "", NULL};
	char *env[] = {var, "EMPTY=", "X=a=b", NULL};
	proc.proc_t *p = proc.spawn(argv, env);
	if (p == NULL) {
		OS.sim_note(N_FAILED, i, 0);
	} else {
		OS.sim_note(N_SPAWNED, i, p->pid);
	}
	return p;
}

uint8_t pattern(int tag, int i) {
	return (i * 7 + tag * 31 + i / 251 * 13) & 255;
}

void drain(int i, reader.t *r, int what) {
	uint8_t buf[5000] = {};
	int size = OS.sim_arg(A_READSIZE + i);
	while (true) {
		int n = reader.read(r, buf, size);
		if (n < 0) {
			OS.sim_note(N_READERR, i, what);
			return;
		}
		if (n == 0) break;
		OS.sim_bytes(what + i, buf, n);
	}
	OS.sim_note(N_EOF, i, what);
}

void feed(int i, proc.proc_t *p) {
	int len = OS.sim_arg(A_INLEN + i);
	uint8_t *data = calloc!(len + 1, 1);
	for (int k = 0; k < len; k++) {
		data[k] = pattern(i, k);
	}
	int pos = 0;
	while (pos < len) {
		int n = writer.write(p->stdin, data + pos, len - pos);
		if (n <= 0) {
			OS.sim_note(N_WRITEERR, i, pos);
			break;
		}
		pos += n;
	}
	free(data);
	writer.free(p->stdin);
}

void finish(int i, proc.proc_t *p) {
	drain(i, p->stdout, B_OUT);
	drain(i, p->stderr, B_ERR);
	int status = -1;
	int ok = 0;
	if (proc.wait(p, &status)) ok = 1;
	OS.sim_note(N_WAIT, i, status * 2 + ok);
}

int main() {
	// A broken pipe is an error for the writer, not the end of the program.
	OS.signal(OS.SIGPIPE, OS.SIG_IGN);
	int n = OS.sim_arg(A_CHILDREN);
	proc.proc_t *p[8] = {};
	if (OS.sim_arg(A_PENDING)) {
		printf("pending");
	}
	OS.sim_note(N_START, 0, 0);
	if (OS.sim_arg(A_MODE) == 0) {
		for (int i = 0; i < n; i++) {
			p[i] = begin(i);
			if (p[i] == NULL) continue;
			feed(i, p[i]);
			finish(i, p[i]);
		}
	} else {
		for (int i = 0; i < n; i++) {
			p[i] = begin(i);
		}
		for (int k = 0; k < n; k++) {
			int i = OS.sim_arg(A_ORDER + k);
			if (p[i] == NULL) continue;
			feed(i, p[i]);
			finish(i, p[i]);
		}
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
