// Drives os/net: clients, a listener, failures.
#import os/net
#import reader

#define A_MODE 0
#define A_CONNS 1
#define A_OUT 2
#define A_CHUNK 4
#define A_READER 5
#define A_PRINTLEN 6
#define A_PINGS 7

#define N_START 1
#define N_CONNFAIL 2
#define N_CONNECTED 3
#define N_WRITEFAIL 4
#define N_READFAIL 5
#define N_READEND 6
#define N_END 7
#define N_LISTENFAIL 8
#define N_ACCEPTFAIL 9
#define N_WROTE 10
#define N_BADADDR 11
#define N_POS 12
#define N_PONG 13

#define B_DATA 100
#define B_ADDR 200

uint8_t pattern(int tag, int i) {
	return (i * 7 + tag * 31 + i / 251 * 13) & 255;
}

void senddata(net.net_t *c, int id, int len) {
	char *buf = calloc!(len + 1, 1);
	for (int i = 0; i < len; i++) {
		buf[i] = (char) pattern(id, i);
	}
	int pos = 0;
	while (pos < len) {
		int n = len - pos;
		if (n > (int) OS.sim_arg(A_CHUNK)) n = OS.sim_arg(A_CHUNK);
		int r = net.write(c, buf + pos, n);
		if (r < 0) {
			OS.sim_note(N_WRITEFAIL, id, pos);
			break;
		}
		pos += r;
		OS.sim_note(N_WROTE, id, pos);
	}
	free(buf);
}

void recvdata(net.net_t *c, int id) {
	char buf[3000] = {};
	int size = OS.sim_arg(A_CHUNK);
	if (size > 3000) size = 3000;
	reader.t *r = NULL;
	if (OS.sim_arg(A_READER)) {
		r = net.getreader(c);
	}
	int total = 0;
	while (true) {
		int n = 0;
		if (r) {
			n = reader.read(r, (uint8_t *) buf, size);
		} else {
			n = net.read(c, buf, size);
		}
		if (n < 0) {
			OS.sim_note(N_READFAIL, id, total);
			break;
		}
		if (n == 0) {
			OS.sim_note(N_READEND, id, total);
			break;
		}
		OS.sim_bytes(B_DATA + id, buf, n);
		total += n;
	}
	if (r) {
		OS.sim_note(N_POS, total, r->pos);
		reader.free(r);
	}
}

// Asks for a few bytes at a time: the answer must come without waiting for more.
bool pingpong(net.net_t *c) {
	reader.t *r = net.getreader(c);
	for (int i = 0; i < (int) OS.sim_arg(A_PINGS); i++) {
		char ask = (char) (1 + i % 5);
		if (net.write(c, &ask, 1) != 1) {
			reader.free(r);
			return false;
		}
		int have = 0;
		while (have < 1 + i % 5) {
			char buf[50] = {};
			int n = 0;
			size_t max = sizeof(buf);
			if (i == (int) OS.sim_arg(A_PINGS) - 1) {
				max = (size_t) (1 + i % 5 - have);
			}
			if (OS.sim_arg(A_READER)) {
				n = reader.read(r, (uint8_t *) buf, max);
			} else {
				n = net.read(c, buf, max);
			}
			if (n <= 0) {
				reader.free(r);
				return false;
			}
			have += n;
			for (int k = 0; k < n; k++) {
				if (buf[k] != ask) OS.sim_note(N_PONG, ask, buf[k]);
			}
		}
		if (have != 1 + i % 5) OS.sim_note(N_PONG, ask, -1);
	}
	reader.free(r);
	return true;
}

void talk(net.net_t *c, int id) {
	if (!pingpong(c)) {
		OS.sim_note(N_READFAIL, id, 0);
		return;
	}
	if (OS.sim_arg(A_PRINTLEN) >= 0) {
		int n = OS.sim_arg(A_PRINTLEN);
		char *s = calloc!(n + 1, 1);
		for (int i = 0; i < n; i++) {
			s[i] = (char) (97 + (i % 26));
		}
		net.net_printf(c, "<%d:%s:%c%%%05d>", id, s, 'Q', n);
		free(s);
	}
	senddata(c, id, OS.sim_arg(A_OUT));
	recvdata(c, id);
}

void client() {
	int n = OS.sim_arg(A_CONNS);
	for (int i = 0; i < n; i++) {
		errno = 0;
		net.net_t *c = net.connect("tcp", "server:7000");
		if (c == NULL) {
			OS.sim_note(N_CONNFAIL, i, errno);
			continue;
		}
		OS.sim_note(N_CONNECTED, i, 0);
		OS.sim_bytes(B_ADDR + i, net.net_addr(c), strlen(net.net_addr(c)));
		talk(c, i);
		net.close(c);
	}
}

void server() {
	int n = OS.sim_arg(A_CONNS);
	net.net_t *l = net.net_listen("tcp", "server:7000");
	if (l == NULL) {
		OS.sim_note(N_LISTENFAIL, strlen(net.net_error()), 0);
		return;
	}
	for (int i = 0; i < n; i++) {
		net.net_t *c = net.net_accept(l);
		if (c == NULL) {
			OS.sim_note(N_ACCEPTFAIL, i, 0);
			continue;
		}
		OS.sim_note(N_CONNECTED, i, 0);
		OS.sim_bytes(B_ADDR + i, net.net_addr(c), strlen(net.net_addr(c)));
		talk(c, i);
		net.close(c);
	}
	net.close(l);
}

void nonblock() {
	int n = OS.sim_arg(A_CONNS);
	net.net_t *conns[16] = {};
	for (int i = 0; i < n; i++) {
		errno = 0;
		conns[i] = net.connect_nonblock("tcp", "server:7000");
		if (conns[i] == NULL) {
			OS.sim_note(N_CONNFAIL, i, errno);
		}
	}
	for (int i = 0; i < n; i++) {
		if (conns[i] == NULL) continue;
		net.close(conns[i]);
	}
}

void badaddr() {
	char big[400] = {};
	for (int i = 0; i < 300; i++) big[i] = 'h';
	char host[400] = {};
	snprintf(host, sizeof(host), "h:%s", big + 280);
	char *addrs[] = {"server", "", big, host, ":", "nosuchhost:80", ":7000x:y"};
	char *protos[] = {"tcp", "tcp", "tcp", "tcp", "tcp", "tcp", "udp"};
	for (size_t i = 0; i < nelem(addrs); i++) {
		if (net.connect(protos[i], addrs[i]) != NULL) OS.sim_note(N_BADADDR, i, 0);
		if (net.net_listen(protos[i], addrs[i]) != NULL) OS.sim_note(N_BADADDR, i, 1);
		if (net.connect_nonblock(protos[i], addrs[i]) != NULL) OS.sim_note(N_BADADDR, i, 2);
	}
	if (net.connect("sctp", "server:7000") != NULL) OS.sim_note(N_BADADDR, 100, 0);
}

int main() {
	OS.sim_note(N_START, 0, 0);
	switch (OS.sim_arg(A_MODE)) {
		case 0: { client(); }
		case 1: { server(); }
		case 2: { nonblock(); }
		case 3: { badaddr(); }
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
