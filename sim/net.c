// TCP over a simulated network.
#include "int.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <signal.h>

u32 sock_cap = 65536;
static ofd_t *socks[2048]; static int nsocks;
static struct { char name[64]; u32 ip; } hosts[32]; static int nhosts;
static u16 next_port = 40000;

void net_set_capacity(u32 n) { sock_cap = n; }
void net_host(const char *name, u32 ip) { snprintf(hosts[nhosts].name, 64, "%s", name); hosts[nhosts++].ip = ip; }
void net_init(void) { net_host("localhost", 0x7f000001); net_host("simhost", 0x7f000001); }
int net_open_conns(void) { int n = 0; for (int i = 0; i < nsocks; i++) if (socks[i]->refs > 0) n++; return n; }

static ofd_t *sock_new(void) {
	if (nsocks >= 2048) sim_harness_error("too many sockets");
	ofd_t *o = ofd_new(O_SOCK);
	o->id = nsocks;
	o->flags = O_RDWR;
	o->cap = sock_cap;
	socks[nsocks++] = o;
	return o;
}
int sim_socket(int dom, int type, int proto) {
	(void) proto;
	sim_yield();
	if (faulty(F_SOCKET_FAIL)) { int es[] = {EMFILE, ENFILE, ENOBUFS}; errno = es[sim_choose(3)]; sim_log("socket fails"); return -1; }
	if (dom != AF_INET && dom != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
	if ((type & 0xf) != SOCK_STREAM) { errno = EPROTONOSUPPORT; return -1; }
	ofd_t *o = sock_new();
	o->creator = cur->proc;
	if (type & SOCK_NONBLOCK) o->flags |= O_NONBLOCK;
	int fd = fd_alloc(cur->proc, o, 0);
	if (fd >= 0 && (type & SOCK_CLOEXEC)) cur->proc->cloexec[fd] = 1;
	sim_log("socket = %d", fd);
	return fd;
}
static ofd_t *listener_at(u32 ip, u16 port) {
	for (int i = 0; i < nsocks; i++) {
		ofd_t *o = socks[i];
		if (o->refs > 0 && o->st == S_LISTEN && o->lport == port && (o->lip == 0 || o->lip == ip || ip == 0)) return o;
	}
	return NULL;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t n) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (n < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
	const struct sockaddr_in *s = (const void *) a;
	if (faulty(F_BIND_FAIL)) { errno = sim_flip(1, 2) ? EADDRINUSE : EACCES; sim_log("bind fails"); return -1; }
	if (listener_at(ntohl(s->sin_addr.s_addr), ntohs(s->sin_port)) && s->sin_port) { errno = EADDRINUSE; return -1; }
	o->lip = ntohl(s->sin_addr.s_addr);
	o->lport = s->sin_port ? ntohs(s->sin_port) : next_port++;
	o->st = S_BOUND;
	sim_log("bind(%d, %u)", fd, o->lport);
	return 0;
}
int sim_listen(int fd, int backlog) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (faulty(F_LISTEN_FAIL)) { errno = EADDRINUSE; sim_log("listen fails"); return -1; }
	if (o->st == S_NEW) { o->lport = next_port++; }
	o->st = S_LISTEN;
	o->backlog = backlog < 1 ? 1 : backlog > 60 ? 60 : backlog;
	sim_log("listen(%d)", fd);
	return 0;
}
// ---------------------------------------------------------------- delivery
static void deliver(void *a) {
	ofd_t *o = a;
	// everything due
	while (o->inflight && o->inflight->at <= now_ns) {
		seg_t *s = o->inflight;
		o->inflight = s->next;
		if (!o->inflight) o->inflight_tail = NULL;
		if (o->refs == 0 || o->st == S_DEAD || o->rst) {
			// data for a closed socket: the sender gets a reset
			if (s->n > 0 && o->peer && o->peer->refs > 0) {
				ofd_t *p = o->peer;
				if (!p->rst) { p->rst = 1; p->so_error = ECONNRESET; p->st = S_DEAD; }
			}
		} else if (s->rst) {
			o->rst = 1; o->so_error = ECONNRESET; o->st = S_DEAD;
			o->rx_fin = 1;
		} else {
			if (s->n && o->rx_shut) {}
			else if (s->n) bytes_add(&o->rx, s->p, s->n);
			if (s->fin) o->rx_fin = 1;
		}
		free(s->p); free(s);
	}
}
static void send_seg(ofd_t *from, const void *p, size_t n, int fin, int rst) {
	ofd_t *to = from->peer;
	if (!to) return;
	seg_t *s = calloc(1, sizeof *s);
	s->p = n ? malloc(n) : NULL;
	if (n) memcpy(s->p, p, n);
	s->n = n; s->fin = fin; s->rst = rst;
	u64 at = now_ns + 20000;
	if (sim_fault(F_DELAY)) {
		static const u64 d[] = {1 * MS, 20 * MS, 300 * MS, 4 * SEC};
		at += d[sim_choose(4)];
	}
	if (at < to->last_at) at = to->last_at; // a byte stream keeps its order
	to->last_at = at;
	s->at = at;
	if (to->inflight_tail) to->inflight_tail->next = s; else to->inflight = s;
	to->inflight_tail = s;
	sim_at(at, deliver, to);
}
static size_t pending(ofd_t *to) {
	size_t n = to->refs ? to->rx.n - to->rxpos : 0;
	for (seg_t *s = to->inflight; s; s = s->next) n += s->n;
	return n;
}
static size_t room(ofd_t *o) {
	ofd_t *to = o->peer;
	if (!to) return 0;
	size_t p = pending(to);
	return p >= to->cap ? 0 : to->cap - p;
}
// ---------------------------------------------------------------- connect / accept
static void syn(void *a) {
	ofd_t *c = a;
	if (c->refs == 0 || c->st != S_CONNECTING) return;
	ofd_t *l = listener_at(c->rip, c->rport);
	if (c->so_error) { c->st = S_DEAD; return; }
	if (!l) { c->so_error = ECONNREFUSED; c->st = S_DEAD; return; }
	if (l->nacc >= l->backlog) { sim_at(now_ns + 1 * SEC, syn, c); return; } // SYN dropped, retried
	ofd_t *s = sock_new();
	s->st = S_EST; s->peer = c; c->peer = s; c->st = S_EST;
	s->lip = c->rip; s->lport = c->rport; s->rip = c->lip; s->rport = c->lport;
	s->refs = 1; // held by the accept queue
	l->acceptq[l->nacc++] = s;
}
static void syn_fail(void *a) {
	ofd_t *c = a;
	if (c->refs == 0 || c->st != S_CONNECTING) return;
	c->st = S_DEAD;
}
static int connected(void *a, long b) { (void) b; ofd_t *o = a; return o->st != S_CONNECTING; }
int sim_connect(int fd, const struct sockaddr *a, socklen_t n) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (n < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
	const struct sockaddr_in *s = (const void *) a;
	if (s->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
	if (o->st == S_EST) { errno = EISCONN; return -1; }
	if (o->st == S_CONNECTING) { errno = EALREADY; return -1; }
	if (o->st == S_DEAD) { if (o->so_error) { errno = o->so_error; o->so_error = 0; } else errno = ECONNABORTED; return -1; }
	o->rip = ntohl(s->sin_addr.s_addr); o->rport = ntohs(s->sin_port);
	if (!o->lport) { o->lip = 0x7f000001; o->lport = next_port++; }
	o->st = S_CONNECTING;
	if (faulty(F_CONNECT_FAIL)) {
		int es[] = {ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EHOSTUNREACH};
		int e = es[sim_choose(4)];
		if (e == ENETUNREACH) { o->st = S_DEAD; errno = e; sim_log("connect fails at once"); return -1; }
		o->so_error = e;
		sim_at(now_ns + (e == ETIMEDOUT ? 120 * SEC : 1 * MS), syn_fail, o);
	} else {
		u64 d = 50000;
		if (sim_fault(F_DELAY)) d += (u64[]) {5 * MS, 200 * MS, 3 * SEC}[sim_choose(3)];
		sim_at(now_ns + d, syn, o);
	}
	if (o->flags & O_NONBLOCK) { errno = EINPROGRESS; sim_log("connect(%d) in progress", fd); return -1; }
	sim_block("connect", connected, o, 0, FOREVER);
	if (o->st == S_EST) { sim_log("connect(%d, %u) ok", fd, o->rport); return 0; }
	errno = o->so_error ? o->so_error : ECONNREFUSED;
	o->so_error = 0;
	sim_log("connect(%d): %s", fd, strerror(errno));
	return -1;
}
static int acceptable(void *a, long b) { (void) b; ofd_t *o = a; return o->nacc > 0 || o->st != S_LISTEN; }
static void fill_addr(struct sockaddr *a, socklen_t *n, u32 ip, u16 port) {
	if (!a || !n) return;
	struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(ip)};
	socklen_t m = *n < sizeof s ? *n : sizeof s;
	app_check(a, m, 1, "sockaddr");
	memcpy(a, &s, m);
	*n = sizeof s;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (o->st != S_LISTEN) { errno = EINVAL; return -1; }
	if (!acceptable(o, 0)) {
		if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
		if (faulty(F_EINTR)) { errno = EINTR; return -1; }
		sim_block("accept", acceptable, o, 0, FOREVER);
	}
	if (o->nacc == 0) { errno = EINVAL; return -1; }
	if (faulty(F_ACCEPT_FAIL)) {
		int es[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS};
		int e = es[sim_choose(4)];
		if (e == ECONNABORTED) {
			// the connection is gone
			ofd_t *s = o->acceptq[0];
			memmove(o->acceptq, o->acceptq + 1, (--o->nacc) * sizeof(ofd_t *));
			s->refs = 0;
			if (s->peer) { s->peer->rst = 1; s->peer->rx_fin = 1; s->peer->so_error = ECONNRESET; s->peer->st = S_DEAD; }
			s->st = S_DEAD;
		}
		errno = e;
		sim_log("accept: %s", strerror(e));
		return -1;
	}
	ofd_t *s = o->acceptq[0];
	memmove(o->acceptq, o->acceptq + 1, (--o->nacc) * sizeof(ofd_t *));
	s->refs = 0;
	s->accepted = 1;
	s->creator = cur->proc;
	if (flags & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
	int nfd = fd_alloc(cur->proc, s, 0);
	if (nfd < 0) { s->refs = 1; ofd_unref(s); errno = EMFILE; return -1; }
	if (flags & SOCK_CLOEXEC) cur->proc->cloexec[nfd] = 1;
	fill_addr(a, n, s->rip, s->rport);
	sim_log("accept(%d) = %d from port %u", fd, nfd, s->rport);
	return nfd;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *n) { return sim_accept4(fd, a, n, 0); }
// ---------------------------------------------------------------- data
int sock_readable(ofd_t *o) {
	if (o->st == S_LISTEN) return o->nacc > 0;
	if (o->st == S_NEW || o->st == S_BOUND) return 1;
	if (o->st == S_CONNECTING) return 0;
	return o->rx.n > o->rxpos || o->rx_fin || o->st == S_DEAD || o->rst || o->rx_shut;
}
int sock_writable(ofd_t *o) {
	if (o->st == S_LISTEN || o->st == S_CONNECTING) return 0;
	if (o->st != S_EST) return 1;
	if (o->tx_shut || !o->peer) return 1;
	// low-water mark, as real stacks have
	size_t r = room(o);
	return r > 0;
}
static int readable_p(void *a, long b) { (void) b; return sock_readable(a); }
static int writable_p(void *a, long b) { (void) b; return sock_writable(a); }
ssize_t sock_recv(ofd_t *o, void *buf, size_t n, int flags) {
	if (o->st == S_NEW || o->st == S_BOUND || o->st == S_LISTEN) { errno = ENOTCONN; return -1; }
	if (faulty(F_RECV_FAIL)) {
		errno = ECONNRESET; o->rst = 1; o->st = S_DEAD; o->rx_fin = 1; o->so_error = 0;
		if (o->peer && o->peer->refs > 0) send_seg(o, NULL, 0, 0, 1);
		return -1;
	}
	if (n == 0) return 0;
	if (!sock_readable(o)) {
		if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
		if (faulty(F_EINTR)) { errno = EINTR; return -1; }
		int ok = sim_block("recv", readable_p, o, 0, o->rcvtimeo ? now_ns + o->rcvtimeo : FOREVER);
		if (!ok) { errno = EAGAIN; return -1; }
	} else if (faulty(F_EAGAIN) && (o->flags & O_NONBLOCK)) { errno = EAGAIN; return -1; }
	if (o->rx_shut) return 0;
	size_t av = o->rx.n - o->rxpos;
	if (av == 0) {
		if (o->so_error) { errno = o->so_error; o->so_error = 0; return -1; }
		return 0;
	}
	if (av > n) av = n;
	if (av > 1 && !(flags & MSG_WAITALL) && faulty(F_SHORT_READ)) {
		av = sim_flip(1, 2) ? 1 : 1 + sim_choose_small((u32) (av - 1));
	}
	memcpy(buf, o->rx.p + o->rxpos, av);
	if (!(flags & MSG_PEEK)) {
		o->rxpos += av;
		if (o->rxpos == o->rx.n) o->rxpos = o->rx.n = 0;
	}
	if ((flags & MSG_WAITALL) && av < n && !o->rx_fin) {
		ssize_t r = sock_recv(o, (u8 *) buf + av, n - av, flags);
		return r < 0 ? (ssize_t) av : (ssize_t) av + r;
	}
	return (ssize_t) av;
}
static ssize_t broken(ofd_t *o, int flags) {
	if (o->so_error) { errno = o->so_error; o->so_error = 0; return -1; }
	if (!(flags & MSG_NOSIGNAL)) sig_raise(SIGPIPE);
	errno = EPIPE;
	return -1;
}
ssize_t sock_send(ofd_t *o, const void *buf, size_t n, int flags) {
	if (o->st == S_NEW || o->st == S_BOUND || o->st == S_LISTEN) { if (!(flags & MSG_NOSIGNAL)) sig_raise(SIGPIPE); errno = o->st == S_NEW ? EPIPE : ENOTCONN; return -1; }
	if (o->st == S_CONNECTING) {
		if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
		sim_block("send", connected, o, 0, FOREVER);
	}
	if (o->st == S_DEAD || o->tx_shut) return broken(o, flags);
	if (faulty(F_SEND_FAIL)) {
		o->rst = 1; o->st = S_DEAD; o->rx_fin = 1;
		send_seg(o, NULL, 0, 0, 1);
		errno = sim_flip(1, 2) ? ECONNRESET : ETIMEDOUT;
		return -1;
	}
	size_t sent = 0;
	const u8 *b = buf;
	while (sent < n) {
		if (o->st == S_DEAD || !o->peer) { if (sent) break; return broken(o, flags); }
		size_t r = room(o);
		if (r == 0) {
			if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { if (sent) break; errno = EAGAIN; return -1; }
			int ok = sim_block("send", writable_p, o, 0, o->sndtimeo ? now_ns + o->sndtimeo : FOREVER);
			if (!ok) { if (sent) break; errno = EAGAIN; return -1; }
			continue;
		}
		size_t m = n - sent < r ? n - sent : r;
		if (m > 1 && sim_fault(F_FRAGMENT)) m = sim_flip(1, 3) ? 1 : 1 + sim_choose((u32) (m - 1));
		send_seg(o, b + sent, m, 0, 0);
		sent += m;
		if (sent < n && faulty(F_SHORT_WRITE)) break;
	}
	if (o->peer && sim_fault(F_RESET)) {
		// the network kills the connection: both sides see a reset
		ofd_t *p = o->peer;
		o->rst = 1; o->st = S_DEAD; o->so_error = ECONNRESET; o->rx_fin = 1;
		send_seg(o, NULL, 0, 0, 1);
		(void) p;
	}
	return (ssize_t) sent;
}
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
	sim_yield();
	app_check(buf, n, 1, "recv");
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	ssize_t r = sock_recv(o, buf, n, flags);
	sim_log("recv(%d, %zu) = %zd %llx", fd, n, r, r > 0 ? (unsigned long long) hash_bytes(7, buf, r) : 0);
	return r;
}
ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *a, socklen_t *al) { (void) a; (void) al; return sim_recv(fd, buf, n, flags); }
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) {
	sim_yield();
	sim_slow_point();
	app_check(buf, n, 0, "send");
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	ssize_t r = sock_send(o, buf, n, flags);
	sim_log("send(%d, %zu) = %zd %llx", fd, n, r, r > 0 ? (unsigned long long) hash_bytes(7, buf, r) : 0);
	return r;
}
ssize_t sim_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *a, socklen_t al) { (void) a; (void) al; return sim_send(fd, buf, n, flags); }
void sock_closed(ofd_t *o) {
	if (o->closed) return;
	o->closed = 1;
	if (o->st == S_LISTEN) {
		for (int i = 0; i < o->nacc; i++) { ofd_t *s = o->acceptq[i]; s->refs = 0; s->closed = 1; if (s->peer) send_seg(s, NULL, 0, 0, 1); s->st = S_DEAD; }
		o->nacc = 0;
		return;
	}
	if (o->peer && (o->st == S_EST)) {
		// closing with unread data resets the connection
		if (o->rx.n > o->rxpos) send_seg(o, NULL, 0, 0, 1);
		else if (!o->tx_shut) send_seg(o, NULL, 0, 1, 0);
	}
}
void net_drop_conn(ofd_t *o) {
	if (o->peer && o->st == S_EST) send_seg(o, NULL, 0, 0, 1);
	o->st = S_DEAD; o->rst = 1; o->rx_fin = 1;
}
int sim_shutdown(int fd, int how) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (o->st != S_EST) { errno = ENOTCONN; return -1; }
	if (how != SHUT_RD && !o->tx_shut) { o->tx_shut = 1; send_seg(o, NULL, 0, 1, 0); }
	if (how != SHUT_WR) o->rx_shut = 1;
	return 0;
}
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n) {
	(void) lvl;
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	if (faulty(F_SOCKOPT_FAIL)) { errno = ENOBUFS; sim_log("setsockopt fails"); return -1; }
	if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(struct timeval)) {
		const struct timeval *tv = v;
		u64 t = (u64) tv->tv_sec * SEC + (u64) tv->tv_usec * 1000;
		if (opt == SO_RCVTIMEO) o->rcvtimeo = t; else o->sndtimeo = t;
	}
	return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *n) {
	(void) lvl;
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_SOCK) { errno = ENOTSOCK; return -1; }
	int r = 0;
	if (lvl == SOL_SOCKET && opt == SO_ERROR) { r = o->st == S_CONNECTING ? 0 : o->so_error; if (o->st != S_CONNECTING) o->so_error = 0; }
	else if (lvl == SOL_SOCKET && opt == SO_TYPE) r = SOCK_STREAM;
	if (*n >= 4) { *(int *) v = r; *n = 4; }
	return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	fill_addr(a, n, o->lip, o->lport);
	return 0;
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (!o->peer) { errno = ENOTCONN; return -1; }
	fill_addr(a, n, o->rip, o->rport);
	return 0;
}
int sim_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **out) {
	sim_yield();
	if (faulty(F_RESOLVE_FAIL)) { sim_log("getaddrinfo fails"); return sim_flip(1, 2) ? EAI_AGAIN : EAI_NONAME; }
	u32 ip = 0;
	struct in_addr in;
	int found = 0;
	if (!host || !*host) {
		if (host) return EAI_NONAME;
		ip = h && (h->ai_flags & AI_PASSIVE) ? 0 : 0x7f000001; found = 1;
	} else if (inet_aton(host, &in)) { ip = ntohl(in.s_addr); found = 1; }
	else for (int i = 0; i < nhosts; i++) if (!strcmp(hosts[i].name, host)) { ip = hosts[i].ip; found = 1; }
	if (!found) return EAI_NONAME;
	int pn = 0;
	if (port && *port) {
		char *e; long v = strtol(port, &e, 10);
		if (*e) { if (!strcmp(port, "http")) v = 80; else if (!strcmp(port, "https")) v = 443; else return EAI_SERVICE; }
		pn = (int) (v & 0xffff);
	}
	if (h && h->ai_family == AF_INET6) return EAI_NONAME;
	int f;
	struct addrinfo *r = app_alloc(sizeof *r + sizeof(struct sockaddr_in), 1, &f);
	struct sockaddr_in *s = (void *) (r + 1);
	s->sin_family = AF_INET; s->sin_port = htons((u16) pn); s->sin_addr.s_addr = htonl(ip);
	r->ai_family = AF_INET; r->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; r->ai_protocol = IPPROTO_TCP;
	r->ai_addrlen = sizeof *s; r->ai_addr = (void *) s;
	*out = r;
	return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) {
	extern void sim_free(void *);
	sim_free(a);
}
int sim_tcp_state(int fd) { ofd_t *o = fd_get(fd); return o ? o->st : -1; }
