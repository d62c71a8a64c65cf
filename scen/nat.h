// libc of native (harness-written) simulated processes and tasks.
#ifndef NAT_H
#define NAT_H
#include "../sim/sim.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#include <sys/wait.h>
#include <fcntl.h>
int sim_close(int fd);
int sim_open(const char *path, int flags, ...);
ssize_t sim_read(int fd, void *buf, size_t n);
ssize_t sim_write(int fd, const void *buf, size_t n);
void sim__exit(int code);
int sim_kill(int pid, int sig);
int sim_getpid(void);
int sim_socket(int dom, int type, int proto);
int sim_bind(int fd, const struct sockaddr *a, socklen_t n);
int sim_listen(int fd, int backlog);
int sim_connect(int fd, const struct sockaddr *a, socklen_t n);
int sim_accept(int fd, struct sockaddr *a, socklen_t *n);
ssize_t sim_recv(int fd, void *buf, size_t n, int flags);
ssize_t sim_send(int fd, const void *buf, size_t n, int flags);
int sim_shutdown(int fd, int how);
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n);
static inline int nat_write_all(int fd, const void *p, size_t n) {
	const u8 *b = p; size_t i = 0;
	while (i < n) { ssize_t r = sim_write(fd, b + i, n - i); if (r <= 0) return -1; i += (size_t) r; }
	return 0;
}
static inline u8 patt(long tag, long i) { return (u8) (i * 7 + tag * 31 + i / 251 * 13); }
#endif
