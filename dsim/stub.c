// The stub compiler (c99) and the stub of the programs it makes (simexe).
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <unistd.h>
#include "dproto.h"
__attribute__((weak)) long dsim_ask(int what, const char *path);
__attribute__((weak)) const char *dsim_root(void);
__attribute__((weak)) void dsim_tell(int what, const void *p, size_t n);
static uint64_t hash(uint64_t h, const char *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t) p[i]) * 0x100000001b3ull; return h; }
static void put(int fd, const char *p, size_t n) { while (n > 0) { ssize_t r = write(fd, p, n); if (r < 0) { if (errno == EINTR) continue; _exit(97); } p += r; n -= r; } }
static void die(int sig) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(sig, SIG_DFL); syscall(SYS_kill, syscall(SYS_getpid), sig); for (;;) pause(); }
static void noise(int fd, int kind, int id) {
	// 0 none, 1 a line, 2 bytes that are not UTF-8, 3 more than a pipe holds, 4 a line without an end
	char b[256];
	if (kind == 1) put(fd, b, sprintf(b, "noise line %d\n", id));
	if (kind == 2) put(fd, b, sprintf(b, "bad \xff\xfe\xc3 bytes %d\n", id));
	if (kind == 3) for (int i = 0; i < 900; i++) put(fd, b, sprintf(b, "%0100d line %d of %d\n", 7, i, id));
	if (kind == 4) put(fd, b, sprintf(b, "no end %d", id));
}
// The number in a "@T<number>@" of the text, or -1.
static int marker(const char *b, size_t n) { for (size_t i = 0; i + 3 < n; i++) if (b[i] == '@' && b[i + 1] == 'T' && b[i + 2] >= '0' && b[i + 2] <= '9') return atoi(b + i + 2); return -1; }
static int scan(int argc, char **argv) {
	static char b[1 << 20]; int r = -1;
	for (int i = 1; i < argc && r < 0; i++) {
		size_t k = strlen(argv[i]); if (k < 2 || strcmp(argv[i] + k - 2, ".c")) continue;
		char m[1200]; const char *root = dsim_root();
		snprintf(m, sizeof m, "%s%s", !strncmp(argv[i], "/S/", 3) || !strncmp(argv[i], "/tmp/", 5) ? root : "", argv[i]);
		int fd = (int) syscall(SYS_openat, AT_FDCWD, m, O_RDONLY);
		if (fd < 0) continue;
		long n = syscall(SYS_read, fd, b, sizeof b); syscall(SYS_close, fd);
		if (n > 0) r = marker(b, n);
	}
	return r;
}
static int c99(int argc, char **argv) {
	const char *out = NULL; char *all = NULL; size_t n = 0;
	all = malloc(1 << 22);
	n += sprintf(all, "SIMEXE\n");
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[i + 1];
	if (!out) { put(2, "c99: no output\n", 15); return 1; }
	int mk = scan(argc, argv); char q[700];
	if (mk < 0) snprintf(q, sizeof q, "%.600s", out); else snprintf(q, sizeof q, "T%d", mk);
	long m = dsim_ask(ASK_C99, q);
	int code = m & 255, sig = m >> 8 & 255, nk = m >> 16 & 15, when = m >> 20 & 3;
	if (nk && when == 0) noise(2, nk, 1);
	if (sig && when == 1) die(sig);
	for (int i = 1; i < argc; i++) {
		size_t k = strlen(argv[i]);
		if (!strcmp(argv[i], "-o")) { i++; continue; }
		if (!strcmp(argv[i], "-l") && i + 1 < argc) { n += sprintf(all + n, "-l %s\n", argv[++i]); continue; }
		if (argv[i][0] == '-') { if (!strncmp(argv[i], "-l", 2)) n += sprintf(all + n, "-l %s\n", argv[i] + 2); continue; }
		if (k < 2 || strcmp(argv[i] + k - 2, ".c")) continue;
		int fd = open(argv[i], O_RDONLY);
		if (fd < 0) { char b[700]; put(2, b, sprintf(b, "c99: error: %.500s: cannot open\n", argv[i])); return 1; }
		while (1) {
			ssize_t r = read(fd, all + n, 4000);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0) break;
			n += r;
			if (n > (1 << 22) - 8000) break;
		}
		close(fd);
		if (nk == 5 && i == argc - 1) {}
		n += sprintf(all + n, "\n@@end\n");
	}
	if (nk == 5) { char b[900]; for (int i = 1; i < argc; i++) { size_t k = strlen(argv[i]); if (k > 2 && !strcmp(argv[i] + k - 2, ".c")) put(2, b, sprintf(b, "%.500s:1:1: warning: unused\n", argv[i])); } }
	if (code && when != 2) { put(2, "c99: error\n", 11); return code; }
	unlink(out);
	int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666);
	if (fd < 0) { put(2, "c99: cannot create output\n", 26); return 1; }
	size_t half = n / 2;
	put(fd, all, half);
	if (sig) die(sig);
	if (code) { put(2, "c99: error\n", 11); return code; }
	put(fd, all + half, n - half);
	close(fd);
	chmod(out, 0755);
	if (nk && when == 3) noise(2, nk, 1);
	return 0;
}
static int simexe(int argc, char **argv) {
	static char b[1 << 22]; size_t n = 0;
	int fd = (int) syscall(SYS_openat, AT_FDCWD, getenv("SIMEXE"), O_RDONLY);
	while (fd >= 0) { long r = syscall(SYS_read, fd, b + n, sizeof b - n); if (r <= 0) break; n += r; }
	static char t[65536]; size_t k = 0;
	uint64_t h = hash(1469598103934665603ull, b, n);
	k += sprintf(t, "%016llx", (unsigned long long) h) + 1;
	for (int i = 1; i < argc && k < 60000; i++) k += snprintf(t + k, 4000, "%s", argv[i]) + 1;
	dsim_tell(TELL_EXE, t, k);
	char hs[32]; snprintf(hs, 32, "%016llx", (unsigned long long) h);
	int mk = marker(b, n), id = mk >= 0 ? mk : (int) (h % 1000);
	if (mk >= 0) snprintf(hs, 32, "T%d", mk);
	long m = dsim_ask(ASK_EXE, hs);
	int code = m & 255, sig = m >> 8 & 255, o = m >> 16 & 15, e = m >> 20 & 15, first = m >> 24 & 1;
	if (first) { noise(2, e, id); noise(1, o, id); } else { noise(1, o, id); noise(2, e, id); }
	if (sig) die(sig);
	return code;
}
int main(int argc, char **argv) {
	const char *s = strrchr(argv[0], '/'); s = s ? s + 1 : argv[0];
	if (getenv("SIMEXE") && strcmp(s, "c99")) return simexe(argc, argv);
	return c99(argc, argv);
}
