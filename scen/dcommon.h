// Programs and helpers shared by the scenarios over real che processes.
#include "../dsim/dsim.h"
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
typedef struct { const char *dir, *src, *base; int valid, mods; const char *must[8]; } prog_t;
static prog_t PROGS[] = {
	{"p2", "main.c", "main", 1, 1, {"Howdy, Globe!"}},
	{"p0", "main.c", "main", 1, 4, {"%s %d\\n", "\"none\"", "getpid", "-l pthread\n"}},
	{"p1", "main.c", "main", 1, 5, {"%d %s", "getpid", "first", "-l pthread\n", "\"none\""}},
	{"p3", "main.c", "main", 1, 4, {"21", "\"none\"", "-l pthread\n"}},
	{"p4", "tool.c", "tool", 1, 3, {"\"less\"", "%d %s", "\"none\""}},
	{"p5", "my.tool.c", "my.tool", 1, 5, {"my tool: %s %d", "part: table is full", "%d %s", "-l pthread\n", "\"none\""}},
	{"bad1", "main.c", "main", 0}, {"bad2", "main.c", "main", 0}, {"bad3", "main.c", "main", 0}, {"bad4", "main.c", "main", 0}, {"bad5", "main.c", "main", 0}, {"p2", "absent.c", "absent", 0}};
enum { NVALID = 6, NPROGS = 12 };
static u64 want[NPROGS], want_genc[NPROGS]; static size_t want_len[NPROGS];
static u64 want_tree[NPROGS], want_exports[NPROGS];
static void copy_tree(const char *from, const char *to) {
	d_mkdirs(to);
	DIR *d = opendir(from); struct dirent *e;
	if (!d) sim_harness_error("no sources at %s", from);
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.') continue;
		char *f = xsprintf("%s/%s", from, e->d_name), *t = xsprintf("%s/%s", to, e->d_name);
		struct stat st; stat(f, &st);
		if (S_ISDIR(st.st_mode)) { copy_tree(f, t); continue; }
		int fd = open(f, O_RDONLY); char *b = malloc(st.st_size + 1); ssize_t n = read(fd, b, st.st_size); close(fd);
		d_put(t, b, n); free(b);
	}
	closedir(d);
}
static void lay_sources(void) {
	const char *s = getenv("DSIM_SRC");
	DIR *d = opendir(s); struct dirent *e;
	if (!d) sim_harness_error("no sources");
	copy_tree(xsprintf("%s/lib", s), "/S/home/lib");
	while ((e = readdir(d))) if (e->d_name[0] != '.' && strcmp(e->d_name, "lib")) copy_tree(xsprintf("%s/%s", s, e->d_name), xsprintf("/S/work/%s", e->d_name));
	closedir(d);
}
static void load_expected(void) {
	FILE *f = fopen(getenv("DSIM_EXPECT"), "r"); if (!f) sim_harness_error("no expected results");
	int i; unsigned long long h, g, t, x; size_t n;
	while (fscanf(f, "%d %llx %zu %llx %llx %llx", &i, &h, &n, &g, &t, &x) == 6) { want[i] = h; want_len[i] = n; want_genc[i] = g; want_tree[i] = t; want_exports[i] = x; }
	fclose(f);
}
// Order-independent hash of the C files in a directory.
static u64 dir_hash(const char *path, int *count) {
	char *p = xsprintf("%s%s", droot, path); DIR *d = opendir(p); struct dirent *e; u64 h = 0; *count = 0;
	if (!d) return 0;
	while ((e = readdir(d))) { size_t k = strlen(e->d_name); if (k < 3 || strcmp(e->d_name + k - 2, ".c")) continue; size_t n; char *b = d_file(xsprintf("%s/%s", path, e->d_name), &n); h += d_hash(b, n) | 1; (*count)++; free(b); }
	closedir(d);
	return h;
}
static int artifact_ok(const char *path, int prog) { size_t n; char *p = d_file(path, &n); int ok = p && d_hash(p, n) == want[prog]; free(p); return ok; }
// What is known of a complete result without che: one translation of every module, its literals, the libraries asked for.
static const char *lacks(const char *path, int prog) {
	size_t n; char *p = d_file(path, &n); prog_t *g = &PROGS[prog]; int mods = 0;
	if (!p) return "the file";
	for (char *q = p; (q = strstr(q, "\n@@end\n")); q++) mods++;
	if (mods != g->mods) return xsprintf("the right number of modules (has %d, not %d)", mods, g->mods);
	if (!strstr(p, "\n-l m\n")) return "-l m";
	for (int i = 0; i < 8 && g->must[i]; i++) if (!strstr(p, g->must[i])) return g->must[i];
	free(p);
	return NULL;
}
static char *work(int prog) { return xsprintf("/S/work/%s", PROGS[prog].dir); }
static int fault_in(int i) { for (int k = 0; k < ndprocs; k++) if (dprocs[k].faults_hit) { int a = k; while (a >= 0 && a != i) a = dprocs[a].parent; if (a == i) return 1; } return 0; }
// The sources che was given are still what they were.
static void same_tree(const char *from, const char *to) {
	DIR *d = opendir(from); struct dirent *e;
	while (d && (e = readdir(d))) {
		if (e->d_name[0] == '.') continue;
		char *f = xsprintf("%s/%s", from, e->d_name), *t = xsprintf("%s/%s", to, e->d_name);
		struct stat st; stat(f, &st);
		if (S_ISDIR(st.st_mode)) { same_tree(f, t); continue; }
		int fd = open(f, O_RDONLY); char *b = malloc(st.st_size + 1); ssize_t n = read(fd, b, st.st_size); close(fd);
		size_t m; char *g = d_file(t, &m);
		if (!g || m != (size_t) n || memcmp(b, g, m)) sim_violation("sources", "che changed the source file %s", t);
		free(b); free(g);
	}
	if (d) closedir(d);
}
static void check_sources(void) {
	const char *s = getenv("DSIM_SRC"); DIR *d = opendir(s); struct dirent *e;
	same_tree(xsprintf("%s/lib", s), "/S/home/lib");
	while ((e = readdir(d))) if (e->d_name[0] != '.' && strcmp(e->d_name, "lib")) same_tree(xsprintf("%s/%s", s, e->d_name), xsprintf("/S/work/%s", e->d_name));
	closedir(d);
}
