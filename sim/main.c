// Batch runner: many seeded runs, aggregation, minimisation, replay files.
#include "runner.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/prctl.h>

static void *shared(size_t n) {
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return p;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static u64 mix(u64 a, u64 b) {
	u64 z = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

typedef struct { int done; int status; u64 histhash, loghash, steps, sim_ns, nfaults; u32 tapelen; char cls[64]; char msg[300]; } runinfo_t;

static int quiet = 1;

// Runs one simulation in a child; the result is in *R, the choices in *TAPE.
static void one(u64 seed, u64 index, u32 given, int replay, int log) {
	memset(R, 0, sizeof *R);
	R->want_log = log;
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		sim_run(seed, index, given, replay);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) {}
	if (R->status == RS_RUNNING) {
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
			R->status = RS_VIOLATION;
			strcpy(R->cls, "hang");
			strcpy(R->msg, "the program computes without end");
		} else {
			R->status = RS_HARNESS;
			snprintf(R->msg, sizeof R->msg, "simulation process ended with status %x", st);
		}
	}
}
static void json_str(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		u8 c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static u32 *best; static u32 bestlen;
static char bestcls[64], bestmsg[700];
static int tries, max_tries = 2500;
static double min_deadline;
static int attempt(const u32 *v, u32 n, u64 seed, u64 index) {
	if (tries >= max_tries || now() > min_deadline) return 0;
	tries++;
	memcpy(TAPE->v, v, n * sizeof *v);
	TAPE->len = n;
	one(seed, index, n, 1, 0);
	if (R->status != RS_VIOLATION || strcmp(R->cls, bestcls) != 0) return 0;
	// keep what the run actually consumed
	u32 m = TAPE->len < n ? TAPE->len : n;
	while (m > 0 && TAPE->v[m - 1] == 0) m--;
	memcpy(best, v, m * sizeof *v);
	bestlen = m;
	strcpy(bestmsg, R->msg);
	return 1;
}
static void minimise(u64 seed, u64 index) {
	u32 *t = malloc((bestlen + 1) * 4);
	// 1. cut the tail
	for (u32 keep = 0; keep < bestlen;) {
		memcpy(t, best, bestlen * 4);
		if (attempt(t, keep, seed, index)) break;
		keep = keep ? keep * 2 : 1;
		if (tries >= max_tries) break;
	}
	// 2. zero blocks, 3. delete blocks, 4. lower values
	for (int round = 0; round < 3; round++) {
		int progress = 0;
		for (u32 blk = bestlen ? bestlen : 1; blk >= 1; blk /= 2) {
			for (u32 i = 0; i < bestlen; i += blk) {
				u32 e = i + blk < bestlen ? i + blk : bestlen;
				int nz = 0;
				for (u32 j = i; j < e; j++) if (best[j]) nz = 1;
				if (!nz) continue;
				u32 n = bestlen;
				memcpy(t, best, n * 4);
				for (u32 j = i; j < e; j++) t[j] = 0;
				if (attempt(t, n, seed, index)) progress = 1;
			}
			if (blk == 1) break;
		}
		for (u32 blk = 16; blk >= 1; blk /= 2) {
			for (u32 i = 0; i + blk <= bestlen;) {
				u32 n = bestlen;
				memcpy(t, best, i * 4);
				memcpy(t + i, best + i + blk, (n - i - blk) * 4);
				if (attempt(t, n - blk, seed, index)) progress = 1; else i += blk;
				if (tries >= max_tries || now() > min_deadline) break;
			}
		}
		for (u32 i = 0; i < bestlen; i++) {
			while (i < bestlen && best[i] > 0) {
				u32 n = bestlen;
				memcpy(t, best, n * 4);
				t[i] = best[i] / 2;
				if (!attempt(t, n, seed, index)) {
					if (i >= bestlen || best[i] < 2) break;
					memcpy(t, best, bestlen * 4);
					t[i] = best[i] - 1;
					if (!attempt(t, bestlen, seed, index)) break;
				}
				progress = 1;
			}
		}
		if (!progress) break;
	}
	free(t);
}
static int write_replay(const char *path, u64 seed, u64 index, u64 loghash, const char *prop) {
	FILE *f = fopen(path, "w");
	if (!f) { perror(path); return -1; }
	fprintf(f, "scenario %s\nproperty %s\nseed %llu\nrun %llu\nclass %s\nmessage %s\nloghash %llx\nntape %u\n", scen_name, prop,
		(unsigned long long) seed, (unsigned long long) index, bestcls, bestmsg, (unsigned long long) loghash, bestlen);
	for (u32 i = 0; i < bestlen; i++) fprintf(f, "%u%c", best[i], i % 24 == 23 ? '\n' : ' ');
	fprintf(f, "\n");
	fclose(f);
	return 0;
}
static int do_replay(const char *path, int verbose) {
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); return 2; }
	char line[2048], cls[64] = "", msg[700] = "";
	u64 seed = 0, index = 0, lh = 0; u32 n = 0;
	while (fgets(line, sizeof line, f)) {
		sscanf(line, "seed %llu", (unsigned long long *) &seed);
		sscanf(line, "run %llu", (unsigned long long *) &index);
		sscanf(line, "class %63[^\n]", cls);
		sscanf(line, "message %699[^\n]", msg);
		sscanf(line, "loghash %llx", (unsigned long long *) &lh);
		if (sscanf(line, "ntape %u", &n) == 1) break;
	}
	for (u32 i = 0; i < n; i++) if (fscanf(f, "%u", &TAPE->v[i]) != 1) { fprintf(stderr, "bad replay file\n"); return 2; }
	fclose(f);
	TAPE->len = n;
	one(seed, index, n, 1, verbose);
	if (R->status == RS_VIOLATION) {
		printf("REPLAY class=%s message=%s\n", R->cls, R->msg);
		printf("REPLAY %s\n", strcmp(cls, R->cls) == 0 && lh == R->loghash ? "identical" : "differs");
		return strcmp(cls, R->cls) == 0 && lh == R->loghash ? 1 : 3;
	}
	printf("REPLAY no violation (status %d %s)\n", R->status, R->msg);
	return 0;
}
static int cmp64(const void *a, const void *b) { u64 x = *(u64 *) a, y = *(u64 *) b; return x < y ? -1 : x > y; }

// Classes of violations that belong to another property or are known findings.
static const char *skip, *only;
static int listed(const char *list, const char *cls) {
	size_t n = strlen(cls);
	for (const char *p = list; *p; ) {
		size_t k = strcspn(p, ",");
		if (k && p[k - 1] == '*' ? n >= k - 1 && !strncmp(p, cls, k - 1) : n == k && !strncmp(p, cls, k)) return 1;
		p += k;
		if (*p) p++;
	}
	return 0;
}
static int ignored(const char *cls) { return (skip && listed(skip, cls)) || (only && !listed(only, cls)); }

int main(int argc, char **argv) {
	u64 seed = 1; long runs = 100; int jobs = 8; const char *out = NULL, *prop = "?", *replay_out = NULL, *replay_in = NULL;
	long single = -1; int verbose = 0; int det = 0;
	double maxtime = 1e9;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--runs")) runs = atol(argv[++i]);
		else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--prop")) prop = argv[++i];
		else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay_in = argv[++i];
		else if (!strcmp(argv[i], "--run")) single = atol(argv[++i]);
		else if (!strcmp(argv[i], "-v")) verbose = 1;
		else if (!strcmp(argv[i], "--det")) det = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--skip")) skip = argv[++i];
		else if (!strcmp(argv[i], "--only")) only = argv[++i];
		else if (!strcmp(argv[i], "--max-time")) maxtime = atof(argv[++i]);
	}
	(void) quiet;
	// Fixed addresses: everything must be a function of the seed.
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1);
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	setenv("TZ", "UTC", 1); tzset();
	R = shared(sizeof *R);
	TAPE = shared(sizeof *TAPE);
	if (replay_in) return do_replay(replay_in, verbose);
	if (single >= 0) {
		one(mix(seed, single), single, 0, 0, verbose);
		printf("status %d class=%s msg=%s\nsteps=%llu sim=%.6fs tape=%u hash=%llx log=%llx quiescent=%d\ndetail: %s\n", R->status, R->cls, R->msg, (unsigned long long) R->steps,
			R->sim_ns / 1e9, TAPE->len, (unsigned long long) R->histhash, (unsigned long long) R->loghash, R->quiescent, R->detail);
		for (int k = 0; k < F_NKINDS; k++) if (R->faults[k]) printf("  fault %s %llu\n", sim_fault_names[k], (unsigned long long) R->faults[k]);
		return R->status == RS_OK ? 0 : R->status == RS_VIOLATION ? 1 : 2;
	}
	double t0 = now();
	runinfo_t *info = shared(sizeof(runinfo_t) * (runs + 1));
	u64 *fsum = shared(sizeof(u64) * F_NKINDS * (jobs + 1));
	u64 *fruns = shared(sizeof(u64) * F_NKINDS * (jobs + 1));
	u64 *psum = shared(sizeof(u64) * NPROBES * (jobs + 1));
	char *samples = shared(3 * 1600);
	volatile long *firstbad = shared(sizeof(long));
	*firstbad = runs;
	pid_t pids[64];
	for (int w = 0; w < jobs; w++) {
		fflush(stdout);
		pids[w] = fork();
		if (pids[w] == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			R = shared(sizeof *R);
			TAPE = shared(sizeof *TAPE);
			for (long i = w; i < runs; i += jobs) {
				if (i > *firstbad) break;
				if (now() - t0 > maxtime) break;
				u64 rs = mix(seed, i);
				one(rs, i, 0, 0, 0);
				runinfo_t *ri = &info[i];
				ri->status = R->status; ri->histhash = R->histhash; ri->loghash = R->loghash;
				ri->steps = R->steps; ri->sim_ns = R->sim_ns; ri->tapelen = TAPE->len;
				memcpy(ri->cls, R->cls, 64);
				snprintf(ri->msg, sizeof ri->msg, "%s", R->msg);
				for (int k = 0; k < F_NKINDS; k++) { fsum[w * F_NKINDS + k] += R->faults[k]; ri->nfaults += R->faults[k]; if (R->faults[k]) fruns[w * F_NKINDS + k]++; }
				for (int k = 0; k < NPROBES; k++) if (R->probes[k]) psum[w * NPROBES + k]++;
				ri->done = 1;
				if (i < 3) snprintf(samples + i * 1600, 1600, "run %ld seed %llu: %s", i, (unsigned long long) rs, R->detail);
				if (R->status == RS_VIOLATION && ignored(R->cls)) continue;
				if (R->status == RS_VIOLATION || R->status == RS_HARNESS) {
					{ long fb = *firstbad; while (i < fb && !__atomic_compare_exchange_n(firstbad, &fb, i, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} }
				}
				// self-check: the same run again must leave the same event log
				if (det && i % det == 0) {
					u64 lh = R->loghash, hh = R->histhash; int st = R->status; u32 tl = TAPE->len;
					one(rs, i, 0, 0, 0);
					if (R->loghash != lh || R->histhash != hh || R->status != st || TAPE->len != tl) {
						ri->status = RS_HARNESS;
						strcpy(ri->msg, "nondeterministic run");
						*firstbad = i;
					}
				}
			}
			_exit(0);
		}
	}
	for (int w = 0; w < jobs; w++) { int st; waitpid(pids[w], &st, 0); }
	// The lowest failing index decides.
	long done = 0, bad = -1, harness = -1; u64 steps = 0, simns = 0; long nontrivial = 0; u64 maxsteps = 0;
	u64 *hs = malloc(8 * (runs + 1)); long nh = 0;
	long nviol = 0;
	for (long i = 0; i < runs; i++) {
		if (!info[i].done) continue;
		done++;
		steps += info[i].steps; simns += info[i].sim_ns;
		if (info[i].steps > maxsteps) maxsteps = info[i].steps;
		if (info[i].nfaults > 0) { nontrivial++; hs[nh++] = info[i].histhash; }
		if (info[i].status == RS_HARNESS && harness < 0) harness = i;
		if (info[i].status == RS_VIOLATION) {
			if (ignored(info[i].cls)) continue;
			nviol++;
			if (bad < 0) bad = i;
		}
	}
	qsort(hs, nh, 8, cmp64);
	long distinct = 0;
	for (long i = 0; i < nh; i++) if (i == 0 || hs[i] != hs[i - 1]) distinct++;
	double wall_search = now() - t0;
	int rc = 0;
	char verdict[1200] = "";
	long replay_tape = 0; int replay_ok = 0;
	if (bad >= 0) {
		rc = 1;
		u64 rs = mix(seed, bad);
		one(rs, bad, 0, 0, 0);
		if (R->status != RS_VIOLATION) { fprintf(stderr, "harness: run %ld does not fail again\n", bad); rc = 2; }
		strcpy(bestcls, R->cls); strcpy(bestmsg, R->msg);
		best = malloc(TAPE_MAX * 4);
		bestlen = TAPE->len;
		memcpy(best, TAPE->v, bestlen * 4);
		u32 origlen = bestlen;
		min_deadline = now() + 30;
		minimise(rs, bad);
		memcpy(TAPE->v, best, bestlen * 4); TAPE->len = bestlen;
		one(rs, bad, bestlen, 1, 0);
		strcpy(bestmsg, R->msg);
		replay_tape = bestlen;
		replay_ok = R->status == RS_VIOLATION && !strcmp(R->cls, bestcls);
		if (!replay_ok) rc = 2;
		fprintf(stderr, "%s: run %ld (seed %llu): %s: %s\n  decisions: %u -> %u, %d replays\n", scen_name, bad, (unsigned long long) rs, bestcls, bestmsg, origlen, bestlen, tries);
		if (replay_out) write_replay(replay_out, rs, bad, R->loghash, prop);
		snprintf(verdict, sizeof verdict, "%s: %s", bestcls, bestmsg);
	} else if (harness >= 0) {
		rc = 2;
		fprintf(stderr, "%s: harness error in run %ld: %s\n", scen_name, harness, info[harness].msg);
		snprintf(verdict, sizeof verdict, "harness: %s", info[harness].msg);
	} else if (done < runs && maxtime > 1e8) { rc = 2; fprintf(stderr, "%s: a worker died\n", scen_name); }
	if (out) {
		FILE *f = fopen(out, "w");
		if (!f) { perror(out); return 2; }
		fprintf(f, "{\"scenario\":");
		json_str(f, scen_name);
		fprintf(f, ",\"runs\":%ld,\"runs_with_faults\":%ld,\"distinct\":%ld,\"steps\":%llu,\"max_steps\":%llu,\"sim_seconds\":%.3f,\"wall_s\":%.3f,\"violations\":%ld,\"rc\":%d,\"replay_choices\":%ld",
			done, nontrivial, distinct, (unsigned long long) steps, (unsigned long long) maxsteps, simns / 1e9, wall_search, nviol, rc, replay_tape);
		fprintf(f, ",\"rule\":"); json_str(f, scen_rule ? scen_rule : "");
		fprintf(f, ",\"verdict\":"); json_str(f, verdict);
		fprintf(f, ",\"class\":"); json_str(f, bad >= 0 ? bestcls : "");
		fprintf(f, ",\"faults\":{");
		int first = 1;
		for (int k = 0; k < F_NKINDS; k++) {
			u64 s = 0, r = 0;
			for (int w = 0; w < jobs; w++) { s += fsum[w * F_NKINDS + k]; r += fruns[w * F_NKINDS + k]; }
			if (s) { fprintf(f, "%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", first ? "" : ",", sim_fault_names[k], (unsigned long long) s, (unsigned long long) r); first = 0; }
		}
		fprintf(f, "},\"probes\":{");
		first = 1;
		for (int k = 0; k < NPROBES && scen_probes[k]; k++) {
			u64 s = 0;
			for (int w = 0; w < jobs; w++) s += psum[w * NPROBES + k];
			fprintf(f, "%s", first ? "" : ","); json_str(f, scen_probes[k]);
			fprintf(f, ":%llu", (unsigned long long) s); first = 0;
		}
		fprintf(f, "},\"samples\":[");
		first = 1;
		for (int i = 0; i < 3; i++) if (samples[i * 1600]) { fprintf(f, "%s", first ? "" : ","); json_str(f, samples + i * 1600); first = 0; }
		fprintf(f, "]}\n");
		fclose(f);
	}
	return rc;
}
