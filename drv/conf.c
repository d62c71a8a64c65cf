// Drives formats/conf: reads every pair of the file.
#import formats/conf

#define N_KEY 1
#define N_VAL 2
#define N_END 3

pub int main() {
	FILE *f = fopen("/w/a.conf", "rb");
	if (!f) {
		fprintf(stderr, "cannot open\n");
		return 2;
	}
	conf.reader_t *r = conf.new(f);
	while (conf.next(r)) {
		OS.sim_bytes(N_KEY, r->key, strlen(r->key));
		OS.sim_bytes(N_VAL, r->val, strlen(r->val));
	}
	conf.free(r);
	fclose(f);
	OS.sim_note(N_END, 0, 0);
	return 0;
}
