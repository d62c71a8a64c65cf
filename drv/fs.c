// Drives os/fs: a list of operations chosen by the scenario.
#import os/fs

#define A_NOPS 0
#define A_OP 16
#define A_FILE 64
#define A_LEN 112

#define N_BEGIN 1
#define N_OK 2
#define N_FAIL 3
#define N_DONE 4
#define N_ENDDIR 6

#define B_DATA 100
#define B_NAME 200

const char *PATHS[] = {"/data/a", "/data/b.txt", "/data/sub/c", "/data/empty", "/data/none", "/data/sub", "/nodir/x", "/data/link"};

void op(int k) {
	int what = OS.sim_arg(A_OP + k);
	const char *path = PATHS[OS.sim_arg(A_FILE + k)];
	int len = OS.sim_arg(A_LEN + k);
	OS.sim_note(N_BEGIN, k, 0);
	switch (what) {
		case 0: {
			size_t n = 12345;
			char *data = fs.readfile(path, &n);
			if (data == NULL) {
				OS.sim_note(N_FAIL, k, 0);
			} else {
				OS.sim_bytes(B_DATA + k, data, n);
				OS.sim_note(N_OK, k, n);
				free(data);
			}
		}
		case 1: {
			char *data = fs.readfile_str(path);
			if (data == NULL) {
				OS.sim_note(N_FAIL, k, 0);
			} else {
				OS.sim_bytes(B_DATA + k, data, strlen(data));
				OS.sim_note(N_OK, k, strlen(data));
				free(data);
			}
		}
		case 2: {
			char *data = calloc!(len + 1, 1);
			for (int i = 0; i < len; i++) {
				data[i] = (char) (1 + (i * 7 + k * 31 + i / 251 * 13) % 255);
			}
			if (fs.writefile(path, data, len)) {
				OS.sim_note(N_OK, k, 0);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
			free(data);
		}
		case 3: {
			fs.dir_t *d = fs.dir_open(path);
			if (d == NULL) {
				OS.sim_note(N_FAIL, k, 0);
			} else {
				while (true) {
					const char *name = fs.dir_next(d);
					if (name == NULL) break;
					OS.sim_bytes(B_NAME + k, name, strlen(name));
				}
				fs.dir_close(d);
				OS.sim_note(N_ENDDIR, k, 0);
				OS.sim_note(N_OK, k, 0);
			}
		}
		case 4: {
			size_t n = 777;
			if (fs.filesize(path, &n)) {
				OS.sim_note(N_OK, k, n);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
		}
		case 5: {
			if (fs.is_dir(path)) {
				OS.sim_note(N_OK, k, 0);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
		}
		case 6: {
			if (fs.file_exists(path)) {
				OS.sim_note(N_OK, k, 0);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
		}
		case 7: {
			if (fs.unlink(path)) {
				OS.sim_note(N_OK, k, 0);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
		}
		case 8: {
			char buf[20] = {};
			if (fs.realpath(path, buf, len)) {
				OS.sim_bytes(B_DATA + k, buf, strlen(buf));
				OS.sim_note(N_OK, k, 0);
			} else {
				OS.sim_note(N_FAIL, k, 0);
			}
		}
	}
}

int main() {
	int n = OS.sim_arg(A_NOPS);
	for (int i = 0; i < n; i++) {
		op(i);
	}
	OS.sim_note(N_DONE, 0, 0);
	return 0;
}
