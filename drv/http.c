// Drives protocols/http over a reader and a writer of the simulator.
#import protocols/http
#import reader
#import writer

#define A_MODE 0
#define A_NPARAMS 1
#define A_NHEADERS 2
#define A_METHOD 3

#define S_URI 0
#define S_PNAME 100
#define S_PVAL 300
#define S_HNAME 500
#define S_HVAL 700

#define N_REQ 1
#define N_NOREQ 2
#define N_RES 3
#define N_NORES 4
#define N_WROTE 5
#define N_END 6
#define N_NH 7

#define B_METHOD 1
#define B_URI 2
#define B_PATH 3
#define B_QUERY 4
#define B_FILENAME 5
#define B_VERSION 6
#define B_NAME 7
#define B_VALUE 8
#define B_BODY 9
#define B_LOOKUP 10

int rd(void *ctx, uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_input(*id, buf, n);
}
int wr(void *ctx, const uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_output(*id, buf, n);
}
void str(int what, const char *s) {
	OS.sim_bytes(what, s, strlen(s));
}

void requests() {
	int id = 0;
	reader.t *re = reader.new(&id, rd, NULL);
	http.request_t *req = calloc!(1, sizeof(http.request_t));
	// Whatever was there before must not matter.
	memset(req, 'Z', sizeof(http.request_t));
	while (true) {
		if (!http.read_request(re, req)) {
			OS.sim_note(N_NOREQ, 0, 0);
			break;
		}
		str(B_METHOD, req->method);
		str(B_URI, req->uri);
		str(B_PATH, req->path);
		str(B_QUERY, req->query);
		str(B_FILENAME, req->filename);
		str(B_VERSION, req->version);
		for (size_t i = 0; i < req->nheaders; i++) {
			str(B_NAME, req->headers[i].name);
			str(B_VALUE, req->headers[i].value);
			http.header_t *h = http.get_header(req, req->headers[i].name);
			if (h) str(B_LOOKUP, h->value);
		}
		OS.sim_note(N_NH, req->nheaders, 0);
		OS.sim_note(N_REQ, 0, 0);
	}
	http.freereq(req);
	reader.free(re);
}

void response() {
	int id = 0;
	reader.t *re = reader.new(&id, rd, NULL);
	http.response_t *r = calloc!(1, sizeof(http.response_t));
	if (!http.parse_response(re, r)) {
		OS.sim_note(N_NORES, 0, 0);
	} else {
		str(B_VERSION, r->version);
		for (size_t i = 0; i < r->nheaders; i++) {
			str(B_NAME, r->headers[i].name);
			str(B_VALUE, r->headers[i].value);
		}
		OS.sim_note(N_NH, r->nheaders, 0);
		OS.sim_bytes(B_BODY, r->body, 1000);
		OS.sim_note(N_RES, r->status, r->content_length);
	}
	free(r);
	reader.free(re);
}

void sendreq() {
	int id = 1;
	writer.t *w = writer.new(&id, wr, NULL);
	char uri[1100] = {};
	OS.sim_str(S_URI, uri, 1099);
	http.request_t *r = http.newreq(OS.sim_arg(A_METHOD), uri);
	for (int i = 0; i < (int) OS.sim_arg(A_NPARAMS); i++) {
		char name[1100] = {};
		char val[1100] = {};
		OS.sim_str(S_PNAME + i, name, 1099);
		size_t n = OS.sim_str(S_PVAL + i, val, 1099);
		http.reqparam(r, name, val, n);
	}
	for (int i = 0; i < (int) OS.sim_arg(A_NHEADERS); i++) {
		char name[1100] = {};
		char val[1100] = {};
		OS.sim_str(S_HNAME + i, name, 1099);
		OS.sim_str(S_HVAL + i, val, 1099);
		http.set_header(r, name, val);
	}
	int n = http.write_request(w, r);
	OS.sim_note(N_WROTE, n, w->nwritten);
	http.freereq(r);
	writer.free(w);
}

int main() {
	switch (OS.sim_arg(A_MODE)) {
		case 0: { requests(); }
		case 1: { response(); }
		case 2: { sendreq(); }
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
