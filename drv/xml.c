// Drives formats/xml: moves the cursor as the scenario says and tells what is there.
#import formats/xml

#define N_STATE 1
#define N_ENTERED 2
#define N_ATTR 3
#define N_END 4
#define N_OPEN 5

xml.xml *doc = NULL;

void tell() {
	const char *s = xml.xml_nodename(doc);
	if (s) OS.sim_bytes(N_STATE, s, strlen(s));
	OS.sim_note(N_STATE, s != NULL, doc->error[0] != 0);
}

void attr() {
	char name[100] = {};
	OS.sim_str(0, name, 99);
	const char *v = xml.xml_attr(doc, name);
	if (v) OS.sim_bytes(N_ATTR, v, strlen(v));
	OS.sim_note(N_ATTR, v != NULL, 0);
}

pub int main() {
	doc = xml.xml_open("/w/doc.xml");
	OS.sim_note(N_OPEN, doc->error[0] != 0, 0);
	tell();
	while (true) {
		int op = (int) OS.sim_arg(0);
		if (op == 0) break;
		switch (op) {
			case 1: { OS.sim_note(N_ENTERED, xml.xml_enter(doc), 0); }
			case 2: { xml.xml_next(doc); }
			case 3: { xml.xml_leave(doc); }
			case 4: { attr(); }
		}
		tell();
	}
	xml.xml_close(doc);
	OS.sim_note(N_END, 0, 0);
	return 0;
}
