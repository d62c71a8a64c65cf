// Drives image and formats/bmp, png, ppm: draws as the scenario says and writes pictures to files.
#import formats/bmp
#import formats/png
#import formats/ppm
#import image

#define N_PIXEL 1
#define N_WRITTEN 2
#define N_END 3
#define N_MIX 4
#define N_TRY 5
#define N_SIZE 6

image.image_t *slots[4] = {};

int next() {
	return (int) OS.sim_arg(0);
}

double part() {
	return (double) next() / 1000.0;
}

image.rgba_t color() {
	image.rgba_t c = {};
	c.red = next();
	c.green = next();
	c.blue = next();
	c.transparency = next();
	return c;
}

void tell(int what, image.rgba_t c) {
	OS.sim_note(what, c.red + 1000 * c.green, c.blue + 1000 * c.transparency);
}

void invert(image.rgba_t *c) {
	c->red = 255 - c->red;
	c->green = 255 - c->green;
	c->blue = 255 - c->blue;
}

bool write_ppm(image.image_t *img) {
	FILE *f = fopen("/w/out", "wb");
	if (!f) return false;
	ppm.writeimg(img, f);
	bool ok = !ferror(f);
	if (fclose(f) != 0) ok = false;
	return ok;
}

void colormap() {
	image.colormap_t cm = {};
	cm.color_width = next();
	cm.size = (size_t) next();
	for (size_t i = 0; i < cm.size; i++) {
		cm.colors[i] = color();
	}
	int n = next();
	for (int i = 0; i < n; i++) {
		tell(N_MIX, image.mapcolor(&cm, next()));
	}
}

void drop(int k) {
	if (slots[k]) image.free(slots[k]);
	slots[k] = NULL;
}

void step(int op) {
	int k = next();
	switch (op) {
		case 1: {
			int w = next();
			int h = next();
			drop(k);
			slots[k] = image.new(w, h);
		}
		case 2: {
			int x = next();
			int y = next();
			image.set(slots[k], x, y, color());
		}
		case 3: {
			int x = next();
			int y = next();
			OS.sim_note(N_TRY, 0, 0);
			tell(N_PIXEL, image.get(slots[k], x, y));
		}
		case 4: { image.fill(slots[k], color()); }
		case 5: { image.clear(slots[k]); }
		case 6: {
			int x = next();
			int y = next();
			image.rgba_t c = color();
			image.blend(slots[k], x, y, c, (float) part());
			tell(N_PIXEL, image.get(slots[k], x, y));
		}
		case 7: {
			int from = next();
			int x = next();
			int y = next();
			image.paste(slots[k], slots[from], x, y);
		}
		case 8: {
			int from = next();
			drop(k);
			slots[k] = image.explode(slots[from], next());
			OS.sim_note(N_SIZE, slots[k]->width, slots[k]->height);
		}
		case 9: {
			image.rgba_t a = color();
			image.rgba_t b = color();
			tell(N_MIX, image.mix(a, b, part()));
		}
		case 10: { image.apply(slots[k], invert); }
		case 11: {
			float h = (float) next();
			float s = (float) part();
			float l = (float) part();
			tell(N_MIX, image.from_hsl(h, s, l));
		}
		case 12: { tell(N_MIX, image.from_hsv((double) next() / 10000.0)); }
		case 13: { colormap(); }
		case 14: {
			int format = next();
			OS.sim_note(N_TRY, 1, 0);
			bool ok = false;
			switch (format) {
				case 100: { ok = bmp.write(slots[k], "/w/out"); }
				case 101: { ok = write_ppm(slots[k]); }
				default: { ok = png.write(slots[k], "/w/out", format); }
			}
			OS.sim_note(N_WRITTEN, ok, 0);
		}
		case 15: {
			int x = next();
			int y = next();
			OS.sim_note(N_TRY, 0, 0);
			image.set(slots[k], x, y, color());
			OS.sim_note(N_SIZE, -1, -1);
		}
	}
}

pub int main() {
	while (true) {
		int op = next();
		if (op == 0) break;
		step(op);
	}
	for (int i = 0; i < 4; i++) {
		drop(i);
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
