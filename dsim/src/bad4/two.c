#import one.c

pub int g() {
	return one.f();
}
