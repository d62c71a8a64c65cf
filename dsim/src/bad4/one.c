#import two.c

pub int f() {
	return two.g();
}
