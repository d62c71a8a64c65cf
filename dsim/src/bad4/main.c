#import one.c

int main() {
	return one.f();
}
