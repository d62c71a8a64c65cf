#import helper.c

int main() {
	return helper.f();
}
