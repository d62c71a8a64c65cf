#import nosuch

int main() {
	return 0;
}
