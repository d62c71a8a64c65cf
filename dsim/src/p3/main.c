#import util.c
#import alpha

int main() {
	printf("%d %s\n", util.twice(21), alpha.name(2));
	return 0;
}
