#import beta
#import alpha

int main() {
	beta.state_t *s = beta.start();
	printf("%s %d\n", alpha.name(alpha.ALPHA_ONE), alpha.next());
	beta.stop(s);
	return 0;
}
