int main() {
	puts("Howdy, Globe!");
	return 0;
}
