pub int f() {
	int x = ;
	return x;
}
