pub typedef { int first, second; } pair_t;

pub pair_t pair(int a, b) {
	pair_t p = {.first = a, .second = b};
	return p;
}

pub int sum(pair_t p) {
	return p.first + p.second;
}
