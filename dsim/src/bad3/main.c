#import alpha

int main() {
	alpha.item_t i = {};
	return alpha.nothing(i);
}
