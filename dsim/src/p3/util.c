#import os/gamma

pub int twice(int x) {
	return x * 2 + gamma.pid() * 0;
}
