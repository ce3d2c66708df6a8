// Leak oracle for single threaded bodies: bytes still allocated after the body, reproducible over reruns.
#ifndef LEAK_H
#define LEAK_H
#include "rt.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace rt {
// Runs body (which must release everything it allocates itself). Returns the bytes lost on every one of three further runs, 0 if none.
inline long leakedBytes(const std::function<void()> &body) {
	if (!__sanitizer_get_current_allocated_bytes) { body(); return 0; }
	long first=0;
	for (int i=0;i<4;i++) {
		size_t b0=__sanitizer_get_current_allocated_bytes(); body(); size_t b1=__sanitizer_get_current_allocated_bytes();
		long d=(long)(b1-b0); if (d<=0) return 0; if (i) first=d;
	}
	return first;
}
}
#endif
