/*
	Detects memory and file descriptors that are not given back.
	The body must be repeatable: it is run again to tell a leak from a cache being filled.
*/
#pragma once

#include <sanitizer/allocator_interface.h>
#include <unistd.h>
#include "pbt.hpp"

static inline int next_fd() {
	int fd = dup(2);
	if (fd >= 0)
		close(fd);
	return fd;
}

template <class F> static inline void check_leaks(F body) {
	size_t before = __sanitizer_get_current_allocated_bytes();
	int fd = next_fd();
	body();
	size_t after = __sanitizer_get_current_allocated_bytes();
	CHECK(next_fd() == fd, "file descriptors have not been closed");
	if (after <= before)
		return;

	// Caches only grow once
	unsigned grown = 0;
	size_t last = after, first = after;
	for (int i = 0; i < 4; i++) {
		body();
		size_t now = __sanitizer_get_current_allocated_bytes();
		if (now > last)
			grown++;
		last = now;
	}
	CHECK(grown < 4, "%zu bytes of memory have not been released (and %zu more in four repetitions)", after - before, last - first);
}
