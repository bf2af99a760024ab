/*
	Preloaded into the interpreters of Lua and Perl: tells them how much memory is in use, through functions that they have
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>

size_t __sanitizer_get_current_allocated_bytes(void);

static char text[32];

static char* allocated(void) {
	snprintf(text, sizeof(text), "%zu", __sanitizer_get_current_allocated_bytes());
	return text;
}

// os.getenv() of Lua
char* getenv(const char* name) {
	static char* (*next)(const char*);
	if (name && strcmp(name, "VERIF_ALLOCATED") == 0)
		return allocated();
	if (!next)
		next = (char* (*)(const char*))dlsym(RTLD_NEXT, "getenv");
	return next ? next(name) : NULL;
}

// getlogin of Perl
char* getlogin(void) {
	return allocated();
}

int getlogin_r(char* buffer, size_t length) {
	snprintf(buffer, length, "%s", allocated());
	return 0;
}
