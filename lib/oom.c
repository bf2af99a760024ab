/*
	Preloaded into the Python interpreter: requests for memory that the library and its module make (and nobody else's) can fail
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);

static struct { uintptr_t lo, hi; } ranges[8];
static int nranges;
static int active, all;
static long countdown, count;

static FILE* (*next_fdopen)(int, const char*);
static void* (*next_mmap)(void*, size_t, int, int, int, off_t);

static int each(struct dl_phdr_info* info, size_t size, void* data) {
	const char* name = strrchr(info->dlpi_name, '/');
	if (!name || (strncmp(name, "/libloc", 7) && !strstr(name, "location.")))
		return 0;
	for (int i = 0; i < info->dlpi_phnum && nranges < 8; i++) {
		const ElfW(Phdr)* p = &info->dlpi_phdr[i];
		if (p->p_type == PT_LOAD && (p->p_flags & PF_X)) {
			ranges[nranges].lo = info->dlpi_addr + p->p_vaddr;
			ranges[nranges++].hi = info->dlpi_addr + p->p_vaddr + p->p_memsz;
		}
	}
	return 0;
}

__attribute__((constructor)) static void start(void) {
	next_fdopen = dlsym(RTLD_NEXT, "fdopen");
	next_mmap = dlsym(RTLD_NEXT, "mmap");
}

// Returns how many objects the requests of which are seen
int oom_find(void) {
	nranges = 0;
	dl_iterate_phdr(each, NULL);
	return nranges;
}

void oom_begin(long n, int all_) {
	countdown = n;
	all = all_;
	count = 0;
	active = 1;
}

long oom_end(void) {
	active = 0;
	return count;
}

static int hit(void* caller) {
	if (!active)
		return 0;
	uintptr_t a = (uintptr_t)caller;
	for (int i = 0; i < nranges; i++) {
		if (a < ranges[i].lo || a >= ranges[i].hi)
			continue;
		long n = count++;
		if (countdown >= 0 && (n == countdown || (all && n > countdown))) {
			errno = ENOMEM;
			return 1;
		}
	}
	return 0;
}

#define HIT() hit(__builtin_return_address(0))

void* malloc(size_t n) { return HIT() ? NULL : __libc_malloc(n); }
void* calloc(size_t n, size_t m) { return HIT() ? NULL : __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { return HIT() ? NULL : __libc_realloc(p, n); }

void* reallocarray(void* p, size_t n, size_t m) {
	size_t t;
	if (HIT() || __builtin_mul_overflow(n, m, &t)) {
		errno = ENOMEM;
		return NULL;
	}
	return __libc_realloc(p, t);
}

static char* copy(const char* s, size_t n) {
	char* p = __libc_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = '\0';
	}
	return p;
}

char* strdup(const char* s) { return HIT() ? NULL : copy(s, strlen(s)); }
char* __strdup(const char* s) { return HIT() ? NULL : copy(s, strlen(s)); }
char* strndup(const char* s, size_t n) { return HIT() ? NULL : copy(s, strnlen(s, n)); }

static int print(char** p, const char* f, va_list a) {
	va_list b;
	va_copy(b, a);
	int n = vsnprintf(NULL, 0, f, b);
	va_end(b);
	if (n < 0 || !(*p = __libc_malloc(n + 1)))
		return -1;
	return vsnprintf(*p, n + 1, f, a);
}

int vasprintf(char** p, const char* f, va_list a) { return HIT() ? -1 : print(p, f, a); }
int __vasprintf_chk(char** p, int flag, const char* f, va_list a) { return HIT() ? -1 : print(p, f, a); }

int asprintf(char** p, const char* f, ...) {
	if (HIT())
		return -1;
	va_list a;
	va_start(a, f);
	int n = print(p, f, a);
	va_end(a);
	return n;
}

int __asprintf_chk(char** p, int flag, const char* f, ...) {
	if (HIT())
		return -1;
	va_list a;
	va_start(a, f);
	int n = print(p, f, a);
	va_end(a);
	return n;
}

FILE* fdopen(int fd, const char* mode) { return HIT() ? NULL : next_fdopen(fd, mode); }
void* mmap(void* p, size_t n, int prot, int flags, int fd, off_t o) { return HIT() ? MAP_FAILED : next_mmap(p, n, prot, flags, fd, o); }
void* mmap64(void* p, size_t n, int prot, int flags, int fd, off_t o) { return HIT() ? MAP_FAILED : next_mmap(p, n, prot, flags, fd, o); }
