/*
	Changes to the file system fail, or are never made because the process is killed, at a chosen point

	This is preloaded and does nothing until faults_arm() is called.
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE = 0, KILL_BEFORE, KILL_DURING, KILL_AFTER, FAIL_ONCE, FULL, BROKEN };

static int mode, error, report = -1;
static long at, count;
static char watched[PATH_MAX];
static size_t length;

/* Only changes in (or below) dir count, beginning with the n-th. What happens is written to the descriptor. */
void faults_arm(const char* dir, int m, long n, int e, int fd) {
	snprintf(watched, sizeof(watched), "%s", dir);
	length = strlen(watched);
	mode = m;
	at = n;
	error = e;
	report = fd;
	count = 0;
}

static int in(const char* path) {
	if (path[0] == '/')
		return !strncmp(path, watched, length) && (path[length] == '/' || !path[length]);

	char cwd[PATH_MAX];
	return getcwd(cwd, sizeof(cwd)) && !strncmp(cwd, watched, length);
}

static int fd_in(int fd) {
	char link[64], path[PATH_MAX];

	snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
	ssize_t r = readlink(link, path, sizeof(path) - 1);
	if (r < 0)
		return 0;
	path[r] = 0;
	return in(path);
}

static void note(const char* what, const char* how) {
	static ssize_t (*real)(int, const void*, size_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "write");
	char line[128];
	int n = snprintf(line, sizeof(line), "%s %s\n", what, how);
	if (report >= 0)
		real(report, line, n);
}

/* 1: fail; 2: kill in the middle; 3: kill afterwards; takes: does this call need space? */
static int fault(const char* what, int relevant, int takes) {
	if (!mode || !relevant)
		return 0;

	count++;

	if (mode == FULL ? (count < at || !takes) : mode == BROKEN ? count < at : count != at)
		return 0;

	switch (mode) {
		case KILL_BEFORE:
			note(what, "killed before");
			raise(SIGKILL);
			return 0;

		case KILL_DURING:
			note(what, "killed during");
			return 2;

		case KILL_AFTER:
			note(what, "killed after");
			return 3;

		default:
			note(what, "failed");
			errno = error;
			return 1;
	}
}

#define REAL(ret, name, ...) \
	static ret (*real)(__VA_ARGS__); \
	if (!real) real = dlsym(RTLD_NEXT, #name);

#define CALL(type, what, relevant, takes, call) \
	int saved = errno, f = fault(what, mode && (relevant), takes); \
	if (f == 1) return -1; \
	if (f == 2) raise(SIGKILL); \
	errno = saved; \
	type r = call; \
	if (f == 3) raise(SIGKILL); \
	return r;

#define CHANGES(flags) ((flags) & (O_CREAT | O_TRUNC))

#define OPEN(name) \
int name(const char* path, int flags, ...) { \
	REAL(int, name, const char*, int, ...) \
	va_list args; \
	va_start(args, flags); \
	mode_t m = va_arg(args, mode_t); \
	va_end(args); \
	CALL(int, "open", CHANGES(flags) && in(path), 1, real(path, flags, m)) \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char* path, int flags, ...) { \
	REAL(int, name, int, const char*, int, ...) \
	va_list args; \
	va_start(args, flags); \
	mode_t m = va_arg(args, mode_t); \
	va_end(args); \
	CALL(int, "openat", CHANGES(flags) && in(path), 1, real(dir, path, flags, m)) \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void* data, size_t n) {
	REAL(ssize_t, write, int, const void*, size_t)
	if (!mode || !fd_in(fd))
		return real(fd, data, n);
	int f = fault("write", 1, 1);
	if (f == 1 && n > 1 && mode == FULL && count == at) {
		/* Some of it has still fit */
		return real(fd, data, n / 2);
	}
	if (f == 1)
		return -1;
	if (f == 2) {
		real(fd, data, n / 2);
		raise(SIGKILL);
	}
	ssize_t r = real(fd, data, n);
	if (f == 3)
		raise(SIGKILL);
	return r;
}

int rename(const char* a, const char* b) {
	REAL(int, rename, const char*, const char*)
	CALL(int, "rename", in(a) || in(b), 1, real(a, b))
}

int renameat(int x, const char* a, int y, const char* b) {
	REAL(int, renameat, int, const char*, int, const char*)
	CALL(int, "rename", in(a) || in(b), 1, real(x, a, y, b))
}

int link(const char* a, const char* b) {
	REAL(int, link, const char*, const char*)
	CALL(int, "link", in(a) || in(b), 1, real(a, b))
}

int symlink(const char* a, const char* b) {
	REAL(int, symlink, const char*, const char*)
	CALL(int, "symlink", in(b), 1, real(a, b))
}

int unlink(const char* path) {
	REAL(int, unlink, const char*)
	CALL(int, "unlink", in(path), 0, real(path))
}

int unlinkat(int d, const char* path, int flags) {
	REAL(int, unlinkat, int, const char*, int)
	CALL(int, "unlink", in(path), 0, real(d, path, flags))
}

int chmod(const char* path, mode_t m) {
	REAL(int, chmod, const char*, mode_t)
	CALL(int, "chmod", in(path), 0, real(path, m))
}

int fchmod(int fd, mode_t m) {
	REAL(int, fchmod, int, mode_t)
	CALL(int, "chmod", fd_in(fd), 0, real(fd, m))
}

int fchmodat(int d, const char* path, mode_t m, int flags) {
	REAL(int, fchmodat, int, const char*, mode_t, int)
	CALL(int, "chmod", in(path), 0, real(d, path, m, flags))
}

#define TRUNCATE(name) \
int f##name(int fd, off64_t n) { \
	REAL(int, f##name, int, off64_t) \
	CALL(int, "truncate", fd_in(fd), 0, real(fd, n)) \
} \
int name(const char* path, off64_t n) { \
	REAL(int, name, const char*, off64_t) \
	CALL(int, "truncate", in(path), 0, real(path, n)) \
}
TRUNCATE(truncate)
TRUNCATE(truncate64)

#define COPY(name) \
ssize_t name(int out, int from, off64_t* offset, size_t n) { \
	REAL(ssize_t, name, int, int, off64_t*, size_t) \
	if (mode && fd_in(out)) { \
		int f = fault(#name, 1, 1); \
		if (f == 1) return -1; \
		if (f == 2) { real(out, from, offset, n / 2); raise(SIGKILL); } \
		ssize_t r = real(out, from, offset, n); \
		if (f == 3) raise(SIGKILL); \
		return r; \
	} \
	return real(out, from, offset, n); \
}
COPY(sendfile)
COPY(sendfile64)

ssize_t copy_file_range(int from, off64_t* a, int out, off64_t* b, size_t n, unsigned int flags) {
	REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned int)
	CALL(ssize_t, "copy_file_range", fd_in(out), 1, real(from, a, out, b, n, flags))
}

int fsync(int fd) {
	REAL(int, fsync, int)
	CALL(int, "fsync", fd_in(fd), 0, real(fd))
}

int fdatasync(int fd) {
	REAL(int, fdatasync, int)
	CALL(int, "fsync", fd_in(fd), 0, real(fd))
}
