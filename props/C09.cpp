// A database write either completes or reports failure
#include "keys.hpp"
#include "records.hpp"
#include <sys/resource.h>

static KeyPair key;

static void setup() {
	signal(SIGXFSZ, SIG_IGN);
	key = make_keypair(EVP_EC_gen("P-256"));
}

// A file in memory that stops working at some point
struct Faulty {
	std::string data;
	size_t pos = 0;
	size_t written = 0, read = 0;
	size_t fail_write = SIZE_MAX, fail_read = SIZE_MAX;
	unsigned failures = UINT_MAX; // how often it fails before it works again
	bool partial = false;         // takes what fits before failing
	size_t chunk = SIZE_MAX;      // takes at most that much at a time
	bool seekfail = false;
	unsigned hit = 0;
};

static ssize_t cookie_write(void* c, const char* buf, size_t n) {
	Faulty* f = (Faulty*)c;
	if (f->written + n > f->fail_write && f->failures) {
		size_t fits = f->fail_write > f->written ? f->fail_write - f->written : 0;
		f->hit++;
		if (!f->partial || !fits) {
			f->failures--;
			errno = ENOSPC;
			return 0;
		}
		n = fits;
	}
	n = std::min(n, f->chunk);
	if (f->pos + n > f->data.size())
		f->data.resize(f->pos + n);
	memcpy(&f->data[f->pos], buf, n);
	f->pos += n;
	f->written += n;
	return n;
}

static ssize_t cookie_read(void* c, char* buf, size_t n) {
	Faulty* f = (Faulty*)c;
	if (f->read + n > f->fail_read && f->failures) {
		f->failures--;
		f->hit++;
		errno = EIO;
		return -1;
	}
	if (f->pos >= f->data.size())
		return 0;
	n = std::min(n, f->data.size() - f->pos);
	memcpy(buf, &f->data[f->pos], n);
	f->pos += n;
	f->read += n;
	return n;
}

static int cookie_seek(void* c, off64_t* off, int whence) {
	Faulty* f = (Faulty*)c;
	int64_t at = *off + (whence == SEEK_CUR ? (int64_t)f->pos : whence == SEEK_END ? (int64_t)f->data.size() : 0);
	if (at < 0 || f->seekfail) {
		f->hit += f->seekfail;
		errno = EINVAL;
		return -1;
	}
	f->pos = *off = at;
	return 0;
}

static int cookie_close(void*) { return 0; }

static void check_complete(Ctx& c, const std::string& bytes, const std::string& want, bool sign, const char* what) {
	File f;
	f.set(bytes);
	struct loc_database* db = nullptr;
	int r = loc_database_new(c.ctx, &db, f.f);
	CHECK(r == 0, "writing to %s was reported to be successful, but the file cannot be opened", what);
	struct G { struct loc_database* d; ~G() { loc_database_unref(d); } } g{db};
	std::string got = dump_db(c, db);
	CHECK(got == want, "writing to %s was reported to be successful, but the file has other contents:\n%.2000s\nexpected:\n%.2000s", what, got.c_str(), want.c_str());
	if (sign) {
		FILE* k = text_file(key.pub);
		r = loc_database_verify(db, k);
		fclose(k);
		CHECK(r == 0, "writing to %s was reported to be successful, but the signature does not verify", what);
	}
}

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	Records rec = gen_records(s, 30, o, s.coin());
	const unsigned keys = s.pick({3, 2, 1}); // none, first, second
	FILE* k = keys ? text_file(key.priv) : nullptr;
	Writer w(c, keys == 1 ? k : nullptr, keys == 2 ? k : nullptr);
	if (k) fclose(k);
	put_records(w.w, rec);

	// Without any faults, to see what it should look like
	std::string bytes, want;
	{
		File f;
		int r = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
		CHECK(r == 0, "could not write the database: %d", r);
		bytes = f.bytes();
		Db d(c, f);
		want = dump_db(c, d.db);
		check_complete(c, bytes, want, keys, "a good file");
	}

	// How the stream buffers
	auto buffering = [&](FILE* f) {
		switch (s.pick({4, 2, 2, 1})) {
			case 1: setvbuf(f, NULL, _IONBF, 0); break;
			case 2: setvbuf(f, NULL, _IOFBF, 1 + s.choose(20000)); break;
			case 3: setvbuf(f, NULL, _IOLBF, 512); break;
		}
	};
	// Where it breaks
	auto point = [&]() -> size_t {
		switch (s.pick({3, 3, 2, 2})) {
			case 0: return s.choose(bytes.size() + 1);
			case 1: return bytes.size() - std::min<size_t>(bytes.size(), s.choose(600));
			case 2: return 4096 * s.choose(bytes.size() / 4096 + 1) + s.choose(3);
			default: return s.choose(4300);
		}
	};

	for (size_t round = 0, n = 1 + s.choose(4); round < n; round++) {
		switch (s.pick({4, 4, 1, 1, 2})) {
			// The file must not become larger than this
			case 0: {
				File f;
				size_t limit = point() + (s.chance(5) ? 32768 : 0);
				s.say("limit of %zu of %zu bytes; ", limit, bytes.size());
				buffering(f.f);
				struct rlimit old, rl;
				getrlimit(RLIMIT_FSIZE, &old);
				rl = old;
				rl.rlim_cur = limit;
				setrlimit(RLIMIT_FSIZE, &rl);
				int r = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
				fflush(f.f);
				setrlimit(RLIMIT_FSIZE, &old);
				// What is still buffered is lost with a failing process
				std::string got;
				off_t size = lseek(fileno(f.f), 0, SEEK_END);
				got.resize(size);
				if (size && pread(fileno(f.f), &got[0], size, 0) != size) pbt::fail("short read");
				if (r == 0)
					check_complete(c, got, want, keys, pbt::fmt("a file limited to %zu of %zu bytes", limit, bytes.size()).c_str());
				else
					s.label("failure reported");
				if (limit < bytes.size()) { s.nontrivial(); s.label("size limit hit"); }
				else if (limit >= bytes.size() + 8192) CHECK(r == 0, "writing failed with %d although the file may be large enough (%zu of %zu bytes)", r, limit, bytes.size());
				break;
			}
			// A device that fails
			case 1: {
				Faulty y;
				if (keys && s.chance(30)) y.fail_read = s.choose(bytes.size());
				else y.fail_write = point();
				y.failures = s.pick({3, 1}) ? 1 + s.choose(3) : UINT_MAX;
				y.partial = s.coin();
				if (s.chance(20)) y.chunk = 1 + s.choose(5000);
				y.seekfail = s.chance(3);
				s.say("device fails to write at %zd, to read at %zd, %u times, %s; ", (ssize_t)y.fail_write, (ssize_t)y.fail_read, y.failures, y.partial ? "partial" : "at once");
				cookie_io_functions_t io = { cookie_read, cookie_write, cookie_seek, cookie_close };
				FILE* f = fopencookie(&y, "w+", io);
				buffering(f);
				int r = loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET);
				std::string flushed = y.data;
				fclose(f);
				if (r == 0)
					check_complete(c, y.data, want, keys, pbt::fmt("a device which fails to write at %zd or to read at %zd (%u times hit)", (ssize_t)y.fail_write, (ssize_t)y.fail_read, y.hit).c_str());
				else
					s.label("failure reported");
				if (y.hit) { s.nontrivial(); s.label("device failed"); }
				break;
			}
			// A full disk
			case 2: {
				FILE* f = fopen("/dev/full", "w+");
				if (!f)
					break;
				buffering(f);
				s.say("/dev/full; ");
				int r = loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET);
				fclose(f);
				CHECK(r != 0, "writing to a full device was reported to be successful");
				s.nontrivial();
				s.label("full device");
				break;
			}
			// A file that cannot be written at all
			case 3: {
				int fd = memfd_create("ro", 0);
				std::string path = pbt::fmt("/proc/self/fd/%d", fd);
				FILE* f = fopen(path.c_str(), "r");
				close(fd);
				if (!f)
					break;
				s.say("read-only; ");
				int r = loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET);
				fclose(f);
				CHECK(r != 0, "writing to a read-only file was reported to be successful");
				s.label("read-only file");
				break;
			}
			// A file that cannot be read again
			default: {
				int fd = memfd_create("wo", 0);
				std::string path = pbt::fmt("/proc/self/fd/%d", fd);
				FILE* f = fopen(path.c_str(), "w");
				if (!f) { close(fd); break; }
				buffering(f);
				s.say("write-only; ");
				int r = loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET);
				fclose(f);
				std::string got;
				off_t size = lseek(fd, 0, SEEK_END);
				got.resize(size);
				if (size && pread(fd, &got[0], size, 0) != size) pbt::fail("short read");
				close(fd);
				if (r == 0)
					check_complete(c, got, want, keys, "a write-only file");
				if (keys) { s.nontrivial(); s.label("write-only file with keys"); }
				break;
			}
		}
	}

	// The writer is still good
	if (s.chance(30)) {
		File f;
		int r = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
		CHECK(r == 0, "after a failed attempt, the database cannot be written any more: %d", r);
		check_complete(c, f.bytes(), want, keys, "a good file after a failed attempt");
	}
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C09",
		"a generated database (signed or not) is written to up to four outputs that break at a generated byte: a size limit, a device failing permanently or a few times, with partial writes and any buffering, read errors while signing, full, read-only and write-only files; "
		"whenever success is reported the file is read back in full, compared with what a good file says, and its signature verified; "
		"non-trivial: a fault was really hit", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
