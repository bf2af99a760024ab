// Files that cannot be read are never taken for read
#include <openssl/err.h>
#include "keys.hpp"
#include "leak.hpp"
#include "records.hpp"

/*
	What the library calls to read a file, fails when it is told to: once, or from then on,
	at once, or after a part of what was asked for
*/
static bool armed = false, lasting = false, hit = false;
static long countdown = 0;
static uint64_t part = 0;

static bool fails() {
	if (!armed || countdown-- > 0)
		return false;
	hit = true;
	if (!lasting)
		armed = false;
	errno = EIO;
	return true;
}

// This is what glibc has ferror() look at
static void set_error(FILE* f) { f->_flags |= 0x0020; }

extern "C" {
size_t __real_fread(void*, size_t, size_t, FILE*);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
int __real_fseek(FILE*, long, int);
int __real_fseeko(FILE*, off_t, int);
off_t __real_lseek(int, off_t, int);
int __real_dup(int);
FILE* __real_fdopen(int, const char*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_madvise(void*, size_t, int);

size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f) {
	if (!fails())
		return __real_fread(p, size, n, f);
	size_t got = part && size ? __real_fread(p, 1, std::min<uint64_t>(part, size * n - 1), f) / size : 0;
	set_error(f);
	errno = EIO;
	return got;
}
ssize_t __wrap_read(int fd, void* p, size_t n) { return fails() ? -1 : __real_read(fd, p, n); }
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { return fails() ? -1 : __real_pread(fd, p, n, o); }
int __wrap_fseek(FILE* f, long o, int w) { return fails() ? -1 : __real_fseek(f, o, w); }
int __wrap_fseeko(FILE* f, off_t o, int w) { return fails() ? -1 : __real_fseeko(f, o, w); }
off_t __wrap_lseek(int fd, off_t o, int w) { return fails() ? -1 : __real_lseek(fd, o, w); }
int __wrap_dup(int fd) { return fails() ? -1 : __real_dup(fd); }
FILE* __wrap_fdopen(int fd, const char* mode) { return fails() ? nullptr : __real_fdopen(fd, mode); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return fails() ? MAP_FAILED : __real_mmap(a, n, p, f, fd, o); }
int __wrap_madvise(void* a, size_t n, int x) { return fails() ? -1 : __real_madvise(a, n, x); }
}

// A key that cannot be read beyond a certain point
struct KeyFile {
	std::string data;
	size_t pos = 0;
	long limit = -1; // -1: can be read entirely
	FILE* f = nullptr;
	bool failed = false;

	explicit KeyFile(const std::string& d, long limit = -1) : data(d), limit(limit) {
		cookie_io_functions_t io = {};
		io.read = [](void* c, char* buf, size_t n) -> ssize_t {
			KeyFile* k = (KeyFile*)c;
			size_t end = k->limit < 0 ? k->data.size() : std::min<size_t>(k->limit, k->data.size());
			n = std::min(n, end - k->pos);
			if (!n && k->limit >= 0) { k->failed = true; errno = EIO; return -1; }
			memcpy(buf, k->data.data() + k->pos, n);
			k->pos += n;
			return n;
		};
		f = fopencookie(this, "r", io);
	}
	~KeyFile() { fclose(f); }
	KeyFile(const KeyFile&) = delete;
};

static KeyPair keys[3];

struct Step {
	bool inject = false, lasting = false;
	long countdown = 0;
	uint64_t part = 0;
	long key = -1;
};

static Step gen_step(pbt::Src& s, unsigned depth) {
	Step x;
	x.inject = s.chance(70);
	if (x.inject) {
		x.countdown = s.choose(depth);
		x.lasting = s.chance(40);
		if (s.coin()) x.part = s.of(std::vector<uint64_t>({1, 7, 8, 100, 4096, 65535, 65536})) ;
	} else if (s.chance(20))
		x.key = s.choose(300);
	return x;
}

static unsigned failed;

template <class F> static int with(const Step& x, F f) {
	hit = false;
	countdown = x.countdown;
	lasting = x.lasting;
	part = x.part;
	armed = x.inject;
	int r = f();
	armed = false;
	failed += r && hit;
	return r;
}

struct Verification { int key; Step step; };

static void property(pbt::Src& s) {
	NetOpts o;
	Records r = gen_records(s, 12, o, s.coin());
	int signers[2];
	for (int& k : signers) k = s.chance(60) ? (int)s.choose(2) : -1;
	// More than one block of whatever is read
	size_t filler = s.chance(30) ? s.choose(200000) : 0;
	Step creating[2] = { gen_step(s, 4), gen_step(s, 4) }, writing = gen_step(s, 30), opening = gen_step(s, 6);
	if (filler) r.license = std::string(filler, 'L'), r.has_license = true;
	std::vector<Verification> verifications(1 + s.choose(4));
	for (auto& v : verifications) { v.key = s.choose(3); v.step = gen_step(s, 8); }

	failed = 0;
	std::string said;
	check_leaks([&] {
		Ctx c;
		std::string want, bytes;
		{
			// As it should be
			File f;
			Writer w(c);
			put_records(w.w, r);
			CHECK(!loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET), "could not write a database");
			Db d(c, f);
			want = dump_db(c, d.db);
		}
		struct loc_writer* w = nullptr;
		{
			KeyFile k0(signers[0] >= 0 ? keys[signers[0]].priv : "", creating[0].key), k1(signers[1] >= 0 ? keys[signers[1]].priv : "", creating[1].key);
			int e = with(creating[0], [&] { return loc_writer_new(c.ctx, &w, signers[0] >= 0 ? k0.f : nullptr, signers[1] >= 0 ? k1.f : nullptr); });
			bool broken = k0.failed || k1.failed;
			CHECK(!e || hit || broken, "could not create a writer (%d) although everything could be read", e);
			if (e) {
				failed++;
				w = nullptr;
				KeyFile g0(signers[0] >= 0 ? keys[signers[0]].priv : ""), g1(signers[1] >= 0 ? keys[signers[1]].priv : "");
				e = loc_writer_new(c.ctx, &w, signers[0] >= 0 ? g0.f : nullptr, signers[1] >= 0 ? g1.f : nullptr);
				CHECK(!e, "could not create a writer at the second attempt: %d", e);
			}
		}
		struct GW { struct loc_writer* w; ~GW() { loc_writer_unref(w); } } gw{w};
		put_records(w, r);

		File f;
		int e = with(writing, [&] { return loc_writer_write(w, f.f, LOC_DATABASE_VERSION_UNSET); });
		if (e) {
			CHECK(hit, "could not write a database (%d) although everything could be read", e);
			clearerr(f.f);
			e = loc_writer_write(w, f.f, LOC_DATABASE_VERSION_UNSET);
			CHECK(!e, "could not write the database at the second attempt: %d", e);
		}

		struct loc_database* db = nullptr;
		e = with(opening, [&] { return loc_database_new(c.ctx, &db, f.f); });
		if (e) {
			CHECK(hit, "could not open the database (%d) although everything could be read", e);
			clearerr(f.f);
			db = nullptr;
			e = loc_database_new(c.ctx, &db, f.f);
			CHECK(!e, "could not open the database at the second attempt: %d", e);
		}
		struct GD { struct loc_database* d; ~GD() { loc_database_unref(d); } } gd{db};
		std::string got = dump_db(c, db);
		CHECK(got == want, "the database has become\n%sinstead of\n%s", got.c_str(), want.c_str());

		for (auto& v : verifications) {
			bool valid = v.key == signers[0] || v.key == signers[1];
			KeyFile k(keys[v.key].pub, v.step.key);
			e = with(v.step, [&] { return loc_database_verify(db, k.f); });
			CHECK(e || valid, "the database verifies with key %d, but it was signed by %d and %d", v.key, signers[0], signers[1]);
			CHECK(!e || !valid || hit || k.failed, "signed by %d and %d, it does not verify with key %d (%d) although everything could be read", signers[0], signers[1], v.key, e);
			if (k.failed) failed++;
			// And now without any trouble
			KeyFile g(keys[v.key].pub);
			e = loc_database_verify(db, g.f);
			CHECK(!e == valid, "signed by %d and %d, verification with key %d returns %d after a failure", signers[0], signers[1], v.key, e);
		}
		ERR_clear_error();
	});
	s.say("%zu networks, signed by %d and %d, %zu verifications, %u failures", r.entries.size(), signers[0], signers[1], verifications.size(), failed);
	if (failed) s.nontrivial();
	if (filler) s.label("large file");
}

static void setup() {
	for (auto& k : keys) k = make_keypair(EVP_EC_gen("P-256"));
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C33",
		"a database with 0-2 signatures is written, opened and verified with 1-4 keys; in most of the calls the 1st to nth function that reads (or seeks, maps, ...) fails, once or from then on, at once or after a part, or the key cannot be read beyond a point; a call must either do the right thing, or fail and succeed when it is repeated, and afterwards no memory and no descriptor may be left; "
		"non-trivial: at least one call has failed", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
