// Database files depend only on what was put into them
#include "keys.hpp"
#include "records.hpp"

/*
	Memory the library gets, and stack it runs on, is filled with a pattern that differs from
	one build of a database to the next: what is written without having been set shows.
*/
static unsigned char pattern = 0;

extern "C" {
void* __real_malloc(size_t n);
void* __real_realloc(void* p, size_t n);
void* __wrap_malloc(size_t n) {
	void* p = __real_malloc(n);
	if (p && pattern) memset(p, pattern, n);
	return p;
}
size_t malloc_usable_size(void*);
void* __wrap_realloc(void* p, size_t n) {
	size_t old = p ? malloc_usable_size(p) : 0;
	void* q = __real_realloc(p, n);
	if (q && pattern && n > old) memset((char*)q + old, pattern, n - old);
	return q;
}
}

__attribute__((noinline)) static void dirty_stack() {
	volatile unsigned char buf[96 * 1024];
	for (size_t i = 0; i < sizeof(buf); i++) buf[i] = pattern + (i % 7 == 3);
	asm volatile("" :: "r"(buf) : "memory");
}

static KeyPair key;

// Where the creation time and the signatures are
static std::string blank(std::string b, bool has_key) {
	const size_t header = 8 + 8 + 4 * 13;
	CHECK(b.size() >= header + 4 + 4096 + 32, "the file has only %zu bytes", b.size());
	memset(&b[8], 0, 8);
	if (has_key)
		memset(&b[header], 0, 4 + 4096);
	return b;
}

static std::string make(const Records& r, bool has_key, unsigned char fill, pbt::Src& s, const std::vector<uint64_t>& history, bool failing) {
	pattern = fill;
	Ctx c;
	// What happened before
	std::vector<void*> blocks;
	for (uint64_t h : history) {
		switch (h % 4) {
			case 0: { Records x; x.vendor = std::string(h / 4 % 3000, 'v'); x.has_vendor = true;
				Entry e; e.net = Net((u128)(h * 0x9e3779b97f4a7c15ull) << 64, 40); e.info.cc = "ZA"; e.info.asn = h; e.info.flags = 15; x.entries.push_back(e);
				Writer w(c); put_records(w.w, x); File f; loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET); break; }
			case 1: { void* p = malloc(1 + h / 4 % 5000); memset(p, fill ^ 0xff, 1 + h / 4 % 5000); blocks.push_back(p); break; }
			case 2: if (!blocks.empty()) { free(blocks.back()); blocks.pop_back(); } break;
			default: { struct loc_network* n = nullptr; loc_network_new_from_string(c.ctx, &n, h & 4 ? "10.0.0.0/8" : "what"); if (n) { loc_network_set_country_code(n, "QA"); (void)loc_network_str(n); loc_network_unref(n); } break; }
		}
	}
	FILE* k = has_key ? text_file(key.priv) : nullptr;
	std::string bytes;
	{
		dirty_stack();
		Writer w(c, k);
		dirty_stack();
		put_records(w.w, r);
		// Refused additions leave no traces
		if (failing && r.entries.size()) {
			struct loc_network* n = nullptr;
			loc_writer_add_network(w.w, &n, r.entries[0].net.str().c_str());
			if (n) loc_network_unref(n);
			n = nullptr;
			loc_writer_add_network(w.w, &n, "10.0.0.0/99");
			if (n) loc_network_unref(n);
		}
		File f;
		dirty_stack();
		int res = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
		CHECK(res == 0, "could not write the database: %d", res);
		bytes = f.bytes();
	}
	if (k) fclose(k);
	for (void* p : blocks) free(p);
	pattern = 0;
	return bytes;
}

static void copy(struct loc_database* db, struct loc_writer* w) {
	if (const char* p = loc_database_get_vendor(db)) CHECK(!loc_writer_set_vendor(w, p), "set_vendor");
	if (const char* p = loc_database_get_description(db)) CHECK(!loc_writer_set_description(w, p), "set_description");
	if (const char* p = loc_database_get_license(db)) CHECK(!loc_writer_set_license(w, p), "set_license");
	struct E { struct loc_database_enumerator* e = nullptr; ~E() { if (e) loc_database_enumerator_unref(e); } };
	{
		E e;
		CHECK(!loc_database_enumerator_new(&e.e, db, LOC_DB_ENUMERATE_ASES, 0), "enumerator");
		while (1) {
			struct loc_as *a = nullptr, *b = nullptr;
			CHECK(!loc_database_enumerator_next_as(e.e, &a), "next_as");
			if (!a) break;
			CHECK(!loc_writer_add_as(w, &b, loc_as_get_number(a)) && b, "could not add AS%u", loc_as_get_number(a));
			loc_as_set_name(b, loc_as_get_name(a));
			loc_as_unref(a); loc_as_unref(b);
		}
	}
	{
		E e;
		CHECK(!loc_database_enumerator_new(&e.e, db, LOC_DB_ENUMERATE_COUNTRIES, 0), "enumerator");
		while (1) {
			struct loc_country *a = nullptr, *b = nullptr;
			CHECK(!loc_database_enumerator_next_country(e.e, &a), "next_country");
			if (!a) break;
			CHECK(!loc_writer_add_country(w, &b, loc_country_get_code(a)) && b, "could not add country %s", loc_country_get_code(a));
			loc_country_set_name(b, loc_country_get_name(a));
			if (const char* p = loc_country_get_continent_code(a)) loc_country_set_continent_code(b, p);
			loc_country_unref(a); loc_country_unref(b);
		}
	}
	{
		E e;
		CHECK(!loc_database_enumerator_new(&e.e, db, LOC_DB_ENUMERATE_NETWORKS, 0), "enumerator");
		while (1) {
			struct loc_network *a = nullptr, *b = nullptr;
			CHECK(!loc_database_enumerator_next_network(e.e, &a), "next_network");
			if (!a) break;
			CHECK(!loc_writer_add_network(w, &b, loc_network_str(a)) && b, "could not add network %s", loc_network_str(a));
			loc_network_set_country_code(b, loc_network_get_country_code(a));
			loc_network_set_asn(b, loc_network_get_asn(a));
			for (uint32_t f = 1; f < 1 << 16; f <<= 1)
				if (loc_network_has_flag(a, f)) loc_network_set_flag(b, f);
			loc_network_unref(a); loc_network_unref(b);
		}
	}
}

static std::string without_networks(const std::string& dump) {
	size_t at = dump.find("\nnet ");
	return at == std::string::npos ? dump : dump.substr(0, at + 1);
}

static void property(pbt::Src& s) {
	NetOpts o;
	Records r = gen_records(s, 40, o, s.coin());
	const bool has_key = s.chance(8);
	auto history = [&]() {
		std::vector<uint64_t> h;
		for (size_t i = 0, n = s.choose(8); i < n; i++) h.push_back(s.choose(1 << 20));
		return h;
	};
	auto h1 = history(), h2 = history();
	const bool failing = s.coin();
	say_entries(s, r.entries);
	s.say("%zu ASes, %zu countries, %zu/%zu things before%s", r.ases.size(), r.countries.size(), h1.size(), h2.size(), has_key ? ", signed" : "");

	std::string a = make(r, has_key, 0xa5, s, h1, false);
	std::string b = make(r, has_key, 0x3c, s, h2, failing);
	std::string x = blank(a, has_key), y = blank(b, has_key);
	CHECK(x.size() == y.size(), "the same records make %zu bytes and %zu bytes", x.size(), y.size());
	for (size_t i = 0; i < x.size(); i++)
		CHECK(x[i] == y[i], "the same records make different files: byte %zu of %zu is %02x and %02x", i, x.size(), (unsigned char)x[i], (unsigned char)y[i]);

	// A copy gives the same answers
	Ctx c;
	File fa, fb;
	fa.set(a);
	Db da(c, fa);
	Writer w(c);
	copy(da.db, w.w);
	CHECK(!loc_writer_write(w.w, fb.f, LOC_DATABASE_VERSION_UNSET), "could not write the copy");
	Db db(c, fb);
	std::string d1 = dump_db(c, da.db), d2 = dump_db(c, db.db);
	CHECK(without_networks(d1) == without_networks(d2), "the copy differs:\n%s---\n%s", without_networks(d1).c_str(), without_networks(d2).c_str());
	for (auto& i : intervals(nets_of(r.entries))) {
		for (u128 at : { i.first, i.last }) {
			Entry e1, e2;
			bool f1 = da.lookup(at, &e1), f2 = db.lookup(at, &e2);
			CHECK(f1 == f2 && (!f1 || e1.info == e2.info), "%s is %s in the original and %s in the copy", addr_str(at).c_str(), f1 ? e1.str().c_str() : "nothing", f2 ? e2.str().c_str() : "nothing");
		}
	}
	if (r.entries.size() > 2 && r.ases.size() && r.countries.size()) s.nontrivial();
	if (has_key) s.label("signed");
}

static void setup() { key = make_keypair(EVP_EC_gen("P-256")); }

int main(int argc, char** argv) {
	static const pbt::Property p = { "C23",
		"generated records (0-40 networks, ASes, countries, metadata) are written twice by fresh writers after different histories, with all memory handed to the library and the stack filled with different patterns; the files are compared byte by byte apart from creation time and signatures; then the database is copied record by record and the copy queried at the ends of every elementary interval and dumped; "
		"non-trivial: more than two networks, and ASes and countries", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
