// Corrupt or truncated databases never crash, hang or leak the process
#include "loc.hpp"
#include "leak.hpp"
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>

/*
	Files are "mapped" into heap blocks of exactly their size, so that the address sanitizer
	sees every access beyond the end. What is written into the mapping is noticed on unmapping.
*/
extern "C" {
void* __real_mmap(void* addr, size_t length, int prot, int flags, int fd, off_t offset);
int __real_munmap(void* addr, size_t length);
}

static std::map<void*, std::string> mappings;
static bool mapping_written = false;

extern "C" void* __wrap_mmap(void* addr, size_t length, int prot, int flags, int fd, off_t offset) {
	if (fd < 0)
		return __real_mmap(addr, length, prot, flags, fd, offset);
	if (!length) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	off_t size = lseek(fd, 0, SEEK_END);
	size_t usable = offset < size ? std::min<size_t>(length, size - offset) : 0;
	void* p = nullptr;
	if (posix_memalign(&p, 4096, usable ? usable : 1))
		abort();
	if (usable && pread(fd, p, usable, offset) != (ssize_t)usable)
		abort();
	mappings[p] = std::string((char*)p, usable);
	return p;
}

extern "C" void* __wrap_mmap64(void* addr, size_t length, int prot, int flags, int fd, off_t offset) {
	return __wrap_mmap(addr, length, prot, flags, fd, offset);
}

extern "C" int __wrap_munmap(void* addr, size_t length) {
	auto i = mappings.find(addr);
	if (i == mappings.end())
		return __real_munmap(addr, length);
	if (memcmp(addr, i->second.data(), i->second.size()))
		mapping_written = true;
	mappings.erase(i);
	free(addr);
	return 0;
}

static std::string pubkey, privkey;

static void setup() {
	EVP_PKEY* k = EVP_EC_gen("P-256");
	for (int i = 0; i < 2; i++) {
		BIO* b = BIO_new(BIO_s_mem());
		if (i) PEM_write_bio_PUBKEY(b, k); else PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
		char* p; long n = BIO_get_mem_data(b, &p);
		(i ? pubkey : privkey).assign(p, n);
		BIO_free(b);
	}
	EVP_PKEY_free(k);
}

static volatile size_t sink;
static void touch(const char* p) { if (p) sink += strlen(p); }

static void touch_network(struct loc_network* n) {
	touch(loc_network_str(n));
	touch(loc_network_format_first_address(n));
	touch(loc_network_format_last_address(n));
	touch(loc_network_get_country_code(n));
	check_network_object(n);
	sink += loc_network_get_asn(n) + loc_network_has_flag(n, 1);
}

struct Plan {
	std::vector<u128> probes;
	std::vector<std::string> codes;
	std::vector<uint32_t> asns;
	std::vector<EnumOpts> filters;
	bool verify = false;
};

static unsigned opened, objects;

static void enumerate(Ctx& c, struct loc_database* db, const EnumOpts& o, size_t limit) {
	struct loc_database_enumerator* e = nullptr;
	if (loc_database_enumerator_new(&e, db, o.mode, o.flatten ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0) || !e)
		return;
	if (o.family) loc_database_enumerator_set_family(e, o.family);
	if (o.flags) loc_database_enumerator_set_flag(e, (enum loc_network_flags)o.flags);
	if (o.use_countries) {
		struct loc_country_list* l = nullptr;
		loc_country_list_new(c.ctx, &l);
		for (auto& code : o.countries) {
			struct loc_country* x = nullptr;
			if (!loc_country_new(c.ctx, &x, code.c_str())) { loc_country_list_append(l, x); loc_country_unref(x); }
		}
		loc_database_enumerator_set_countries(e, l);
		loc_country_list_unref(l);
	}
	if (o.mode == LOC_DB_ENUMERATE_ASES && o.flags)
		loc_database_enumerator_set_string(e, "a");

	for (size_t i = 0; ; i++) {
		if (i > limit) {
			loc_database_enumerator_unref(e);
			pbt::fail("the enumeration of %s does not end", o.str().c_str());
		}
		if (o.mode == LOC_DB_ENUMERATE_ASES) {
			struct loc_as* as = nullptr;
			if (loc_database_enumerator_next_as(e, &as) || !as)
				break;
			sink += loc_as_get_number(as);
			touch(loc_as_get_name(as));
			loc_as_unref(as);
		} else if (o.mode == LOC_DB_ENUMERATE_COUNTRIES) {
			struct loc_country* x = nullptr;
			if (loc_database_enumerator_next_country(e, &x) || !x)
				break;
			touch(loc_country_get_code(x)); touch(loc_country_get_name(x)); touch(loc_country_get_continent_code(x));
			loc_country_unref(x);
		} else {
			struct loc_network* n = nullptr;
			if (loc_database_enumerator_next_network(e, &n) || !n)
				break;
			struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
			touch_network(n);
		}
		objects++;
	}
	loc_database_enumerator_unref(e);
}

// Runs every read operation on the file
static void exercise(const std::string& bytes, const Plan& plan) {
	Ctx c;
	File f;
	f.set(bytes);

	struct loc_database* db = nullptr;
	if (loc_database_new(c.ctx, &db, f.f))
		return;
	CHECK(db, "a database was opened, but not returned");
	struct G { struct loc_database* d; ~G() { loc_database_unref(d); } } g{db};
	opened = 1;

	sink += loc_database_created_at(db);
	touch(loc_database_get_vendor(db));
	touch(loc_database_get_description(db));
	touch(loc_database_get_license(db));
	size_t n = loc_database_count_as(db);
	CHECK(n <= bytes.size(), "%zu ASes in a file of %zu bytes", n, bytes.size());

	for (u128 a : plan.probes) {
		in6_addr x = to_in6(a);
		struct loc_network* net = nullptr;
		if (!loc_database_lookup(db, &x, &net) && net) {
			struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{net};
			touch_network(net);
			CHECK(net_of(net).has(a), "lookup of %s returned %s", addr_str(a).c_str(), net_of(net).str().c_str());
			objects++;
		}
	}
	for (uint32_t asn : plan.asns) {
		struct loc_as* as = nullptr;
		if (!loc_database_get_as(db, &as, asn) && as) {
			touch(loc_as_get_name(as));
			loc_as_unref(as);
			objects++;
		}
	}
	for (const std::string& code : plan.codes) {
		struct loc_country* x = nullptr;
		if (!loc_database_get_country(db, &x, code.c_str()) && x) {
			touch(loc_country_get_code(x)); touch(loc_country_get_name(x)); touch(loc_country_get_continent_code(x));
			loc_country_unref(x);
			objects++;
		}
	}
	// A tree without cycles has fewer networks than nodes; flattening and bogons split each into at most 128 per gap
	for (const EnumOpts& o : plan.filters)
		enumerate(c, db, o, 1000 + bytes.size() * 140);

	if (plan.verify) {
		FILE* k = mem_file();
		fwrite(pubkey.data(), 1, pubkey.size(), k);
		rewind(k);
		sink += loc_database_verify(db, k);
		fclose(k);
	}
}

static Plan gen_plan(pbt::Src& s, const std::vector<Entry>& db) {
	Plan p;
	NetOpts o;
	o.enclosing = true;
	for (size_t i = 0, n = 1 + s.choose(8); i < n; i++)
		p.probes.push_back(gen_probe(s, db, o));
	p.codes = { "DE", "AA", "ZZ", "A1" };
	p.asns = { 0, 1, 3, 0xffffffff, 1000 };
	for (auto m : { LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATE_ASES, LOC_DB_ENUMERATE_COUNTRIES, LOC_DB_ENUMERATE_BOGONS }) {
		EnumOpts e;
		e.mode = m;
		p.filters.push_back(e);
	}
	EnumOpts flat;
	flat.flatten = true;
	p.filters.push_back(flat);
	if (s.coin()) {
		EnumOpts e = gen_filter(s, db);
		e.use_asns = false;
		e.mode = (enum loc_database_enumerator_mode)(1 + s.choose(4));
		e.flatten = s.coin();
		p.filters.push_back(e);
	}
	p.verify = s.chance(20);
	return p;
}

static std::string gen_base(pbt::Src& s, std::vector<Entry>& db) {
	NetOpts o;
	o.enclosing = s.chance(10);
	db = gen_entries(s, 20, o, s.coin());
	Ctx c;
	FILE* k = nullptr;
	if (s.chance(15)) {
		k = mem_file();
		fwrite(privkey.data(), 1, privkey.size(), k);
		rewind(k);
	}
	Writer w(c, k);
	if (k)
		fclose(k);
	for (const Entry& e : db)
		w.add(e);
	if (s.coin()) {
		loc_writer_set_vendor(w.w, "Vendor");
		loc_writer_set_description(w.w, "Some longer description");
		loc_writer_set_license(w.w, "CC");
	}
	for (size_t i = 0, n = s.choose(5); i < n; i++) {
		struct loc_as* as = nullptr;
		if (!loc_writer_add_as(w.w, &as, 1 + s.choose(5)) && as) {
			loc_as_set_name(as, s.coin() ? "AS name" : "another name");
			loc_as_unref(as);
		}
	}
	for (size_t i = 0, n = s.choose(4); i < n; i++) {
		std::string cc = gen_cc(s);
		struct loc_country* x = nullptr;
		if (!cc.empty() && !loc_writer_add_country(w.w, &x, cc.c_str()) && x) {
			loc_country_set_name(x, "Country");
			loc_country_set_continent_code(x, "EU");
			loc_country_unref(x);
		}
	}
	File f;
	CHECK(!loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET), "could not write the database");
	return f.bytes();
}

static uint32_t get32(const std::string& b, size_t at) {
	if (at + 4 > b.size()) return 0;
	return ((uint8_t)b[at] << 24u) | ((uint8_t)b[at + 1] << 16) | ((uint8_t)b[at + 2] << 8) | (uint8_t)b[at + 3];
}

static void put32(std::string& b, size_t at, uint32_t v) {
	if (at + 4 > b.size()) return;
	for (int i = 0; i < 4; i++)
		b[at + i] = (char)(v >> (24 - 8 * i));
}

// The fields of the header: magic, version, created_at, three strings, five sections
enum { H_VENDOR = 16, H_AS = 28, H_NETS = 36, H_TREE = 44, H_COUNTRIES = 52, H_POOL = 60, H_SIG = 68 };

static uint32_t gen_value(pbt::Src& s, const std::string& b, size_t at) {
	uint32_t old = get32(b, at);
	switch (s.pick({3, 2, 2, 2, 2, 1, 1, 1, 1, 1})) {
		case 0: return (uint32_t)s.choose(16);
		case 1: return 0xffffffffu - s.choose(4);
		case 2: return b.size() - 20 + s.choose(40);
		case 3: return old + 1 + s.choose(24);
		case 4: return old - 1 - s.choose(24);
		case 5: return 0x80000000u - 2 + s.choose(4);
		case 6: return (uint32_t)s.choose(b.size() + 1);
		case 7: return 0u - (uint32_t)b.size() + s.choose(16);
		case 8: return get32(b, H_VENDOR + 4 * s.choose(14));
		default: return (uint32_t)s.choose(1ull << 32);
	}
}

static void mutate(pbt::Src& s, std::string& b) {
	if (b.empty())
		return;
	const size_t sections[] = { H_AS, H_NETS, H_TREE, H_COUNTRIES, H_POOL };
	switch (s.pick({3, 4, 6, 3, 3, 2, 3, 2, 2})) {
		// Cut short
		case 0: {
			size_t at;
			switch (s.pick({2, 2, 2})) {
				case 0: at = b.size() - 1 - s.choose(std::min<size_t>(b.size(), 64)); break;
				case 1: at = s.choose(b.size()); break;
				default: at = get32(b, sections[s.choose(5)]) + s.choose(24); break;
			}
			if (at < b.size()) b.resize(at);
			s.say("cut at %zu; ", at);
			break;
		}
		// A field of the header
		case 1: {
			size_t at = H_VENDOR + 4 * s.choose(13);
			uint32_t v = gen_value(s, b, at);
			put32(b, at, v);
			s.say("header@%zu=%x; ", at, v);
			break;
		}
		// A field of a node
		case 2: {
			size_t off = get32(b, H_TREE), n = get32(b, H_TREE + 4) / 12;
			if (!n) break;
			for (size_t i = 0, k = 1 + s.choose(4); i < k; i++) {
				size_t node = s.choose(std::min<size_t>(n, 1000000));
				size_t at = off + node * 12 + 4 * s.choose(3);
				uint32_t v;
				switch (s.pick({3, 2, 2, 2})) {
					case 0: v = s.choose(n); break;
					case 1: v = node; break;
					case 2: v = n - 2 + s.choose(4); break;
					default: v = gen_value(s, b, at); break;
				}
				put32(b, at, v);
				s.say("node %zu@%zu=%x; ", node, at, v);
			}
			break;
		}
		// A field of another record
		case 3: {
			size_t sec = sections[s.choose(5)];
			size_t off = get32(b, sec), len = get32(b, sec + 4);
			if (len < 4) break;
			size_t at = off + (s.choose(len) & ~(size_t)3);
			uint32_t v = gen_value(s, b, at);
			put32(b, at, v);
			s.say("record@%zu=%x; ", at, v);
			break;
		}
		// Single bytes
		case 4:
			for (size_t i = 0, k = 1 + s.choose(6); i < k; i++) {
				size_t at = s.coin() ? s.choose(b.size()) : s.choose(std::min<size_t>(b.size(), 72));
				b[at] = (char)s.choose(256);
				s.say("byte %zu; ", at);
			}
			break;
		// A range filled
		case 5: {
			size_t at = s.choose(b.size()), n = std::min<size_t>(b.size() - at, 1 + s.choose(4096));
			memset(&b[at], s.coin() ? 0xff : s.choose(256), n);
			s.say("fill %zu+%zu; ", at, n);
			break;
		}
		// Strings without an end, or with a different one
		case 6: {
			size_t off = get32(b, H_POOL), len = get32(b, H_POOL + 4);
			if (!len || len > b.size() || off > b.size() - len) break;
			if (s.coin()) memset(&b[off], 'A', len); else b[off + len - 1] = 'A';
			if (s.coin()) put32(b, H_VENDOR + 4 * s.choose(3), len - 1 + s.choose(3));
			s.say("pool; ");
			break;
		}
		// Lengths of the signatures
		case 7:
			if (b.size() > H_SIG + 4) {
				uint16_t v = s.coin() ? 2046 + s.choose(5) : s.choose(65536);
				size_t at = H_SIG + 2 * s.choose(2);
				b[at] = v >> 8; b[at + 1] = v;
				s.say("signature length %u; ", v);
			}
			break;
		// The header alone, everything else moved to its end
		default: {
			b.resize(std::min<size_t>(b.size(), 4200 + s.choose(80)));
			for (size_t sec : sections) {
				put32(b, sec, s.coin() ? b.size() - s.choose(32) : s.choose(b.size()));
				put32(b, sec + 4, s.coin() ? s.choose(40) : s.choose(b.size()));
			}
			s.say("sections moved; ");
			break;
		}
	}
}

// A file with nothing but a header and random sections: any tree at all
static std::string gen_wild(pbt::Src& s) {
	std::string b("LOCDBXX\1", 8);
	b.resize(4200);
	size_t nodes = 1 + s.choose(s.coin() ? 6 : 300), nets = s.choose(5);
	auto section = [&](size_t h, std::string data) {
		put32(b, h, b.size());
		put32(b, h + 4, data.size());
		b += data;
	};
	std::string tree(nodes * 12, 0), records(nets * 12, 0), as(8 * s.choose(4), 0), countries(8 * s.choose(4), 0), pool = "name";
	const unsigned style = s.choose(4);
	for (size_t i = 0; i < nodes; i++) {
		for (int k = 0; k < 2; k++) {
			uint32_t v = 0;
			switch (style) {
				case 0: v = s.choose(nodes + 1); break;
				case 1: v = i + 1; break;
				case 2: v = s.coin() ? i : 0; break;
				default: v = s.chance(70) ? s.choose(i + 2) : 0; break;
			}
			put32(tree, i * 12 + 4 * k, v);
		}
		put32(tree, i * 12 + 8, s.chance(30) ? s.choose(nets + 1) : 0xffffffff);
	}
	for (std::string* x : { &records, &as, &countries })
		for (char& ch : *x)
			ch = s.coin() ? 'A' + s.choose(3) : s.choose(256);
	pool.push_back(s.chance(90) ? 0 : 'x');
	section(H_AS, as); section(H_NETS, records); section(H_TREE, tree); section(H_COUNTRIES, countries); section(H_POOL, pool);
	s.say("wild file of %zu nodes (style %u); ", nodes, style);
	return b;
}

static void property(pbt::Src& s) {
	std::vector<Entry> db;
	std::string b;
	if (s.chance(25)) {
		b = gen_wild(s);
		s.label("wild");
	} else {
		b = gen_base(s, db);
		s.say("database of %zu networks, %zu bytes; ", db.size(), b.size());
	}
	for (size_t i = 0, n = s.choose(5); i < n; i++)
		mutate(s, b);
	Plan plan = gen_plan(s, db);

	opened = objects = 0;
	check_leaks([&] { exercise(b, plan); });
	CHECK(!mapping_written, "the file's contents have been written to");
	CHECK(mappings.empty(), "the file has not been unmapped");
	if (opened) { s.label("opened"); if (objects) s.nontrivial(); }
}

#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	static bool done = false;
	static Plan plan;
	if (!done) {
		done = true;
		setup();
		for (int i = 0; i < 32; i++) {
			plan.probes.push_back((u128)1 << (i * 4));
			plan.probes.push_back(V4BASE | ((u128)0x9e3779b1u * i & 0xffffffff));
		}
		plan.probes.push_back(0); plan.probes.push_back(ALLONES);
		plan.codes = { "DE", "AA", "ZZ", "A1" };
		plan.asns = { 0, 1, 3, 0xffffffff, 1000 };
		for (auto m : { LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATE_ASES, LOC_DB_ENUMERATE_COUNTRIES, LOC_DB_ENUMERATE_BOGONS })
			for (int flat = 0; flat < 2; flat++) {
				EnumOpts e;
				e.mode = m;
				e.flatten = flat;
				plan.filters.push_back(e);
				e.family = flat ? AF_INET6 : AF_INET;
				e.use_countries = true;
				e.countries = { "DE", "FR" };
				e.flags = 3;
				plan.filters.push_back(e);
			}
		plan.verify = true;
	}
	try {
		check_leaks([&] { exercise(std::string((const char*)data, size), plan); });
		CHECK(!mapping_written, "the file's contents have been written to");
	} catch (const pbt::Fail& f) {
		fprintf(stderr, "%s\n", f.msg.c_str());
		abort();
	}
	return 0;
}
#else
int main(int argc, char** argv) {
	static const pbt::Property p = { "C08",
		"a generated database is damaged by up to four structured changes (truncation, header fields, tree nodes, records, string pool, signature lengths, random bytes), or a file with an arbitrary tree is made up; "
		"the file is mapped into a heap block of exactly its size, then opened and everything in it read under the address sanitizer, with limits on steps, CPU time, memory and file descriptors; "
		"non-trivial: the file could still be opened and at least one object was read from it", property, setup };

	// C08 corpus DIR COUNT: starting points for the fuzzer
	if (argc == 4 && !strcmp(argv[1], "corpus")) {
		setup();
		pbt::Shared* sh = pbt::make_shared();
		for (int i = 0; i < atoi(argv[3]); i++) {
			pbt::Src s;
			s.sh = sh; s.replaying = false; s.in = nullptr;
			s.seed(i);
			std::vector<Entry> db;
			std::string b = i % 4 ? gen_base(s, db) : gen_wild(s);
			FILE* f = fopen(pbt::fmt("%s/%d", argv[2], i).c_str(), "w");
			fwrite(b.data(), 1, b.size(), f);
			fclose(f);
		}
		return 0;
	}
	return pbt::pbt_main(argc, argv, p);
}
#endif
