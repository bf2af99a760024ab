/*
	Thin C++ helpers around the public API of libloc
*/
#pragma once

#include <errno.h>
#include <sys/mman.h>
#include <string>
#include <vector>

extern "C" {
#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/writer.h>
}

#include "model.hpp"

static void quiet_log(struct loc_ctx*, int, const char*, int, const char*, const char*, va_list) {}

struct Ctx {
	struct loc_ctx* ctx = nullptr;
	Ctx() {
		if (loc_new(&ctx))
			pbt::fail("loc_new failed");
		loc_set_log_fn(ctx, quiet_log);
		loc_set_log_priority(ctx, 0);
	}
	~Ctx() { if (ctx) loc_unref(ctx); }
	Ctx(const Ctx&) = delete;
};

static inline FILE* mem_file() {
	int fd = memfd_create("loc", 0);
	if (fd < 0) { perror("memfd_create"); _exit(99); }
	return fdopen(fd, "w+");
}

static inline Net net_of(struct loc_network* n) {
	Net r;
	r.addr = from_in6(loc_network_get_first_address(n));
	r.plen = loc_network_prefix(n) + (loc_network_address_family(n) == AF_INET ? 96 : 0);
	return r;
}

static inline Info info_of(struct loc_network* n) {
	Info i;
	const char* cc = loc_network_get_country_code(n);
	i.cc = cc ? cc : "";
	i.asn = loc_network_get_asn(n);
	for (uint32_t f = 1; f; f <<= 1)
		if (loc_network_has_flag(n, f))
			i.flags |= f;
	return i;
}

static inline Entry entry_of(struct loc_network* n) { return Entry{net_of(n), info_of(n)}; }

// Checks that a network object is sane in itself
static inline void check_network_object(struct loc_network* n) {
	int family = loc_network_address_family(n);
	CHECK(family == AF_INET || family == AF_INET6, "network with family %d", family);
	Net x = net_of(n);
	CHECK(x.plen <= 128, "network with prefix %u", x.plen);
	CHECK(x.addr == (x.addr & mask(x.plen)), "network %s has host bits", x.str().c_str());
	CHECK(x.family() == family, "network %s has family %d", x.str().c_str(), family);
	u128 last = from_in6(loc_network_get_last_address(n));
	CHECK(last == x.last(), "network %s ends at %s", x.str().c_str(), addr_str(last).c_str());
	const char* str = loc_network_str(n);
	CHECK(str && x.str() == str, "network %s prints as %s", x.str().c_str(), str ? str : "(null)");
}

static inline void apply_info(struct loc_network* n, const Info& i) {
	CHECK(loc_network_set_country_code(n, i.cc.c_str()) == 0, "could not set country code %s", i.cc.c_str());
	CHECK(loc_network_set_asn(n, i.asn) == 0, "could not set ASN");
	// All at once, or one by one
	if (i.flags & 1) {
		for (uint32_t f = 1; f <= i.flags; f <<= 1)
			if (i.flags & f)
				CHECK(loc_network_set_flag(n, f) == 0, "could not set flag %x", f);
	} else if (i.flags)
		CHECK(loc_network_set_flag(n, i.flags) == 0, "could not set flags");
}

struct Writer {
	struct loc_writer* w = nullptr;
	Writer(Ctx& c, FILE* k1 = nullptr, FILE* k2 = nullptr) {
		if (loc_writer_new(c.ctx, &w, k1, k2))
			pbt::fail("loc_writer_new failed");
	}
	~Writer() { if (w) loc_writer_unref(w); }
	Writer(const Writer&) = delete;

	void add(const Entry& e) {
		struct loc_network* n = nullptr;
		int r = loc_writer_add_network(w, &n, e.net.str().c_str());
		CHECK(r == 0 && n, "could not add network %s: %d", e.net.str().c_str(), r);
		try {
			apply_info(n, e.info);
		} catch (...) { loc_network_unref(n); throw; }
		loc_network_unref(n);
	}
};

struct File {
	FILE* f;
	File() : f(mem_file()) {}
	explicit File(FILE* x) : f(x) {}
	~File() { if (f) fclose(f); }
	File(const File&) = delete;

	std::string bytes() {
		fflush(f);
		std::string s;
		off_t n = lseek(fileno(f), 0, SEEK_END);
		s.resize(n);
		if (n && pread(fileno(f), &s[0], n, 0) != n)
			pbt::fail("short read");
		return s;
	}
	void set(const std::string& s) {
		if (ftruncate(fileno(f), 0) || pwrite(fileno(f), s.data(), s.size(), 0) != (ssize_t)s.size()) {
			perror("pwrite"); _exit(99);
		}
	}
};

struct Db {
	struct loc_database* db = nullptr;
	Db(Ctx& c, File& f) {
		int r = loc_database_new(c.ctx, &db, f.f);
		if (r) { db = nullptr; pbt::fail("could not open the database: %d (%s)", r, strerror(errno)); }
	}
	~Db() { if (db) loc_database_unref(db); }
	Db(const Db&) = delete;

	// Returns true if something was found
	bool lookup(u128 a, Entry* out) {
		in6_addr x = to_in6(a);
		struct loc_network* n = nullptr;
		int r = loc_database_lookup(db, &x, &n);
		CHECK(r == 0, "lookup of %s failed with %d", addr_str(a).c_str(), r);
		if (!n)
			return false;
		struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
		check_network_object(n);
		*out = entry_of(n);
		return true;
	}
};

struct EnumOpts {
	enum loc_database_enumerator_mode mode = LOC_DB_ENUMERATE_NETWORKS;
	bool flatten = false;
	int family = 0;
	bool use_countries = false; std::vector<std::string> countries;
	bool use_asns = false; std::vector<uint32_t> asns;
	uint32_t flags = 0;

	bool any() const { return use_countries || use_asns || flags; }

	bool matches(const Entry& e) const {
		if (family && e.net.family() != family)
			return false;
		return matches_info(e.info);
	}
	bool matches_info(const Info& i) const {
		if (!any())
			return true;
		if (use_countries)
			for (auto& c : countries) if (c == i.cc) return true;
		if (use_asns)
			for (auto a : asns) if (a == i.asn) return true;
		return (flags & i.flags) != 0;
	}
	std::string str() const {
		std::string r = flatten ? "flat" : "plain";
		if (family) r += family == AF_INET ? " v4" : " v6";
		if (use_countries) { r += " cc="; for (auto& c : countries) r += c + ","; }
		if (use_asns) { r += " as="; for (auto a : asns) r += std::to_string(a) + ","; }
		if (flags) r += pbt::fmt(" flags=%x", flags);
		return r;
	}
};

struct Enumerator {
	struct loc_database_enumerator* e = nullptr;
	Enumerator(Ctx& c, Db& db, const EnumOpts& o) {
		int r = loc_database_enumerator_new(&e, db.db, o.mode, o.flatten ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
		CHECK(r == 0 && e, "could not create an enumerator: %d", r);
		if (o.family)
			loc_database_enumerator_set_family(e, o.family);
		if (o.flags & 1) {
			for (uint32_t f = 1; f <= o.flags; f <<= 1)
				if (o.flags & f)
					loc_database_enumerator_set_flag(e, (enum loc_network_flags)f);
		} else if (o.flags)
			loc_database_enumerator_set_flag(e, (enum loc_network_flags)o.flags);
		if (o.use_countries) {
			struct loc_country_list* l = nullptr;
			if (loc_country_list_new(c.ctx, &l)) pbt::fail("loc_country_list_new");
			for (auto& code : o.countries) {
				struct loc_country* x = nullptr;
				if (loc_country_new(c.ctx, &x, code.c_str())) { loc_country_list_unref(l); pbt::fail("loc_country_new(%s)", code.c_str()); }
				loc_country_list_append(l, x);
				loc_country_unref(x);
			}
			loc_database_enumerator_set_countries(e, l);
			loc_country_list_unref(l);
		}
		if (o.use_asns) {
			struct loc_as_list* l = nullptr;
			if (loc_as_list_new(c.ctx, &l)) pbt::fail("loc_as_list_new");
			for (auto n : o.asns) {
				struct loc_as* x = nullptr;
				if (loc_as_new(c.ctx, &x, n)) { loc_as_list_unref(l); pbt::fail("loc_as_new"); }
				loc_as_list_append(l, x);
				loc_as_unref(x);
			}
			loc_database_enumerator_set_asns(e, l);
			loc_as_list_unref(l);
		}
	}
	~Enumerator() { if (e) loc_database_enumerator_unref(e); }
	Enumerator(const Enumerator&) = delete;

	bool next(Entry* out) {
		struct loc_network* n = nullptr;
		int r = loc_database_enumerator_next_network(e, &n);
		CHECK(r == 0, "the enumeration failed with %d (%s)", r, strerror(errno));
		if (!n)
			return false;
		struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
		check_network_object(n);
		*out = entry_of(n);
		return true;
	}

	std::vector<Entry> all(size_t limit = 2000000) {
		std::vector<Entry> v;
		Entry e;
		while (next(&e)) {
			v.push_back(e);
			CHECK(v.size() <= limit, "the enumeration does not end");
		}
		// The end is stable
		CHECK(!next(&e), "the enumeration goes on with %s after it has ended", e.str().c_str());
		return v;
	}
};

static inline void build_db(Ctx& c, const std::vector<Entry>& entries, File& f) {
	Writer w(c);
	for (const Entry& e : entries)
		w.add(e);
	int r = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
	CHECK(r == 0, "could not write the database: %d", r);
}

static inline EnumOpts gen_filter(pbt::Src& s, const std::vector<Entry>& db) {
	EnumOpts o;
	switch (s.pick({2, 1, 1})) {
		case 1: o.family = AF_INET; break;
		case 2: o.family = AF_INET6; break;
	}
	if (s.chance(50)) {
		size_t n = 1 + s.choose(3);
		for (size_t i = 0; i < n; i++) {
			std::string cc = gen_cc(s);
			if (!cc.empty())
				o.countries.push_back(cc);
		}
		o.use_countries = !o.countries.empty();
	}
	if (s.chance(40)) {
		size_t n = 1 + s.choose(3);
		for (size_t i = 0; i < n; i++) {
			uint32_t asn = !db.empty() && s.coin() ? s.of(db).info.asn : 1 + (uint32_t)s.choose(5);
			if (asn)
				o.asns.push_back(asn);
		}
		o.use_asns = !o.asns.empty();
	}
	if (s.chance(40))
		o.flags = 1 + s.choose(15);
	// Long lists of things that hardly ever match, all around what was chosen
	if ((o.use_countries || o.use_asns) && s.chance(3)) {
		size_t n = s.size(200) * (s.chance(10) ? 20 : 1);
		uint64_t x = s.choose(1 << 20);
		auto rnd = [&]() { return (x = x * 6364136223846793005ull + 1442695040888963407ull) >> 33; };
		for (size_t i = 0; i < n; i++) {
			if (o.use_countries && i < 400) {
				std::string cc = { (char)('A' + rnd() % 23), (char)('A' + rnd() % 26) };
				o.countries.insert(o.countries.begin() + rnd() % (o.countries.size() + 1), cc);
			}
			if (o.use_asns)
				o.asns.insert(o.asns.begin() + rnd() % (o.asns.size() + 1), (uint32_t)(10 + rnd() % 2000000000));
		}
		s.label("long list of filters");
	}
	return o;
}
