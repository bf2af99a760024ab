/*
	A whole database in the model: networks, ASes, countries, metadata; and what one says
	when everything is read from it
*/
#pragma once
#include "loc.hpp"

struct CountryRec { std::string code; bool named = false, placed = false; std::string name, continent; };
struct AsRec { uint32_t number = 0; bool named = false; std::string name; };

struct Records {
	std::vector<Entry> entries;
	std::vector<AsRec> ases;
	std::vector<CountryRec> countries;
	bool has_vendor = false, has_description = false, has_license = false;
	std::string vendor, description, license;
};

static inline std::string gen_name(pbt::Src& s) {
	static const std::vector<std::string> pool = { "IPFire Project", "Lightning Wire Labs GmbH", "A", "DTAG", "\xc3\x85land", "abc", "" , "Some Network Operator Ltd." };
	if (s.chance(70))
		return s.of(pool);
	std::string r;
	for (size_t i = 0, n = s.choose(60); i < n; i++)
		r += (char)(32 + s.choose(95));
	return r;
}

static inline Records gen_records(pbt::Src& s, size_t max_nets, const NetOpts& o, bool distinct) {
	Records r;
	r.entries = gen_entries(s, max_nets, o, distinct);
	for (size_t i = 0, n = s.size(24); i < n; i++) {
		AsRec a;
		a.number = s.chance(80) ? 1 + s.choose(100) : (uint32_t)s.choose(1ull << 32);
		a.named = s.chance(90);
		if (a.named) a.name = gen_name(s);
		bool dup = false;
		for (auto& x : r.ases) dup |= x.number == a.number;
		if (!dup) r.ases.push_back(a);
	}
	for (size_t i = 0, n = s.size(16); i < n; i++) {
		CountryRec c;
		c.code = "AA";
		c.code[0] = 'A' + s.choose(26);
		if (c.code[0] == 'X') c.code[0] = 'D';
		c.code[1] = 'A' + s.choose(26);
		c.named = s.chance(85);
		if (c.named) c.name = gen_name(s);
		c.placed = s.chance(85);
		static const std::vector<std::string> continents = { "EU", "AS", "AF", "NA", "SA", "OC", "AN" };
		if (c.placed) c.continent = s.of(continents);
		bool dup = false;
		for (auto& x : r.countries) dup |= x.code == c.code;
		if (!dup) r.countries.push_back(c);
	}
	if ((r.has_vendor = s.coin())) r.vendor = gen_name(s);
	if ((r.has_description = s.coin())) r.description = s.chance(5) ? std::string(s.choose(60000), 'd') : gen_name(s);
	if ((r.has_license = s.coin())) r.license = gen_name(s);
	return r;
}

static inline void put_records(struct loc_writer* w, const Records& r) {
	if (r.has_vendor) CHECK(!loc_writer_set_vendor(w, r.vendor.c_str()), "could not set vendor");
	if (r.has_description) CHECK(!loc_writer_set_description(w, r.description.c_str()), "could not set description");
	if (r.has_license) CHECK(!loc_writer_set_license(w, r.license.c_str()), "could not set license");
	for (auto& a : r.ases) {
		struct loc_as* as = nullptr;
		CHECK(!loc_writer_add_as(w, &as, a.number) && as, "could not add AS%u", a.number);
		if (a.named) loc_as_set_name(as, a.name.c_str());
		loc_as_unref(as);
	}
	for (auto& x : r.countries) {
		struct loc_country* c = nullptr;
		CHECK(!loc_writer_add_country(w, &c, x.code.c_str()) && c, "could not add country %s", x.code.c_str());
		if (x.named) loc_country_set_name(c, x.name.c_str());
		if (x.placed) loc_country_set_continent_code(c, x.continent.c_str());
		loc_country_unref(c);
	}
	for (auto& e : r.entries) {
		struct loc_network* n = nullptr;
		int res = loc_writer_add_network(w, &n, e.net.str().c_str());
		CHECK(res == 0 && n, "could not add network %s: %d", e.net.str().c_str(), res);
		struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
		apply_info(n, e.info);
	}
}

// Everything a database says, as text
static inline std::string dump_db(Ctx& c, struct loc_database* db) {
	std::string r;
	auto str = [](const char* p) { return p ? std::string(p) : std::string("-"); };
	r += "vendor " + str(loc_database_get_vendor(db)) + "\n";
	r += "description " + str(loc_database_get_description(db)) + "\n";
	r += "license " + str(loc_database_get_license(db)) + "\n";
	r += pbt::fmt("ases %zu\n", loc_database_count_as(db));
	struct loc_database_enumerator* e = nullptr;
	for (auto mode : { LOC_DB_ENUMERATE_ASES, LOC_DB_ENUMERATE_COUNTRIES, LOC_DB_ENUMERATE_NETWORKS }) {
		CHECK(!loc_database_enumerator_new(&e, db, mode, 0), "could not create an enumerator");
		struct G { struct loc_database_enumerator* e; ~G() { loc_database_enumerator_unref(e); } } g{e};
		while (1) {
			if (mode == LOC_DB_ENUMERATE_ASES) {
				struct loc_as* as = nullptr;
				CHECK(!loc_database_enumerator_next_as(e, &as), "could not enumerate ASes");
				if (!as) break;
				r += pbt::fmt("as %u %s\n", loc_as_get_number(as), str(loc_as_get_name(as)).c_str());
				loc_as_unref(as);
			} else if (mode == LOC_DB_ENUMERATE_COUNTRIES) {
				struct loc_country* x = nullptr;
				CHECK(!loc_database_enumerator_next_country(e, &x), "could not enumerate countries");
				if (!x) break;
				r += "country " + str(loc_country_get_code(x)) + " " + str(loc_country_get_continent_code(x)) + " " + str(loc_country_get_name(x)) + "\n";
				loc_country_unref(x);
			} else {
				struct loc_network* n = nullptr;
				CHECK(!loc_database_enumerator_next_network(e, &n), "could not enumerate networks");
				if (!n) break;
				r += "net " + entry_of(n).str() + "\n";
				loc_network_unref(n);
			}
		}
	}
	return r;
}
