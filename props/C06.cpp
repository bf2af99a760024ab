// AS, country and metadata records survive a write/read round trip
#include "loc.hpp"

static std::string gen_text(pbt::Src& s) {
	static const std::string alphabet = "aAbBcC xyz09-.,";
	std::string r;
	switch (s.pick({12, 4, 3, 1})) {
		case 0: {
			size_t n = s.choose(8);
			for (size_t i = 0; i < n; i++)
				r += alphabet[s.choose(alphabet.size())];
			break;
		}
		case 1: {
			size_t n = s.choose(200);
			for (size_t i = 0; i < n; i++)
				r += (char)(1 + s.choose(255));
			break;
		}
		case 2: {
			static const std::vector<std::string> pool = { "IPFire Project", "Lightning Wire Labs GmbH", "CC", "Deutsche Telekom AG", "\xc3\x85land", "ABC", "abc", "" };
			r = s.of(pool);
			break;
		}
		// Long ones; seldom longer than any buffer
		default: {
			size_t n = s.chance(3) ? 500000 + s.choose(1100000) : 1000 + s.choose(9000);
			std::string unit = "x";
			unit[0] = 'a' + s.choose(26);
			r.assign(n, unit[0]);
			r += alphabet[s.choose(alphabet.size())];
			break;
		}
	}
	return r;
}

static std::string lower(std::string s) {
	for (char& c : s)
		if (c >= 'A' && c <= 'Z')
			c += 32;
	return s;
}

static std::string str(const char* p) { return p ? p : ""; }

static std::string brief(const std::string& s) { return s.size() > 60 ? s.substr(0, 60) + pbt::fmt("...(%zu)", s.size()) : s; }

struct Country { bool named = false, placed = false; std::string name, continent; };

static std::string gen_code(pbt::Src& s) {
	std::string r = "AA";
	r[0] = 'A' + s.choose(26);
	if (r[0] == 'X')
		r[0] = 'D';
	r[1] = 'A' + s.choose(26);
	return r;
}

static uint32_t gen_asn(pbt::Src& s) {
	switch (s.pick({6, 2, 1, 1, 1})) {
		case 0: return 1 + s.choose(64);
		case 1: return (uint32_t)s.choose(1ull << 32);
		case 2: return 0x7ffffffeu + s.choose(4);
		case 3: return 0xfffffff0u + s.choose(16);
		default: return 0;
	}
}

// More ASes than fit into 16 bits, or more text than a string pool begins with
static void large(pbt::Src& s) {
	const bool many = s.chance(30);
	const size_t n = many ? 66000 + s.choose(1000) : 1000 + s.choose(1000);
	// Enough to go beyond the end of what any of the first names may have reserved
	const size_t longest = 1000 + s.choose(2000);
	const uint64_t step = 1 + 2 * s.choose(30000), first = s.choose(1 << 20);
	Ctx c;
	Writer w(c);
	std::map<uint32_t, std::string> ases;
	for (size_t i = 0; i < n; i++) {
		// In no particular order
		const uint32_t number = (uint32_t)(first + (i * 7919 % n) * step);
		struct loc_as* a = nullptr;
		CHECK(!loc_writer_add_as(w.w, &a, number) && a, "could not add AS%u", number);
		std::string name = many ? pbt::fmt("Name %u", number % 211) : pbt::fmt("%u", number) + std::string(longest / 2 + number % (longest / 2), 'a' + number % 26);
		loc_as_set_name(a, name.c_str());
		loc_as_unref(a);
		ases[number] = name;
	}
	CHECK(!loc_writer_set_vendor(w.w, "Vendor"), "set_vendor");
	File f;
	CHECK(!loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET), "could not write the database");
	Db d(c, f);
	CHECK(loc_database_count_as(d.db) == ases.size(), "%zu ASes were added, but %zu are counted", ases.size(), loc_database_count_as(d.db));
	CHECK(str(loc_database_get_vendor(d.db)) == "Vendor", "the vendor is '%s'", str(loc_database_get_vendor(d.db)).c_str());
	EnumOpts eo;
	eo.mode = LOC_DB_ENUMERATE_ASES;
	Enumerator e(c, d, eo);
	auto test = [](struct loc_as* x, uint32_t number, const std::string& name, const char* how) {
		CHECK(x, "AS%u is not %s", number, how);
		uint32_t number2 = loc_as_get_number(x);
		std::string name2 = str(loc_as_get_name(x));
		loc_as_unref(x);
		CHECK(number == number2 && name == name2, "AS%u '%s' is %s as AS%u '%s'", number, brief(name).c_str(), how, number2, brief(name2).c_str());
	};
	for (auto& a : ases) {
		struct loc_as* x = nullptr;
		CHECK(!loc_database_enumerator_next_as(e.e, &x), "next_as");
		test(x, a.first, a.second, "enumerated");
		x = nullptr;
		loc_database_get_as(d.db, &x, a.first);
		test(x, a.first, a.second, "found");
		if (!ases.count(a.first + 1)) {
			x = nullptr;
			loc_database_get_as(d.db, &x, a.first + 1);
			if (x) { loc_as_unref(x); pbt::fail("AS%u is found, but was not added", a.first + 1); }
		}
	}
	struct loc_as* x = nullptr;
	CHECK(!loc_database_enumerator_next_as(e.e, &x) && !x, "the enumeration goes on after the last AS");
	s.say("AS%u and %zu more in steps of %u", (unsigned)first, n, (unsigned)step);
	s.label(many ? "more than 65536 ASes" : "large string pool");
	s.nontrivial();
}

static void property(pbt::Src& s) {
	Ctx c;
	Writer w(c);

	std::map<uint32_t, std::string> ases;
	std::map<std::string, Country> countries;
	std::map<uint32_t, struct loc_as*> as_objects;
	std::map<std::string, struct loc_country*> country_objects;
	struct Cleanup {
		std::map<uint32_t, struct loc_as*>& a;
		std::map<std::string, struct loc_country*>& b;
		~Cleanup() { for (auto& x : a) loc_as_unref(x.second); for (auto& x : b) loc_country_unref(x.second); }
	} cleanup{as_objects, country_objects};
	std::string meta[3];

	size_t rounds = 1 + s.chance(20);
	for (size_t round = 0; round < rounds; round++) {
		// Metadata: the last value counts
		for (size_t i = 0, n = s.choose(5); i < n; i++) {
			int k = s.choose(3);
			std::string v = gen_text(s);
			int r = k == 0 ? loc_writer_set_vendor(w.w, v.c_str()) : k == 1 ? loc_writer_set_description(w.w, v.c_str()) : loc_writer_set_license(w.w, v.c_str());
			CHECK(r == 0, "could not set a string of %zu characters: %d", v.size(), r);
			meta[k] = v;
		}
		CHECK(str(loc_writer_get_vendor(w.w)) == meta[0], "the writer's vendor is wrong");
		CHECK(str(loc_writer_get_description(w.w)) == meta[1], "the writer's description is wrong");
		CHECK(str(loc_writer_get_license(w.w)) == meta[2], "the writer's license is wrong");

		size_t nas = s.chance(1) ? 1000 + s.choose(1500) : s.size(60);
		for (size_t i = 0; i < nas; i++) {
			uint32_t number = nas > 500 ? (uint32_t)(i * 7919 % 65521) : gen_asn(s);
			if (ases.count(number))
				continue;
			struct loc_as* a = nullptr;
			int r = loc_writer_add_as(w.w, &a, number);
			CHECK(r == 0 && a, "could not add AS%u", number);
			as_objects[number] = a;
			ases[number] = "";
			if (nas > 500 || !s.chance(15)) {
				std::string name = nas > 500 ? pbt::fmt("Name %zu", i % 300) : gen_text(s);
				loc_as_set_name(a, name.c_str());
				ases[number] = name;
			}
		}

		size_t nc = s.chance(2) ? 650 : s.size(40);
		for (size_t i = 0; i < nc; i++) {
			std::string code = gen_code(s);
			if (nc == 650) {
				size_t k = i * 37 % 650;
				code[0] = 'A' + k / 26; code[1] = 'A' + k % 26;
				if (code[0] >= 'X') code[0]++;
			}
			if (countries.count(code))
				continue;
			struct loc_country* x = nullptr;
			int r = loc_writer_add_country(w.w, &x, code.c_str());
			CHECK(r == 0 && x, "could not add country %s", code.c_str());
			country_objects[code] = x;
			Country m;
			if (!s.chance(25)) {
				m.placed = true;
				m.continent = std::string(1, 'A' + s.choose(26)) + std::string(1, 'A' + s.choose(26));
				CHECK(loc_country_set_continent_code(x, m.continent.c_str()) == 0, "could not set a continent");
			}
			if (!s.chance(25)) {
				m.named = true;
				m.name = nc == 650 ? "Country " + code : gen_text(s);
				CHECK(loc_country_set_name(x, m.name.c_str()) == 0, "could not set a name");
			}
			countries[code] = m;
		}

		// Some networks, so that the sections move
		size_t nn = s.choose(3);
		for (size_t i = 0; i < nn; i++) {
			struct loc_network* n = nullptr;
			if (loc_writer_add_network(w.w, &n, pbt::fmt("10.%u.0.0/16", (unsigned)s.choose(255)).c_str()) == 0)
				loc_network_unref(n);
		}

		File f;
		time_t before = time(NULL);
		int r = loc_writer_write(w.w, f.f, s.coin() ? LOC_DATABASE_VERSION_UNSET : LOC_DATABASE_VERSION_1);
		time_t after = time(NULL);
		CHECK(r == 0, "could not write the database: %d", r);

		Db d(c, f);
		time_t created = loc_database_created_at(d.db);
		CHECK(created >= before && created <= after, "created at %ld, but written between %ld and %ld", (long)created, (long)before, (long)after);
		CHECK(str(loc_database_get_vendor(d.db)) == meta[0], "vendor '%s' reads back as '%s'", brief(meta[0]).c_str(), brief(str(loc_database_get_vendor(d.db))).c_str());
		CHECK(str(loc_database_get_description(d.db)) == meta[1], "description '%s' reads back as '%s'", brief(meta[1]).c_str(), brief(str(loc_database_get_description(d.db))).c_str());
		CHECK(str(loc_database_get_license(d.db)) == meta[2], "license '%s' reads back as '%s'", brief(meta[2]).c_str(), brief(str(loc_database_get_license(d.db))).c_str());

		// The same database, written at another time
		if (s.chance(20)) {
			static const std::vector<uint64_t> times = { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 40 };
			const uint64_t t = s.coin() ? s.of(times) : s.choose(1ull << 40);
			std::string b = f.bytes();
			CHECK(b.size() >= 16, "the file has %zu bytes only", b.size());
			for (int i = 0; i < 8; i++)
				b[8 + i] = (char)(t >> (56 - 8 * i));
			File g;
			g.set(b);
			Db d2(c, g);
			CHECK((uint64_t)loc_database_created_at(d2.db) == t, "created at %llu reads back as %lld", (unsigned long long)t, (long long)loc_database_created_at(d2.db));
		}

		// ASes, one by one
		CHECK(loc_database_count_as(d.db) == ases.size(), "%zu ASes were added, but %zu are counted", ases.size(), loc_database_count_as(d.db));
		for (auto& a : ases) {
			struct loc_as* x = nullptr;
			r = loc_database_get_as(d.db, &x, a.first);
			CHECK(r == 0 && x, "AS%u is not found", a.first);
			uint32_t number = loc_as_get_number(x);
			std::string name = str(loc_as_get_name(x));
			loc_as_unref(x);
			CHECK(number == a.first, "AS%u was fetched, but AS%u was returned", a.first, number);
			CHECK(name == a.second, "AS%u was named '%s', but reads back as '%s'", a.first, brief(a.second).c_str(), brief(name).c_str());
		}
		for (size_t i = 0; i < 10; i++) {
			uint32_t number = ases.empty() || s.coin() ? gen_asn(s) : std::next(ases.begin(), s.choose(ases.size()))->first + (s.coin() ? 1 : -1);
			if (ases.count(number))
				continue;
			struct loc_as* x = nullptr;
			r = loc_database_get_as(d.db, &x, number);
			if (r == 0 && x) {
				uint32_t got = loc_as_get_number(x);
				loc_as_unref(x);
				pbt::fail("AS%u was not added, but AS%u is found", number, got);
			}
		}

		// Countries, one by one
		for (auto& k : countries) {
			struct loc_country* x = nullptr;
			r = loc_database_get_country(d.db, &x, k.first.c_str());
			CHECK(r == 0 && x, "country %s is not found", k.first.c_str());
			std::string code = str(loc_country_get_code(x)), name = str(loc_country_get_name(x)), continent = str(loc_country_get_continent_code(x));
			loc_country_unref(x);
			CHECK(code == k.first, "country %s was fetched, but %s was returned", k.first.c_str(), code.c_str());
			CHECK(name == k.second.name, "country %s was named '%s', but reads back as '%s'", code.c_str(), brief(k.second.name).c_str(), brief(name).c_str());
			CHECK(continent == k.second.continent, "country %s is on '%s', but reads back as '%s'", code.c_str(), k.second.continent.c_str(), continent.c_str());
		}
		for (size_t i = 0; i < 10; i++) {
			std::string code = gen_code(s);
			if (countries.count(code))
				continue;
			struct loc_country* x = nullptr;
			r = loc_database_get_country(d.db, &x, code.c_str());
			if (r == 0 && x) {
				std::string got = str(loc_country_get_code(x));
				loc_country_unref(x);
				pbt::fail("country %s was not added, but %s is found", code.c_str(), got.c_str());
			}
		}

		// All of them, in order
		{
			EnumOpts eo;
			eo.mode = LOC_DB_ENUMERATE_COUNTRIES;
			Enumerator e(c, d, eo);
			for (auto& k : countries) {
				struct loc_country* x = nullptr;
				r = loc_database_enumerator_next_country(e.e, &x);
				CHECK(r == 0 && x, "country %s is not enumerated", k.first.c_str());
				std::string code = str(loc_country_get_code(x)), name = str(loc_country_get_name(x)), continent = str(loc_country_get_continent_code(x));
				loc_country_unref(x);
				CHECK(code == k.first && name == k.second.name && continent == k.second.continent,
					"country %s/%s/%s is enumerated as %s/%s/%s", k.first.c_str(), k.second.continent.c_str(), brief(k.second.name).c_str(), code.c_str(), continent.c_str(), brief(name).c_str());
			}
			struct loc_country* x = nullptr;
			r = loc_database_enumerator_next_country(e.e, &x);
			CHECK(r == 0 && !x, "the enumeration of countries goes on after the last");
		}

		for (size_t i = 0; i < 3; i++) {
			bool search = i > 0;
			std::string text;
			EnumOpts eo;
			eo.mode = LOC_DB_ENUMERATE_ASES;
			Enumerator e(c, d, eo);
			if (search) {
				if (!ases.empty() && s.chance(70)) {
					const std::string& name = std::next(ases.begin(), s.choose(ases.size()))->second;
					if (name.size()) {
						size_t from = s.choose(name.size());
						text = name.substr(from, 1 + s.choose(std::min<size_t>(name.size() - from, s.chance(20) ? 1000 : 20)));
						// Or something that it almost is
						if (s.chance(20)) text += "q";
						// In another case
						if (s.coin())
							for (char& ch : text)
								if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))
									if (s.coin()) ch ^= 0x20;
					}
				} else {
					text = gen_text(s).substr(0, 3);
				}
				// Set something else before now and then
				if (s.chance(20))
					loc_database_enumerator_set_string(e.e, "zzz");
				loc_database_enumerator_set_string(e.e, text.c_str());
			}
			unsigned matches = 0;
			for (auto& a : ases) {
				if (search && lower(a.second).find(lower(text)) == std::string::npos)
					continue;
				matches++;
				struct loc_as* x = nullptr;
				r = loc_database_enumerator_next_as(e.e, &x);
				CHECK(r == 0 && x, "AS%u '%s' is not enumerated (search: '%s')", a.first, brief(a.second).c_str(), brief(text).c_str());
				uint32_t number = loc_as_get_number(x);
				std::string name = str(loc_as_get_name(x));
				loc_as_unref(x);
				CHECK(number == a.first && name == a.second, "AS%u '%s' is expected, but AS%u '%s' is enumerated (search: '%s')",
					a.first, brief(a.second).c_str(), number, brief(name).c_str(), brief(text).c_str());
			}
			struct loc_as* x = nullptr;
			r = loc_database_enumerator_next_as(e.e, &x);
			if (x) {
				std::string name = str(loc_as_get_name(x));
				uint32_t number = loc_as_get_number(x);
				loc_as_unref(x);
				pbt::fail("AS%u '%s' is enumerated, but not expected (search: '%s')", number, brief(name).c_str(), brief(text).c_str());
			}
			CHECK(r == 0, "the enumeration of ASes fails with %d", r);
			if (search && matches && matches < ases.size())
				s.label("selective search");
		}
	}

	s.say("%zu ASes, %zu countries, vendor '%s', description '%s'", ases.size(), countries.size(), brief(meta[0]).c_str(), brief(meta[1]).c_str());
	unsigned k = 0;
	for (auto& a : ases) { if (k++ == 6) break; s.say(" AS%u='%s'", a.first, brief(a.second).c_str()); }
	k = 0;
	for (auto& x : countries) { if (k++ == 6) break; s.say(" %s/%s='%s'", x.first.c_str(), x.second.continent.c_str(), brief(x.second.name).c_str()); }
	if (ases.size() >= 2 && countries.size() >= 2)
		s.nontrivial();
	if (ases.size() > 1000) s.label("more than 1000 ASes");
	if (countries.size() == 650) s.label("all country codes");
	for (auto& m : meta) if (m.size() > 500000) s.label("very long string");
	if (rounds > 1) s.label("written twice");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C06",
		"ASes (any 32 bit number), countries and metadata with arbitrary strings (empty to 1.6 MB, any bytes but NUL) are added in any order, written once or twice with additions in between, "
		"and everything is fetched, enumerated and searched; oracle: ordered maps; non-trivial: at least two ASes and two countries; in addition, some databases of more than 65536 ASes or more than 1 MB of names", property, nullptr, large, 8 };
	return pbt::pbt_main(argc, argv, p);
}
