// Country codes and network flags are validated and matched consistently
#include "loc.hpp"

static std::string gen_code(pbt::Src& s) {
	switch (s.pick({5, 3, 2, 2, 1})) {
		case 0: {
			std::string r = "AA";
			for (char& c : r) c = s.chance(15) ? "AZXa@[`{"[s.choose(8)] : 'A' + s.choose(26);
			return r;
		}
		case 1: {
			static const std::vector<std::string> pool = { "A1", "A2", "A3", "XD", "A4", "A0", "XX", "XA", "DE", "D", "DEU", "de", "dE", "De", "", "A1X", "XDX", "DE ", " DE", "X", "Z1", "1Z", "\xc3\x84" };
			return s.of(pool);
		}
		case 2: {
			std::string r;
			for (size_t i = 0, n = s.choose(5); i < n; i++) r += (char)(1 + s.choose(255));
			return r;
		}
		case 3: {
			std::string r = "AA";
			for (char& c : r) c = (char)(1 + s.choose(127));
			return r;
		}
		default: return std::string(s.choose(300), 'A' + s.choose(26));
	}
}

static bool valid(const std::string& c) {
	return c.size() == 2 && c[0] >= 'A' && c[0] <= 'Z' && c[1] >= 'A' && c[1] <= 'Z' && c[0] != 'X';
}

static uint32_t special(const std::string& c) {
	return c == "A1" ? 1 : c == "A2" ? 2 : c == "A3" ? 4 : c == "XD" ? 8 : 0;
}

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	struct Item { struct loc_network* n = nullptr; Net m; Info i; };
	struct Cty { struct loc_country* c = nullptr; std::string code, continent, name; bool placed = false, named = false; };
	struct World {
		std::vector<Item> nets; std::vector<Cty> countries;
		~World() { for (auto& x : nets) if (x.n) loc_network_unref(x.n); for (auto& x : countries) loc_country_unref(x.c); }
	} w;
	Writer wr(c);
	std::set<std::string> added;
	std::vector<Net> seen;

	w.nets.resize(1 + s.choose(4));
	for (auto& x : w.nets) {
		x.m = gen_net(s, seen, o);
		in6_addr a = to_in6(x.m.addr);
		CHECK(!loc_network_new(c.ctx, &x.n, &a, x.m.prefix()), "could not create a network");
	}

	size_t accepted = 0, refused = 0;
	for (size_t k = 0, ops = 1 + s.choose(25); k < ops; k++) {
		Item& x = s.of(w.nets) .n ? w.nets[s.choose(w.nets.size())] : w.nets[0];
		switch (s.pick({5, 2, 3, 6, 4, 2, 2})) {
			case 0: {
				std::string code = gen_code(s);
				bool none = code.empty() && s.coin();
				int r = loc_network_set_country_code(x.n, none ? NULL : code.c_str());
				bool ok = code.empty() || valid(code);
				CHECK((r == 0) == ok, "setting country code \"%s\" returned %d", code.c_str(), r);
				if (ok) x.i.cc = code;
				ok ? accepted++ : refused++;
				s.say("set %s; ", code.c_str());
				break;
			}
			case 1: {
				uint32_t asn = (uint32_t)s.choose(1ull << 32);
				loc_network_set_asn(x.n, asn);
				x.i.asn = asn;
				break;
			}
			case 2: {
				uint32_t flag = 1u << s.choose(4);
				if (s.chance(20)) flag = s.choose(16);
				loc_network_set_flag(x.n, flag);
				x.i.flags |= flag;
				s.say("flag %x; ", flag);
				break;
			}
			case 3: {
				std::string code = s.coin() ? x.i.cc : gen_code(s);
				if (s.chance(40)) { static const std::vector<std::string> sp = { "A1", "A2", "A3", "XD" }; code = s.of(sp); }
				int r = loc_network_matches_country_code(x.n, code.c_str());
				bool want = special(code) ? (x.i.flags & special(code)) : valid(code) && code == x.i.cc;
				CHECK((r > 0) == want, "a network with %s matches \"%s\": %d", x.i.str().c_str(), code.c_str(), r);
				int flag = loc_country_special_code_to_flag(code.c_str());
				CHECK((flag > 0 ? (uint32_t)flag : 0) == special(code), "the flag of \"%s\" is %d", code.c_str(), flag);
				s.say("match %s; ", code.c_str());
				break;
			}
			case 4: {
				std::string code = gen_code(s);
				CHECK(!!loc_country_code_is_valid(code.c_str()) == valid(code), "\"%s\" is %svalid", code.c_str(), valid(code) ? "not " : "");
				struct loc_country* y = nullptr;
				int r = loc_country_new(c.ctx, &y, code.c_str());
				CHECK((r == 0) == valid(code) && !!y == valid(code), "creating country \"%s\" returned %d", code.c_str(), r);
				if (y) { Cty n; n.c = y; n.code = code; w.countries.push_back(n); accepted++; } else refused++;

				struct loc_country* z = nullptr;
				r = loc_writer_add_country(wr.w, &z, code.c_str());
				bool fresh = valid(code) && !added.count(code);
				if (fresh) CHECK(r == 0 && z, "country %s could not be added: %d", code.c_str(), r);
				if (!valid(code)) CHECK(r != 0, "country \"%s\" could be added", code.c_str());
				if (r == 0 && z) { CHECK(code == loc_country_get_code(z), "country %s was added as %s", code.c_str(), loc_country_get_code(z)); loc_country_unref(z); added.insert(code); }
				break;
			}
			case 5:
				if (!w.countries.empty()) {
					Cty& y = w.countries[s.choose(w.countries.size())];
					std::string cont = s.coin() ? std::string(s.coin() ? "EU" : "AS") : gen_code(s);
					int r = loc_country_set_continent_code(y.c, cont.c_str());
					if (cont.size() != 2) CHECK(r != 0, "the continent \"%s\" was accepted", cont.c_str());
					if (cont == "EU" || cont == "AS") CHECK(r == 0, "the continent %s was refused", cont.c_str());
					if (r == 0) { y.continent = cont; y.placed = true; }
				}
				break;
			default:
				if (!w.countries.empty()) {
					Cty& y = w.countries[s.choose(w.countries.size())];
					y.named = s.chance(80);
					y.name = gen_code(s);
					loc_country_set_name(y.c, y.named ? y.name.c_str() : NULL);
				}
				break;
		}

		// Everything is as it should be, everywhere
		for (auto& y : w.nets) {
			Info got = info_of(y.n);
			CHECK(got == y.i, "a network has %s instead of %s", got.str().c_str(), y.i.str().c_str());
			for (uint32_t f = 1; f < 16; f++)
				CHECK(!!loc_network_has_flag(y.n, f) == !!(y.i.flags & f), "a network with %s has flags %x: %d", y.i.str().c_str(), f, loc_network_has_flag(y.n, f));
		}
		for (auto& y : w.countries) {
			CHECK(y.code == loc_country_get_code(y.c), "%s has become %s", y.code.c_str(), loc_country_get_code(y.c));
			const char* cont = loc_country_get_continent_code(y.c);
			CHECK(!!cont == y.placed && (!cont || y.continent == cont), "%s is on \"%s\" instead of \"%s\"", y.code.c_str(), cont ? cont : "nothing", y.continent.c_str());
			const char* name = loc_country_get_name(y.c);
			CHECK(!!name == y.named && (!name || y.name == name), "%s is called \"%s\" instead of \"%s\"", y.code.c_str(), name ? name : "nothing", y.name.c_str());
		}
	}

	// Enumerating by code agrees with matching, and so does fetching
	if (s.chance(20)) {
		for (auto& x : w.nets) {
			struct loc_network* n = nullptr;
			if (loc_writer_add_network(wr.w, &n, x.m.str().c_str()) == 0 && n) { apply_info(n, x.i); loc_network_unref(n); }
		}
		File f;
		CHECK(!loc_writer_write(wr.w, f.f, LOC_DATABASE_VERSION_UNSET), "could not write");
		Db d(c, f);
		for (int i = 0; i < 4; i++) {
			std::string code = gen_code(s);
			if (i == 0 && !added.empty()) code = *added.begin();
			struct loc_country* y = nullptr;
			int r = loc_database_get_country(d.db, &y, code.c_str());
			bool got = r == 0 && y;
			std::string found = got ? loc_country_get_code(y) : "";
			if (got) loc_country_unref(y);
			CHECK(got == !!added.count(code), "country \"%s\" was %sfound", code.c_str(), got ? "" : "not ");
			CHECK(!got || found == code, "country %s was found as %s", code.c_str(), found.c_str());
		}
		s.label("written");
	}
	if (accepted && refused) s.nontrivial();
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C24",
		"up to 25 operations set, match and validate generated codes (letters, near misses, special codes, wrong lengths, any bytes) on several networks, countries and a writer; every field of every object is compared with a model after each of them, and codes are fetched from the written database; "
		"non-trivial: codes were both accepted and refused", property };
	return pbt::pbt_main(argc, argv, p);
}
