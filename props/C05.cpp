// Bogon listing is the exact complement of attributed space
#include "large.hpp"

static void check(Ctx& c, Db& d, const std::vector<Entry>& db, int family, bool flatten, unsigned* bogons) {
	EnumOpts eo;
	eo.mode = LOC_DB_ENUMERATE_BOGONS;
	eo.family = family;
	eo.flatten = flatten;
	Enumerator e(c, d, eo);
	std::vector<Entry> got = e.all();

	for (int fam : { AF_INET, AF_INET6 }) {
		std::vector<Net> list, with;
		for (const Entry& x : got)
			if (x.net.family() == fam)
				list.push_back(x.net);
		for (const Entry& x : db)
			if (x.net.family() == fam && !x.info.cc.empty())
				with.push_back(x.net);

		if (family && fam != family) {
			CHECK(list.empty(), "%s is listed in spite of the filter", list[0].str().c_str());
			continue;
		}

		// Nothing is said about families without any country
		if (with.empty())
			continue;

		for (size_t i = 1; i < list.size(); i++)
			CHECK(list[i - 1].last() < list[i].first(), "%s and %s are not in order or overlap", list[i - 1].str().c_str(), list[i].str().c_str());

		std::vector<Net> nets = with;
		nets.insert(nets.end(), list.begin(), list.end());
		nets.push_back(Net(V4BASE, 96));
		u128 lo = fam == AF_INET ? V4BASE : 0, hi = fam == AF_INET ? V4BASE | 0xffffffff : ALLONES;
		size_t pos = 0;
		for (const Interval& i : intervals(nets)) {
			if (i.first < lo || i.first > hi || (fam == AF_INET6 && is_v4(i.first)))
				continue;
			bool attributed = false;
			for (const Net& n : with)
				if (n.has(i.first))
					attributed = true;
			while (pos < list.size() && list[pos].last() < i.first)
				pos++;
			bool listed = pos < list.size() && list[pos].has(i.first);
			CHECK(listed || attributed, "%s is in no network with a country, but not listed as a bogon", addr_str(i.first).c_str());
			CHECK(!listed || !attributed, "%s is in a network with a country, but listed in %s", addr_str(i.first).c_str(), list[pos].str().c_str());
		}
		*bogons += list.size();
	}
}

static void property(pbt::Src& s) {
	NetOpts o;
	switch (s.pick({4, 2, 2, 1})) {
		case 1: o.v6 = false; break;
		case 2: o.v4 = false; break;
		case 3: o.v4 = false; o.enclosing = true; break;
	}
	std::vector<Entry> db = gen_entries(s, 30, o, s.chance(20));

	// Networks at the very ends of the address space
	auto add = [&](Net n) {
		for (const Entry& e : db)
			if (e.net == n)
				return;
		db.push_back(Entry{n, gen_info(s)});
	};
	if (s.chance(25) && o.v4)
		add(Net(V4BASE, 96 + s.choose(33)));
	if (s.chance(25) && o.v4)
		add(Net(V4BASE | 0xffffffff, 96 + s.choose(33)));
	if (s.chance(25) && o.v6)
		add(Net(ALLONES, 1 + s.choose(128)));
	if (s.chance(25) && o.v6 && o.enclosing)
		add(Net(0, s.choose(97)));
	// Networks next to the IPv4-mapped block, which is not IPv6
	if (s.chance(15) && o.v6)
		add(Net(V4BASE - 1, 96 + s.choose(33)));
	if (s.chance(15) && o.v6)
		add(Net((V4BASE | 0xffffffff) + 1, 80 + s.choose(49)));
	say_entries(s, db);

	Ctx c;
	File f;
	build_db(c, db, f);
	Db d(c, f);

	unsigned bogons = 0;
	bool flatten = s.chance(20);
	switch (s.pick({3, 1, 1})) {
		case 0: check(c, d, db, 0, flatten, &bogons); break;
		case 1: check(c, d, db, AF_INET, flatten, &bogons); break;
		default: check(c, d, db, AF_INET6, flatten, &bogons); break;
	}

	s.say("-> %u bogons", bogons);
	unsigned with = 0;
	for (const Entry& e : db)
		with += !e.info.cc.empty();
	if (with >= 2 && bogons >= 2)
		s.nontrivial();
	if (with < db.size()) s.label("networks without a country");
}

static void large(pbt::Src& s) {
	LargeDb l = gen_large(s, 1000, 1500);
	Ctx c;
	File f;
	build_db(c, l.entries, f);
	Db d(c, f);
	unsigned bogons = 0;
	check(c, d, l.entries, 0, false, &bogons);
	if (bogons > 1024) s.label("more than 1024 bogons");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C05",
		"a generated database (up to 30 related networks, also at both ends of the address space and next to the IPv4-mapped block, some without a country); the listed bogons are compared on every elementary interval with the "
		"complement of the networks that have a country; non-trivial: at least two networks with a country and at least two bogons; in addition, some databases of 1000 to 2500 networks", property, nullptr, large, 8 };
	return pbt::pbt_main(argc, argv, p);
}
