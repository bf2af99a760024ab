// Address lookup is longest-prefix match
#include "large.hpp"

static void property(pbt::Src& s) {
	NetOpts o;
	o.enclosing = s.chance(15);
	const bool distinct = !s.chance(40);
	std::vector<Entry> db = gen_entries(s, 40, o, distinct);
	say_entries(s, db);

	Ctx c;
	File f;
	build_db(c, db, f);
	Db d(c, f);

	// An enumeration in progress must not matter
	EnumOpts eo;
	Enumerator e(c, d, eo);

	unsigned hits = 0, misses = 0, deep = 0;
	size_t n = 4 + s.choose(40);
	for (size_t i = 0; i < n; i++) {
		u128 a = gen_probe(s, db, o);

		if (s.chance(5)) {
			Entry x;
			e.next(&x);
		}

		const Entry* want = lpm(db, a);
		Entry got;
		bool found;

		// Through the string interface or with a binary address
		if (s.chance(30)) {
			struct loc_network* nw = nullptr;
			int r = loc_database_lookup_from_string(d.db, addr_str(a).c_str(), &nw);
			CHECK(r == 0, "lookup of %s failed with %d", addr_str(a).c_str(), r);
			found = nw != nullptr;
			if (nw) {
				got = entry_of(nw);
				loc_network_unref(nw);
			}
		} else {
			found = d.lookup(a, &got);
		}

		if (!want) {
			misses++;
			CHECK(!found, "lookup of %s returns %s, but no network contains it", addr_str(a).c_str(), got.str().c_str());
			continue;
		}

		hits++;
		unsigned candidates = 0;
		for (const Entry& x : db)
			candidates += x.net.has(a);
		if (candidates > 1)
			deep++;

		CHECK(found, "lookup of %s finds nothing, expected %s", addr_str(a).c_str(), want->str().c_str());
		CHECK(got.net.has(a), "lookup of %s returns %s", addr_str(a).c_str(), got.str().c_str());
		CHECK(got.info == want->info, "lookup of %s returns %s, expected %s", addr_str(a).c_str(), got.str().c_str(), want->str().c_str());
		if (distinct)
			CHECK(got.net == want->net, "lookup of %s returns %s, expected %s", addr_str(a).c_str(), got.str().c_str(), want->str().c_str());
	}

	s.say("%u hits (%u with several candidates), %u misses", hits, deep, misses);
	if (deep && misses)
		s.nontrivial();
	if (deep) s.label("nested hit");
	if (misses) s.label("miss");
	if (distinct) s.label("exact network compared");
	if (o.enclosing) s.label("may enclose v4");
}

static void large(pbt::Src& s) {
	LargeDb l = gen_large(s);
	Ctx c;
	File f;
	build_db(c, l.entries, f);
	Db d(c, f);
	for (size_t i = 0; i < l.entries.size(); i += 1 + s.choose(40))
		compare_around(d, l, l.entries[i].net);
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C01",
		"a generated database (up to 40 related networks plus chains and combs) and 4-43 probes at network borders, inside, and just off their paths; "
		"non-trivial: at least one probe with two or more candidate networks and at least one miss; in addition, some databases of 66000 to 80000 networks", property, nullptr, large, 3 };
	return pbt::pbt_main(argc, argv, p);
}
