// Flattened enumeration is a disjoint exact partition
#include "large.hpp"

static void property(pbt::Src& s) {
	NetOpts o;
	o.enclosing = s.chance(25);
	std::vector<Entry> db = gen_entries(s, 30, o, s.chance(30));
	say_entries(s, db);

	Ctx c;
	File f;
	build_db(c, db, f);
	Db d(c, f);

	EnumOpts eo;
	if (s.chance(60))
		eo = gen_filter(s, db);
	// Which family an IPv4 address below an IPv6 network belongs to is a matter of taste
	if (o.enclosing)
		eo.family = 0;
	eo.flatten = true;
	s.say("[%s] ", eo.str().c_str());

	Enumerator e(c, d, eo);
	std::vector<Entry> got = e.all();

	for (size_t i = 1; i < got.size(); i++)
		CHECK(got[i - 1].net.last() < got[i].net.first(), "%s and %s are not in order or overlap", got[i - 1].str().c_str(), got[i].str().c_str());

	std::vector<Net> nets = nets_of(db);
	for (const Entry& x : got)
		nets.push_back(x.net);

	size_t pos = 0;
	unsigned in = 0;
	for (const Interval& i : intervals(nets)) {
		const Entry* owner = lpm(db, i.first);
		bool want = owner && eo.matches(*owner);

		while (pos < got.size() && got[pos].net.last() < i.first)
			pos++;
		bool covered = pos < got.size() && got[pos].net.has(i.first);

		if (!want) {
			CHECK(!covered, "%s is in %s, but belongs to %s", addr_str(i.first).c_str(), got[pos].str().c_str(), owner ? owner->str().c_str() : "nobody");
		} else {
			in++;
			CHECK(covered, "%s (%s) is missing", addr_str(i.first).c_str(), owner->str().c_str());
			CHECK(got[pos].info == owner->info, "%s is listed as %s, but belongs to %s", addr_str(i.first).c_str(), got[pos].str().c_str(), owner->str().c_str());
		}
	}

	s.say("-> %zu parts", got.size());
	bool nested = false;
	for (const Entry& a : db)
		for (const Entry& b : db)
			if (a.net != b.net && a.net.covers(b.net) && a.info != b.info && eo.matches(a))
				nested = true;
	if (nested) { s.nontrivial(); s.label("a listed network was broken up"); }
	if (eo.any()) s.label("filtered");
	if (o.enclosing) s.label("IPv6 networks around IPv4");
}

static void large(pbt::Src& s) {
	// Some networks are to be broken up into very many parts
	LargeDb l = gen_large(s, 1200, 4000);
	Ctx c;
	File f;
	build_db(c, l.entries, f);
	Db d(c, f);
	EnumOpts eo;
	if (s.coin())
		eo = gen_filter(s, l.entries);
	eo.flatten = true;
	Enumerator e(c, d, eo);
	std::vector<Entry> got = e.all();
	std::set<u128> at;
	for (size_t i = 0; i < got.size(); i++) {
		if (i)
			CHECK(got[i - 1].net.last() < got[i].net.first(), "%s and %s are not in order or overlap", got[i - 1].str().c_str(), got[i].str().c_str());
		at.insert(got[i].net.first());
		at.insert(got[i].net.last() + 1);
	}
	for (const Entry& x : l.entries) {
		at.insert(x.net.first());
		at.insert(x.net.last() + 1);
	}
	size_t pos = 0;
	for (u128 a : at) {
		const Entry* owner = l.find(a);
		const bool want = owner && eo.matches(*owner);
		while (pos < got.size() && got[pos].net.last() < a)
			pos++;
		const bool covered = pos < got.size() && got[pos].net.has(a);
		CHECK(covered == want, "%s (%s) is %s", addr_str(a).c_str(), owner ? owner->str().c_str() : "nobody", covered ? "listed" : "missing");
		if (want)
			CHECK(got[pos].info == owner->info, "%s is listed as %s, but belongs to %s", addr_str(a).c_str(), got[pos].str().c_str(), owner->str().c_str());
	}
	if (got.size() > 1024) s.label("more than 1024 parts");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C04",
		"a generated database (up to 30 related networks plus chains, combs and dense subtrees) is enumerated flattened, with or without filters, and compared on every elementary interval "
		"with brute-force longest-prefix match; non-trivial: a network selected by the filter contains another one with other attributes; in addition, some databases of 1200 to 6000 networks", property, nullptr, large, 8 };
	return pbt::pbt_main(argc, argv, p);
}
