// Network enumeration is complete, ordered, duplicate-free and filtered
#include "large.hpp"

static bool by_net(const Entry& a, const Entry& b) { return a.net < b.net; }

static void compare(const std::vector<Entry>& got, const std::vector<Entry>& want, const EnumOpts& o) {
	for (size_t i = 0; i < got.size() || i < want.size(); i++) {
		CHECK(i < got.size(), "[%s] %s is missing", o.str().c_str(), want[i].str().c_str());
		CHECK(i < want.size(), "[%s] %s is not expected", o.str().c_str(), got[i].str().c_str());
		CHECK(got[i] == want[i], "[%s] at position %zu: got %s, expected %s", o.str().c_str(), i, got[i].str().c_str(), want[i].str().c_str());
	}
}

static void property(pbt::Src& s) {
	NetOpts o;
	o.enclosing = s.chance(15);
	const bool distinct = !s.chance(40);
	std::vector<Entry> db = gen_entries(s, 40, o, distinct);
	say_entries(s, db);

	Ctx c;
	File f;
	build_db(c, db, f);
	Db d(c, f);

	// Everything
	std::vector<Entry> all;
	{
		EnumOpts eo;
		Enumerator e(c, d, eo);
		all = e.all();
	}

	std::vector<Entry> sorted = db;
	std::sort(sorted.begin(), sorted.end(), by_net);
	if (distinct) {
		compare(all, sorted, EnumOpts());
	} else {
		for (size_t i = 1; i < all.size(); i++)
			CHECK(all[i - 1].net < all[i].net, "%s comes before %s", all[i - 1].str().c_str(), all[i].str().c_str());
	}

	// Two filtered enumerations, side by side, with lookups in between
	EnumOpts eo[2] = { gen_filter(s, db), gen_filter(s, db) };
	std::vector<Entry> got[2];
	bool done[2] = { false, false };
	{
		Enumerator e0(c, d, eo[0]), e1(c, d, eo[1]);
		Enumerator* e[2] = { &e0, &e1 };
		while (!done[0] || !done[1]) {
			int i = s.coin();
			if (done[i])
				i = !i;
			Entry x;
			if (e[i]->next(&x))
				got[i].push_back(x);
			else
				done[i] = true;
			CHECK(got[i].size() <= all.size(), "[%s] the enumeration does not end", eo[i].str().c_str());
			if (s.chance(10))
				d.lookup(gen_probe(s, db, o), &x);
		}
		for (int i = 0; i < 2; i++) {
			Entry x;
			CHECK(!e[i]->next(&x), "[%s] goes on with %s after the end", eo[i].str().c_str(), x.str().c_str());
		}
	}

	bool selective = false;
	for (int i = 0; i < 2; i++) {
		std::vector<Entry> want;
		for (const Entry& x : all)
			if (eo[i].matches(x))
				want.push_back(x);
		compare(got[i], want, eo[i]);
		if (!want.empty() && want.size() < all.size())
			selective = true;
		s.say("[%s] -> %zu of %zu ", eo[i].str().c_str(), want.size(), all.size());
	}

	// What is enumerated is what is looked up
	unsigned looked = 0;
	std::vector<Interval> iv = intervals(nets_of(all));
	for (const Interval& i : iv) {
		const Entry* want = lpm(all, i.first);
		Entry x;
		bool found = d.lookup(i.last, &x);
		if (!want)
			CHECK(!found, "%s is found by looking up %s, but does not contain it", x.str().c_str(), addr_str(i.last).c_str());
		else {
			CHECK(found, "%s is enumerated, but looking up %s finds nothing", want->str().c_str(), addr_str(i.last).c_str());
			CHECK(x == *want, "looking up %s finds %s, but %s was enumerated", addr_str(i.last).c_str(), x.str().c_str(), want->str().c_str());
			looked++;
		}
	}

	if (selective) { s.nontrivial(); s.label("selective filter"); }
	if (distinct) s.label("exact list compared");
	if (eo[0].use_countries || eo[1].use_countries) s.label("country filter");
	if (eo[0].use_asns || eo[1].use_asns) s.label("AS filter");
	if (eo[0].flags || eo[1].flags) s.label("flag filter");
	if (eo[0].family || eo[1].family) s.label("family filter");
}

static void large(pbt::Src& s) {
	LargeDb l = gen_large(s);
	Ctx c;
	File f;
	build_db(c, l.entries, f);
	Db d(c, f);
	std::vector<Entry> all;
	{
		EnumOpts eo;
		Enumerator e(c, d, eo);
		all = e.all();
	}
	if (l.distinct) {
		std::vector<Entry> sorted = l.entries;
		std::sort(sorted.begin(), sorted.end(), by_net);
		compare(all, sorted, EnumOpts());
	}
	for (size_t i = 1; i < all.size(); i++)
		CHECK(all[i - 1].net < all[i].net, "%s comes before %s", all[i - 1].str().c_str(), all[i].str().c_str());
	for (const Entry& x : all)
		CHECK(l.find(x.net.first()) && l.find(x.net.last()), "%s is enumerated, but nothing like it was added", x.str().c_str());
	for (int i = 0; i < 2; i++) {
		EnumOpts eo = gen_filter(s, l.entries);
		Enumerator e(c, d, eo);
		std::vector<Entry> want;
		for (const Entry& x : all)
			if (eo.matches(x))
				want.push_back(x);
		compare(e.all(), want, eo);
	}
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C03",
		"a generated database (up to 40 related networks plus chains, combs and dense subtrees) is enumerated unfiltered and by two interleaved enumerators with random filters "
		"(family, countries, AS numbers, flags); expected: the sorted added networks, filtered by the model; every stored network is then found again by lookups in each elementary interval; "
		"non-trivial: a filter selected some but not all networks; in addition, some databases of 66000 to 80000 networks", property, nullptr, large, 3 };
	return pbt::pbt_main(argc, argv, p);
}
