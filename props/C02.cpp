// Writing a database preserves every address's attribution
#include "large.hpp"

static unsigned check_file(Ctx& c, File& f, const std::vector<Entry>& model, bool distinct) {
	Db d(c, f);
	EnumOpts o;
	Enumerator e(c, d, o);
	std::vector<Entry> stored = e.all();

	// Nothing may be invented out of thin air
	CHECK(stored.size() <= model.size(), "%zu networks were added, but %zu are stored", model.size(), stored.size());
	if (distinct)
		CHECK(stored.size() == model.size(), "%zu networks with different attributes were added, but %zu are stored", model.size(), stored.size());

	// Both are constant between these borders
	std::vector<Net> nets = nets_of(model);
	for (const Entry& x : stored)
		nets.push_back(x.net);

	unsigned attributed = 0;
	for (const Interval& i : intervals(nets)) {
		const Entry* want = lpm(model, i.first);
		for (u128 a : { i.first, i.last }) {
			Entry got;
			bool found = d.lookup(a, &got);
			if (!want) {
				CHECK(!found, "%s is in no added network, but %s is found", addr_str(a).c_str(), got.str().c_str());
			} else {
				CHECK(found, "%s should be in %s, but nothing is found", addr_str(a).c_str(), want->str().c_str());
				CHECK(got.info == want->info, "%s should be attributed by %s, but %s is found", addr_str(a).c_str(), want->str().c_str(), got.str().c_str());
				attributed++;
			}
		}
	}
	return model.size() - stored.size();
}

static void property(pbt::Src& s) {
	NetOpts o;
	o.enclosing = s.chance(10);
	const bool distinct = s.chance(15);
	std::vector<Entry> all = gen_entries(s, 40, o, distinct);
	say_entries(s, all);

	Ctx c;
	Writer w(c);
	std::vector<Entry> model;

	size_t rounds = 1 + s.pick({6, 2, 1, 1});
	size_t next = 0;
	unsigned joined = 0, refused = 0;

	for (size_t r = 0; r < rounds; r++) {
		size_t upto = r + 1 == rounds ? all.size() : next + s.choose(all.size() - next + 1);
		for (; next < upto; next++) {
			w.add(all[next]);
			model.push_back(all[next]);

			// Adding a network again is refused, however it is written
			if (s.chance(8)) {
				const Net& n = s.of(model).net;
				u128 a = n.addr;
				if (s.coin())
					a |= gen_bits(s) & ~mask(n.plen);
				if (is_v4(a) != n.v4())
					a = n.addr;
				std::string str = addr_str(a) + "/" + std::to_string(n.prefix());
				struct loc_network* x = nullptr;
				int res = loc_writer_add_network(w.w, &x, str.c_str());
				CHECK(res != 0, "%s could be added twice (as %s)", n.str().c_str(), str.c_str());
				refused++;
			}
		}

		File f;
		int res = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
		CHECK(res == 0, "could not write the database: %d", res);
		joined += check_file(c, f, model, distinct);
		s.say("write#%zu of %zu networks ", r, model.size());
	}

	if (joined) { s.label("networks joined or dropped"); s.nontrivial(); }
	if (refused) s.label("double add");
	if (rounds > 1) s.label("several writes");
	if (distinct && model.size() > 3) s.nontrivial();
}

static void large(pbt::Src& s) {
	LargeDb l = gen_large(s);
	Ctx c;
	Writer w(c);
	for (const Entry& e : l.entries)
		w.add(e);
	for (int i = 0, n = 1 + s.choose(2); i < n; i++) {
		File f;
		int res = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
		CHECK(res == 0, "could not write the database: %d", res);
		Db d(c, f);
		for (const Entry& e : l.entries)
			compare_around(d, l, e.net);
		EnumOpts o;
		Enumerator e(c, d, o);
		size_t stored = e.all().size();
		CHECK(l.distinct ? stored == l.entries.size() : stored <= l.entries.size(), "%zu networks were added, but %zu are stored", l.entries.size(), stored);
	}
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C02",
		"up to 40 related networks (plus chains, combs and dense subtrees) with few attributions are added in any order, with repeated additions, and written 1-4 times; "
		"every elementary interval between the borders of added and stored networks is looked up at both ends and compared with brute-force longest-prefix match over what was added; "
		"non-trivial: the writer joined or dropped at least one network, or more than three networks had attributions of their own; in addition, some databases of 66000 to 80000 networks", property, nullptr, large, 3 };
	return pbt::pbt_main(argc, argv, p);
}
