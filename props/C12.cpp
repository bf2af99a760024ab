// Network, AS and country lists behave as (sorted) sets
#include "loc.hpp"

struct NetList { struct loc_network_list* l = nullptr; std::map<Net, uint32_t> m; };
struct AsList { struct loc_as_list* l = nullptr; std::vector<uint32_t> m; };
struct CountryList { struct loc_country_list* l = nullptr; std::vector<std::string> m; };

struct World {
	Ctx c;
	std::vector<NetList> nets;
	std::vector<AsList> ases;
	std::vector<CountryList> countries;
	std::vector<std::pair<struct loc_network*, std::pair<Net, uint32_t>>> held;
	std::vector<std::pair<struct loc_as*, uint32_t>> held_as;
	std::vector<std::pair<struct loc_country*, std::string>> held_cc;
	uint32_t serial = 0;

	~World() {
		for (auto& x : nets) if (x.l) loc_network_list_unref(x.l);
		for (auto& x : ases) if (x.l) loc_as_list_unref(x.l);
		for (auto& x : countries) if (x.l) loc_country_list_unref(x.l);
		for (auto& x : held) loc_network_unref(x.first);
		for (auto& x : held_as) loc_as_unref(x.first);
		for (auto& x : held_cc) loc_country_unref(x.first);
	}
};

static struct loc_network* make(World& w, const Net& m, uint32_t tag) {
	struct loc_network* n = nullptr;
	in6_addr x = to_in6(m.addr);
	CHECK(!loc_network_new(w.c.ctx, &n, &x, m.prefix()) && n, "could not create %s", m.str().c_str());
	loc_network_set_asn(n, tag);
	return n;
}

static void check_element(struct loc_network* n, const Net& m, uint32_t tag, const char* what) {
	CHECK(n, "%s: nothing instead of %s", what, m.str().c_str());
	CHECK(net_of(n) == m && loc_network_get_asn(n) == tag, "%s: %s#%u instead of %s#%u", what, net_of(n).str().c_str(), loc_network_get_asn(n), m.str().c_str(), tag);
}

static void check_netlist(pbt::Src& s, NetList& x, bool full) {
	CHECK(loc_network_list_size(x.l) == x.m.size(), "the list has %zu elements instead of %zu", loc_network_list_size(x.l), x.m.size());
	CHECK(!!loc_network_list_empty(x.l) == x.m.empty(), "the list is %sempty", x.m.empty() ? "not " : "");
	CHECK(!loc_network_list_get(x.l, x.m.size()) && !loc_network_list_get(x.l, SIZE_MAX), "there is something behind the end");
	if (!full)
		return;
	size_t i = 0;
	for (auto& e : x.m) {
		struct loc_network* n = loc_network_list_get(x.l, i++);
		CHECK(n, "element %zu is missing", i - 1);
		struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
		check_element(n, e.first, e.second, "get");
	}
}

static void net_op(pbt::Src& s, World& w, std::vector<Net>& seen, const NetOpts& o) {
	NetList& x = w.nets[s.choose(w.nets.size())];
	auto push = [&](const Net& m) {
		uint32_t tag = ++w.serial;
		struct loc_network* n = make(w, m, tag);
		int r = loc_network_list_push(x.l, n);
		if (s.chance(10)) w.held.push_back({n, {m, tag}}); else loc_network_unref(n);
		CHECK(r == 0, "push of %s failed: %d", m.str().c_str(), r);
		x.m.insert({m, tag});
	};
	auto hold = [&](struct loc_network* n, Net m, uint32_t tag) {
		if (s.chance(40)) w.held.push_back({n, {m, tag}}); else loc_network_unref(n);
	};
	switch (s.pick({10, 3, 3, 3, 3, 2, 1, 1})) {
		case 0: {
			Net m = gen_net(s, seen, o);
			seen.push_back(m);
			push(m);
			s.say("push %s; ", m.str().c_str());
			break;
		}
		case 1: {
			struct loc_network* n = loc_network_list_pop(x.l);
			s.say("pop; ");
			if (x.m.empty()) { CHECK(!n, "pop from an empty list returned something"); break; }
			auto i = std::prev(x.m.end());
			check_element(n, i->first, i->second, "pop");
			hold(n, i->first, i->second);
			x.m.erase(i);
			break;
		}
		case 2: {
			struct loc_network* n = loc_network_list_pop_first(x.l);
			s.say("pop first; ");
			if (x.m.empty()) { CHECK(!n, "pop_first from an empty list returned something"); break; }
			auto i = x.m.begin();
			check_element(n, i->first, i->second, "pop_first");
			hold(n, i->first, i->second);
			x.m.erase(i);
			break;
		}
		case 3: {
			Net m = gen_net(s, seen, o);
			struct loc_network* n = make(w, m, 0);
			int r = loc_network_list_remove(x.l, n);
			loc_network_unref(n);
			CHECK(r == 0, "remove failed: %d", r);
			x.m.erase(m);
			s.say("remove %s; ", m.str().c_str());
			break;
		}
		case 4: {
			Net m = gen_net(s, seen, o);
			struct loc_network* n = make(w, m, 0);
			int r = loc_network_list_contains(x.l, n);
			loc_network_unref(n);
			CHECK(!!r == !!x.m.count(m), "%s is %sin the list", m.str().c_str(), r ? "" : "not ");
			break;
		}
		case 5: {
			NetList& y = w.nets[s.choose(w.nets.size())];
			CHECK(!loc_network_list_merge(x.l, y.l), "merge failed");
			std::map<Net, uint32_t> other = y.m;
			x.m.insert(other.begin(), other.end());
			s.say("merge; ");
			break;
		}
		case 6:
			loc_network_list_clear(x.l);
			x.m.clear();
			s.say("clear; ");
			break;
		// Many at once, so that the list has to grow
		default: {
			size_t n = s.choose(s.chance(10) ? 2500 : 60);
			u128 base = (u128)0x20010db8 << 96, step = 1 + s.choose(7919);
			for (size_t i = 0; i < n; i++)
				push(Net(base | ((i * step) % 4096), 128));
			s.say("push %zu; ", n);
			if (x.m.size() > 1024) s.label("more than 1024 networks");
			break;
		}
	}
	check_netlist(s, x, x.m.size() < 30 || s.chance(5));
}

static void as_op(pbt::Src& s, World& w) {
	AsList& x = w.ases[s.choose(w.ases.size())];
	auto number = [&]() -> uint32_t { return s.chance(85) ? s.choose(20) : s.coin() ? (uint32_t)s.choose(1ull << 32) : 0x7ffffff0u + s.choose(32); };
	switch (s.pick({8, 3, 3, 2, 1})) {
		case 0: {
			for (size_t i = 0, n = s.chance(5) ? s.choose(1500) : 1; i < n; i++) {
				uint32_t v = n > 1 ? (uint32_t)s.choose(3000) : number();
				struct loc_as* as = nullptr;
				CHECK(!loc_as_new(w.c.ctx, &as, v), "could not create an AS");
				CHECK(!loc_as_list_append(x.l, as), "append failed");
				if (s.chance(10)) w.held_as.push_back({as, v}); else loc_as_unref(as);
				if (std::find(x.m.begin(), x.m.end(), v) == x.m.end()) x.m.push_back(v);
				if (n == 1) s.say("append AS%u; ", v);
			}
			break;
		}
		case 1: loc_as_list_sort(x.l); std::sort(x.m.begin(), x.m.end()); s.say("sort ASes; "); break;
		case 2: {
			uint32_t v = number();
			bool want = std::find(x.m.begin(), x.m.end(), v) != x.m.end();
			CHECK(!!loc_as_list_contains_number(x.l, v) == want, "AS%u is %sin the list", v, want ? "not " : "");
			struct loc_as* as = nullptr;
			CHECK(!loc_as_new(w.c.ctx, &as, v), "could not create an AS");
			bool got = loc_as_list_contains(x.l, as);
			loc_as_unref(as);
			CHECK(got == want, "AS%u is %sin the list", v, want ? "not " : "");
			break;
		}
		case 3:
			if (x.m.size()) {
				size_t i = s.choose(x.m.size());
				struct loc_as* as = loc_as_list_get(x.l, i);
				CHECK(as, "element %zu is missing", i);
				w.held_as.push_back({as, x.m[i]});
			}
			break;
		default: loc_as_list_clear(x.l); x.m.clear(); s.say("clear ASes; "); break;
	}
	CHECK(loc_as_list_size(x.l) == x.m.size(), "the AS list has %zu elements instead of %zu", loc_as_list_size(x.l), x.m.size());
	CHECK(!!loc_as_list_empty(x.l) == x.m.empty(), "the AS list is %sempty", x.m.empty() ? "not " : "");
	CHECK(!loc_as_list_get(x.l, x.m.size()), "there is something behind the end");
	if (x.m.size() < 40 || s.chance(5))
		for (size_t i = 0; i < x.m.size(); i++) {
			struct loc_as* as = loc_as_list_get(x.l, i);
			CHECK(as, "element %zu is missing", i);
			uint32_t got = loc_as_get_number(as);
			loc_as_unref(as);
			CHECK(got == x.m[i], "AS%u at %zu instead of AS%u", got, i, x.m[i]);
		}
}

static void country_op(pbt::Src& s, World& w) {
	CountryList& x = w.countries[s.choose(w.countries.size())];
	auto code = [&]() { std::string r = "AA"; r[0] += s.choose(s.chance(20) ? 23 : 4); r[1] += s.choose(s.chance(20) ? 26 : 4); return r; };
	switch (s.pick({8, 3, 3, 2, 1})) {
		case 0: {
			for (size_t i = 0, n = s.chance(5) ? s.choose(300) : 1; i < n; i++) {
				std::string v = code();
				struct loc_country* cc = nullptr;
				CHECK(!loc_country_new(w.c.ctx, &cc, v.c_str()), "could not create country %s", v.c_str());
				CHECK(!loc_country_list_append(x.l, cc), "append failed");
				if (s.chance(10)) w.held_cc.push_back({cc, v}); else loc_country_unref(cc);
				if (std::find(x.m.begin(), x.m.end(), v) == x.m.end()) x.m.push_back(v);
				if (n == 1) s.say("append %s; ", v.c_str());
			}
			break;
		}
		case 1: loc_country_list_sort(x.l); std::sort(x.m.begin(), x.m.end()); s.say("sort countries; "); break;
		case 2: {
			std::string v = code();
			bool want = std::find(x.m.begin(), x.m.end(), v) != x.m.end();
			CHECK((loc_country_list_contains_code(x.l, v.c_str()) > 0) == want, "%s is %sin the list", v.c_str(), want ? "not " : "");
			struct loc_country* cc = nullptr;
			CHECK(!loc_country_new(w.c.ctx, &cc, v.c_str()), "could not create country %s", v.c_str());
			bool got = loc_country_list_contains(x.l, cc);
			loc_country_unref(cc);
			CHECK(got == want, "%s is %sin the list", v.c_str(), want ? "not " : "");
			break;
		}
		case 3:
			if (x.m.size()) {
				size_t i = s.choose(x.m.size());
				struct loc_country* cc = loc_country_list_get(x.l, i);
				CHECK(cc, "element %zu is missing", i);
				w.held_cc.push_back({cc, x.m[i]});
			}
			break;
		default: loc_country_list_clear(x.l); x.m.clear(); s.say("clear countries; "); break;
	}
	CHECK(loc_country_list_size(x.l) == x.m.size(), "the country list has %zu elements instead of %zu", loc_country_list_size(x.l), x.m.size());
	CHECK(!!loc_country_list_empty(x.l) == x.m.empty(), "the country list is %sempty", x.m.empty() ? "not " : "");
	CHECK(!loc_country_list_get(x.l, x.m.size()), "there is something behind the end");
	for (size_t i = 0; i < x.m.size(); i++) {
		struct loc_country* cc = loc_country_list_get(x.l, i);
		CHECK(cc, "element %zu is missing", i);
		std::string got = loc_country_get_code(cc);
		loc_country_unref(cc);
		CHECK(got == x.m[i], "%s at %zu instead of %s", got.c_str(), i, x.m[i].c_str());
	}
}

static void property(pbt::Src& s) {
	World w;
	NetOpts o;
	o.enclosing = s.chance(20);
	w.nets.resize(1 + s.choose(3));
	w.ases.resize(1 + s.choose(2));
	w.countries.resize(1 + s.choose(2));
	for (auto& x : w.nets) CHECK(!loc_network_list_new(w.c.ctx, &x.l), "loc_network_list_new");
	for (auto& x : w.ases) CHECK(!loc_as_list_new(w.c.ctx, &x.l), "loc_as_list_new");
	for (auto& x : w.countries) CHECK(!loc_country_list_new(w.c.ctx, &x.l), "loc_country_list_new");

	std::vector<Net> seen;
	const unsigned focus = s.choose(4);
	size_t ops = 1 + s.size(60);
	for (size_t i = 0; i < ops; i++) {
		switch (focus < 3 && s.chance(80) ? focus : s.choose(3)) {
			case 0: net_op(s, w, seen, o); break;
			case 1: as_op(s, w); break;
			default: country_op(s, w); break;
		}
	}
	for (auto& x : w.nets) check_netlist(s, x, true);

	// Elements outlive their lists
	for (auto& x : w.nets) { loc_network_list_unref(x.l); x.l = nullptr; }
	for (auto& x : w.ases) { loc_as_list_unref(x.l); x.l = nullptr; }
	for (auto& x : w.countries) { loc_country_list_unref(x.l); x.l = nullptr; }
	for (auto& x : w.held) check_element(x.first, x.second.first, x.second.second, "after the list is gone");
	for (auto& x : w.held_as) CHECK(loc_as_get_number(x.first) == x.second, "AS%u has become AS%u", x.second, loc_as_get_number(x.first));
	for (auto& x : w.held_cc) CHECK(x.second == loc_country_get_code(x.first), "%s has become %s", x.second.c_str(), loc_country_get_code(x.first));

	if (ops > 5) s.nontrivial();
	if (w.held.size() + w.held_as.size() + w.held_cc.size()) s.label("elements outlive the list");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C12",
		"up to 61 operations (push/append, pop, pop first, remove, contains, get, merge, sort, clear, mass insertion beyond the initial capacity) on 1-3 network lists, 1-2 AS lists and 1-2 country lists are compared step by step with sorted maps and vectors; elements taken out are checked after the lists are gone; "
		"non-trivial: more than five operations", property };
	return pbt::pbt_main(argc, argv, p);
}
