// Excluding networks from a network is exact set difference
#include "loc.hpp"

static struct loc_network* make(Ctx& c, const Net& m) {
	struct loc_network* n = nullptr;
	in6_addr x = to_in6(m.addr);
	int r = loc_network_new(c.ctx, &n, &x, m.prefix());
	CHECK(r == 0 && n, "could not create %s", m.str().c_str());
	return n;
}

struct Guard { struct loc_network* n; ~Guard() { if (n) loc_network_unref(n); } };
struct ListGuard { struct loc_network_list* l; ~ListGuard() { if (l) loc_network_list_unref(l); } };

static void check_result(struct loc_network_list* l, const Net& base, const Info& info, const std::vector<Net>& excluded, const char* what) {
	CHECK(l, "%s returned nothing", what);
	std::vector<Net> got;
	for (size_t i = 0; i < loc_network_list_size(l); i++) {
		struct loc_network* n = loc_network_list_get(l, i);
		CHECK(n, "element %zu of the result is missing", i);
		Guard g{n};
		check_network_object(n);
		got.push_back(net_of(n));
		CHECK(info_of(n) == info, "%s: %s has the attributes %s instead of %s", what, got.back().str().c_str(), info_of(n).str().c_str(), info.str().c_str());
		CHECK(got.size() < 2 || got[got.size() - 2].last() < got.back().first(), "%s: %s is followed by %s", what, got[got.size() - 2].str().c_str(), got.back().str().c_str());
	}
	std::vector<Net> all(excluded);
	all.push_back(base);
	all.insert(all.end(), got.begin(), got.end());
	for (const Interval& i : intervals(all)) {
		bool want = base.has(i.first);
		for (const Net& x : excluded)
			want = want && !x.has(i.first);
		bool have = false;
		for (const Net& x : got)
			have = have || x.has(i.first);
		CHECK(want == have, "%s: %s is %s the result", what, addr_str(i.first).c_str(), have ? "wrongly in" : "missing from");
	}
}

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	o.enclosing = s.chance(30);
	Net base = gen_fresh_net(s, o);
	if (o.enclosing && s.coin())
		base = Net(V4BASE, s.choose(96));
	Info info = gen_info(s);
	std::vector<Net> excluded;
	if (base.encloses_v4()) {
		for (size_t i = 0, n = s.choose(4); i < n; i++)
			excluded.push_back(Net(gen_addr4(s), 96 + s.choose(33)));
		if (excluded.size()) s.label("IPv4 excluded from IPv6");
	}

	// Inside: anywhere, related to each other, dense, at both ends, nested, repeated
	size_t n = 1 + s.size(20);
	unsigned room = 128 - base.plen;
	if (room && s.chance(25)) {
		unsigned depth = std::min<unsigned>(1 + s.choose(5) + (s.chance(4) ? 4 : 0), room);
		unsigned density = 10 + s.choose(90);
		for (u128 i = 0; i < ((u128)1 << depth); i++)
			if (s.chance(density))
				excluded.push_back(Net(base.addr | (i << (128 - base.plen - depth)), base.plen + depth));
		s.label("dense");
	}
	while (excluded.size() < n) {
		Net x;
		if (excluded.empty() || s.chance(40)) {
			unsigned k = room ? s.choose(s.coin() ? room + 1 : std::min(room, 6u) + 1) : 0;
			u128 a = base.addr | (gen_bits(s) & ~mask(base.plen));
			x = Net(a, base.plen + k);
		} else {
			x = gen_related_net(s, s.of(excluded), o);
		}
		if (!base.covers(x))
			x = base.plen < 128 ? Net(base.addr, base.plen + 1) : base;
		// Not the base itself, most of the time
		if (x == base && room && !s.chance(5))
			x = Net(base.last(), base.plen + 1);
		excluded.push_back(x);
	}

	struct loc_network* b = make(c, base);
	Guard gb{b};
	apply_info(b, info);
	s.say("%s excluding ", base.str().c_str());
	for (size_t i = 0; i < excluded.size() && i < 10; i++)
		s.say("%s ", excluded[i].str().c_str());

	// One at a time
	for (size_t i = 0; i < std::min<size_t>(excluded.size(), 4); i++) {
		struct loc_network* x = make(c, excluded[i]);
		Guard g{x};
		struct loc_network_list* l = loc_network_exclude(b, x);
		ListGuard lg{l};
		check_result(l, base, info, { excluded[i] }, "exclude");
	}

	// All at once
	{
		struct loc_network_list* in = nullptr;
		if (loc_network_list_new(c.ctx, &in)) pbt::fail("loc_network_list_new");
		ListGuard g1{in};
		for (const Net& m : excluded) {
			struct loc_network* x = make(c, m);
			Guard g{x};
			apply_info(x, gen_info(s));
			CHECK(loc_network_list_push(in, x) == 0, "could not push");
		}
		size_t before = loc_network_list_size(in);
		struct loc_network_list* l = loc_network_exclude_list(b, in);
		ListGuard g2{l};
		check_result(l, base, info, excluded, "exclude_list");
		CHECK(loc_network_list_size(in) == before, "the list of excluded networks has changed");
		if (loc_network_list_size(l)) s.label("something is left");
	}

	CHECK(net_of(b) == base && info_of(b) == info, "the network itself has changed");

	std::set<Net> distinct(excluded.begin(), excluded.end());
	if (distinct.size() > 1 && !distinct.count(base)) s.nontrivial();
	for (const Net& x : distinct) for (const Net& y : distinct) if (!(x == y) && x.covers(y)) { s.label("nested"); return; }
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C11",
		"up to 21 (or a dense subtree of) networks inside a network are excluded from it, singly and as a list; every elementary interval between the borders of all networks must be in the result exactly if it is in the network and in none of the excluded; results must be ordered, disjoint, and keep the attributes; "
		"non-trivial: at least two distinct networks, neither of them the network itself, are excluded at once", property };
	return pbt::pbt_main(argc, argv, p);
}
