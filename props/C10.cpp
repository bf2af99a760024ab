// Network arithmetic agrees with CIDR semantics
#include "loc.hpp"

struct N {
	struct loc_network* n = nullptr;
	Net m;
	Info i;
	N() {}
	N(const N&) = delete;
	~N() { if (n) loc_network_unref(n); }
};

static void make(pbt::Src& s, Ctx& c, const Net& net, N& r) {
	r.m = net;
	// With some host bits, which must not matter
	u128 a = net.addr;
	if (s.chance(60))
		a |= gen_bits(s) & ~mask(net.plen);
	if (is_v4(a) != net.v4())
		a = net.addr;
	if (s.coin()) {
		in6_addr x = to_in6(a);
		int res = loc_network_new(c.ctx, &r.n, &x, net.prefix());
		CHECK(res == 0 && r.n, "could not create %s/%u: %d", addr_str(a).c_str(), net.prefix(), res);
	} else {
		std::string str = addr_str(a) + "/" + std::to_string(net.prefix());
		int res = loc_network_new_from_string(c.ctx, &r.n, str.c_str());
		CHECK(res == 0 && r.n, "could not create %s: %d", str.c_str(), res);
	}
	Info zero = info_of(r.n);
	CHECK(zero == Info(), "a new network %s has attributes %s", net.str().c_str(), zero.str().c_str());
	r.i = gen_info(s);
	apply_info(r.n, r.i);
}

static int sign(int x) { return x < 0 ? -1 : x > 0; }

static void check_fields(const N& x) {
	check_network_object(x.n);
	CHECK(net_of(x.n) == x.m, "%s is represented as %s", x.m.str().c_str(), net_of(x.n).str().c_str());
	CHECK(info_of(x.n) == x.i, "%s has attributes %s instead of %s", x.m.str().c_str(), info_of(x.n).str().c_str(), x.i.str().c_str());
	CHECK(loc_network_prefix(x.n) == x.m.prefix(), "prefix of %s is %u", x.m.str().c_str(), loc_network_prefix(x.n));
	// Both at a time, as for printing a range
	const char* first = loc_network_format_first_address(x.n);
	const char* last = loc_network_format_last_address(x.n);
	CHECK(first && addr_str(x.m.first()) == first, "%s starts at %s", x.m.str().c_str(), first ? first : "(null)");
	CHECK(last && addr_str(x.m.last()) == last, "%s ends at %s", x.m.str().c_str(), last ? last : "(null)");
}

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	o.enclosing = s.chance(30);

	std::vector<Net> nets;
	size_t count = 2 + s.choose(5);
	for (size_t i = 0; i < count; i++)
		nets.push_back(gen_net(s, nets, o));

	std::vector<N> v(count);
	for (size_t i = 0; i < count; i++) {
		make(s, c, nets[i], v[i]);
		s.say("%s ", nets[i].str().c_str());
	}

	unsigned related = 0;
	for (N& a : v) {
		check_fields(a);

		// Addresses
		for (int i = 0; i < 6; i++) {
			std::vector<Entry> e = { Entry{a.m, a.i} };
			NetOpts any;
			u128 x = gen_probe(s, e, any);
			in6_addr y = to_in6(x);
			CHECK(!!loc_network_matches_address(a.n, &y) == a.m.has(x), "%s %s %s according to the library",
				a.m.str().c_str(), a.m.has(x) ? "does not contain" : "contains", addr_str(x).c_str());
		}

		// Pairs
		for (N& b : v) {
			int cmp = a.m.addr < b.m.addr ? -1 : a.m.addr > b.m.addr ? 1 : a.m.plen < b.m.plen ? -1 : a.m.plen > b.m.plen;
			CHECK(sign(loc_network_cmp(a.n, b.n)) == cmp, "comparing %s and %s gives %d", a.m.str().c_str(), b.m.str().c_str(), loc_network_cmp(a.n, b.n));
			CHECK(!!loc_network_overlaps(a.n, b.n) == a.m.overlaps(b.m), "%s and %s overlap: %d", a.m.str().c_str(), b.m.str().c_str(), loc_network_overlaps(a.n, b.n));
			CHECK(!!loc_network_is_subnet(a.n, b.n) == a.m.covers(b.m), "%s has %s as a subnet: %d", a.m.str().c_str(), b.m.str().c_str(), loc_network_is_subnet(a.n, b.n));
			if (&a != &b && a.m.overlaps(b.m))
				related++;
		}

		// Halves
		struct loc_network *l = nullptr, *r = nullptr;
		int res = loc_network_subnets(a.n, &l, &r);
		if (a.m.plen == 128) {
			CHECK(res != 0, "the host %s can be split", a.m.str().c_str());
			CHECK(!l && !r, "splitting a host fails, but returns something");
		} else {
			CHECK(res == 0 && l && r, "%s cannot be split: %d", a.m.str().c_str(), res);
			N x, y;
			x.n = l; y.n = r;
			x.i = y.i = a.i;
			x.m = Net(a.m.addr, a.m.plen + 1);
			y.m = Net(a.m.addr | ((u128)1 << (127 - a.m.plen)), a.m.plen + 1);
			check_fields(x);
			check_fields(y);
		}
		// Nothing has changed
		check_fields(a);
	}

	// Prefixes that do not exist
	for (int i = 0; i < 2; i++) {
		u128 a = gen_addr(s, o);
		unsigned p = (is_v4(a) ? 33 : 129) + (s.coin() ? s.choose(200) : s.choose(0x7fffffff));
		in6_addr x = to_in6(a);
		struct loc_network* n = nullptr;
		int r = loc_network_new(c.ctx, &n, &x, p);
		if (n) loc_network_unref(n);
		CHECK(r != 0 && !n, "%s/%u can be created", addr_str(a).c_str(), p);
	}

	if (related) s.nontrivial();
	if (o.enclosing) s.label("may enclose IPv4");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C10",
		"2-6 related networks of both families with host bits and attributes; all fields, membership of addresses around the borders, all ordered pairs for order, overlap and subnet, both halves, and impossible prefixes are compared with 128 bit integer arithmetic; "
		"non-trivial: at least two different networks of the case overlap", property };
	return pbt::pbt_main(argc, argv, p);
}
