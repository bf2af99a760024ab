// Reverse pointer names follow RFC 1035 / RFC 3596
#include "loc.hpp"

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	o.enclosing = true;
	Net n = gen_fresh_net(s, o);
	// Mostly on a boundary
	if (s.chance(75)) {
		unsigned unit = n.v4() ? 8 : 4;
		unsigned p = n.prefix() - n.prefix() % unit;
		if (s.chance(30))
			p = unit * s.choose((n.v4() ? 32 : 128) / unit + 1);
		Net x(n.addr | (gen_bits(s) & ~mask(n.plen)), n.minplen() + p);
		if (x.v4() == n.v4())
			n = x;
	}

	bool has_suffix = s.chance(40);
	std::string suffix;
	if (has_suffix) {
		static const std::vector<std::string> pool = { "example.org.", "", "ip6.arpa.", "in-addr.arpa", "%s%n%d.", "a" };
		suffix = s.chance(80) ? s.of(pool) : std::string(s.choose(500), 'x');
	}

	// The expected name, from the bits
	const unsigned unit = n.v4() ? 8 : 4, start = n.v4() ? 96 : 0, total = n.v4() ? 32 : 128;
	bool possible = n.prefix() % unit == 0;
	std::string want;
	for (unsigned bit = start; bit + unit <= n.plen; bit += unit) {
		unsigned value = (unsigned)(n.addr >> (128 - bit - unit)) & ((1u << unit) - 1);
		want = pbt::fmt(unit == 8 ? "%u." : "%x.", value) + want;
	}
	if (n.prefix() < total)
		want = "*." + want;
	want += has_suffix ? suffix : n.v4() ? "in-addr.arpa." : "ip6.arpa.";

	struct loc_network* x = nullptr;
	in6_addr a = to_in6(n.addr);
	CHECK(!loc_network_new(c.ctx, &x, &a, n.prefix()), "could not create %s", n.str().c_str());
	struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{x};
	s.say("%s with %s -> %s", n.str().c_str(), has_suffix ? suffix.substr(0, 30).c_str() : "default suffix", possible ? want.substr(0, 100).c_str() : "refused");

	for (int i = 0; i < 2; i++) {
		char* got = loc_network_reverse_pointer(x, has_suffix ? suffix.c_str() : NULL);
		if (!possible) {
			std::string str = got ? got : "";
			CHECK(!got, "%s does not border on an octet or nibble, but its reverse pointer is %s", n.str().c_str(), str.c_str());
		} else {
			CHECK(got, "%s has no reverse pointer", n.str().c_str());
			std::string str = got;
			free(got);
			CHECK(str == want, "the reverse pointer of %s is %s instead of %s", n.str().c_str(), str.c_str(), want.c_str());
		}
	}
	if (possible && n.prefix()) s.nontrivial();
	s.label(possible ? n.v4() ? "IPv4" : "IPv6" : "refused");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C13",
		"a network of either family, mostly on an octet or nibble boundary, with a default or generated suffix; the name is compared with one assembled from the bits of the address; "
		"non-trivial: the network has a reverse pointer with at least one label of its address", property };
	return pbt::pbt_main(argc, argv, p);
}
