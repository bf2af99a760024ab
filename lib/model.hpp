/*
	The reference model: addresses as 128 bit integers, networks as (address, prefix), a
	database as a plain list searched linearly. Shares no code with libloc.
*/
#pragma once

#include <arpa/inet.h>
#include <netinet/in.h>
#include <string>
#include <vector>
#include "pbt.hpp"

typedef unsigned __int128 u128;

static const u128 V4BASE = (u128)0xffff << 32;
static const u128 ALLONES = ~(u128)0;

static inline u128 mask(unsigned plen) { return plen == 0 ? 0 : ALLONES << (128 - plen); }

static inline in6_addr to_in6(u128 a) {
	in6_addr r;
	for (int i = 15; i >= 0; i--) { r.s6_addr[i] = (uint8_t)a; a >>= 8; }
	return r;
}

static inline u128 from_in6(const in6_addr* a) {
	u128 r = 0;
	for (int i = 0; i < 16; i++) r = (r << 8) | a->s6_addr[i];
	return r;
}

static inline bool is_v4(u128 a) { return (a >> 32) == 0xffff; }

// Independent formatter of the address (glibc's, not libloc's)
static inline std::string addr_str(u128 a) {
	char buf[INET6_ADDRSTRLEN + 1];
	in6_addr x = to_in6(a);
	if (is_v4(a)) {
		in_addr y;
		memcpy(&y, &x.s6_addr[12], 4);
		inet_ntop(AF_INET, &y, buf, sizeof(buf));
	} else {
		inet_ntop(AF_INET6, &x, buf, sizeof(buf));
	}
	return buf;
}

struct Net {
	u128 addr = 0;
	unsigned plen = 0; // raw: IPv4 prefixes are 96 + n

	Net() {}
	Net(u128 a, unsigned p) : addr(a & mask(p)), plen(p) {}

	bool v4() const { return plen >= 96 && is_v4(addr); }
	int family() const { return v4() ? AF_INET : AF_INET6; }
	unsigned prefix() const { return v4() ? plen - 96 : plen; }
	unsigned minplen() const { return v4() ? 96 : 0; }
	u128 first() const { return addr; }
	u128 last() const { return addr | ~mask(plen); }
	bool has(u128 a) const { return (a & mask(plen)) == addr; }
	bool covers(const Net& o) const { return plen <= o.plen && has(o.addr); }
	bool overlaps(const Net& o) const { return covers(o) || o.covers(*this); }
	std::string str() const { return addr_str(addr) + "/" + std::to_string(prefix()); }

	// An IPv6 network that swallows the IPv4-mapped block
	bool encloses_v4() const { return !v4() && has(V4BASE); }

	bool operator==(const Net& o) const { return addr == o.addr && plen == o.plen; }
	bool operator!=(const Net& o) const { return !(*this == o); }
	bool operator<(const Net& o) const { return addr != o.addr ? addr < o.addr : plen < o.plen; }
};

struct Info {
	std::string cc;
	uint32_t asn = 0;
	uint32_t flags = 0;

	bool operator==(const Info& o) const { return cc == o.cc && asn == o.asn && flags == o.flags; }
	bool operator!=(const Info& o) const { return !(*this == o); }
	std::string str() const { return pbt::fmt("[%s AS%u f%x]", cc.c_str(), asn, flags); }
};

struct Entry {
	Net net;
	Info info;
	std::string str() const { return net.str() + info.str(); }
	bool operator==(const Entry& o) const { return net == o.net && info == o.info; }
	bool operator!=(const Entry& o) const { return !(*this == o); }
};

// Longest prefix match by brute force
static inline const Entry* lpm(const std::vector<Entry>& db, u128 a) {
	const Entry* best = nullptr;
	for (const Entry& e : db)
		if (e.net.has(a) && (!best || e.net.plen > best->net.plen))
			best = &e;
	return best;
}

/*
	Generators
*/

struct NetOpts {
	bool v4 = true;
	bool v6 = true;
	bool v6low = true;      // IPv6 networks inside ::/64
	bool enclosing = false; // IPv6 networks that enclose the IPv4-mapped block
};

static inline u128 gen_bits(pbt::Src& s) {
	switch (s.pick({3, 2, 2, 3, 2})) {
		case 0: return 0;
		case 1: return ALLONES;
		case 2: return (u128)1 << s.choose(128);
		case 3: return ((u128)s.choose(0) << 64) | s.choose(0);
		// Runs of ones and zeroes
		default: {
			u128 r = 0;
			unsigned i = 0;
			bool bit = s.coin();
			while (i < 128) {
				unsigned n = 1 + s.choose(40);
				for (unsigned j = 0; j < n && i < 128; j++, i++)
					if (bit) r |= (u128)1 << i;
				bit = !bit;
			}
			return r;
		}
	}
}

static inline u128 gen_addr4(pbt::Src& s) {
	switch (s.pick({5, 1})) {
		case 0: return V4BASE | (((u128)(10 + s.choose(3)) << 24) | (gen_bits(s) & 0xffffff));
		default: return V4BASE | (gen_bits(s) & 0xffffffff);
	}
}

static inline u128 gen_addr6(pbt::Src& s, const NetOpts& o) {
	u128 a;
	switch (s.pick({5, 2, 1})) {
		case 0: a = ((u128)0x20010db8 << 96) | (gen_bits(s) & (ALLONES >> 32)); break;
		case 1: a = gen_bits(s); break;
		default: a = o.v6low ? gen_bits(s) & (ALLONES >> (64 + s.choose(64))) : ((u128)0xfe80 << 112); break;
	}
	if (is_v4(a))
		a ^= (u128)1 << 33;
	return a;
}

static inline u128 gen_addr(pbt::Src& s, const NetOpts& o) {
	if (o.v4 && (!o.v6 || !s.coin()))
		return gen_addr4(s);
	return gen_addr6(s, o);
}

static inline bool net_allowed(const Net& n, const NetOpts& o) {
	if (n.plen > 128)
		return false;
	if (n.v4())
		return o.v4;
	if (!o.v6)
		return false;
	if (!o.enclosing && n.encloses_v4())
		return false;
	if (!o.v6low && n.plen > 64 && (n.addr >> 64) == 0)
		return false;
	return true;
}

static inline Net gen_fresh_net(pbt::Src& s, const NetOpts& o) {
	for (int i = 0; i < 8; i++) {
		Net n;
		if (o.v4 && (!o.v6 || !s.coin())) {
			u128 a = gen_addr4(s);
			unsigned p;
			switch (s.pick({4, 2, 1, 1})) {
				case 0: p = 8 + s.choose(25); break;
				case 1: p = 24; break;
				case 2: p = 32; break;
				default: p = s.choose(33); break;
			}
			n = Net(a, 96 + p);
		} else {
			u128 a = gen_addr6(s, o);
			unsigned p;
			switch (s.pick({4, 2, 1, 1})) {
				case 0: p = 16 + s.choose(49); break;
				case 1: p = 128 - s.choose(9); break;
				case 2: p = 128; break;
				default: p = s.choose(129); break;
			}
			n = Net(a, p);
		}
		if (net_allowed(n, o))
			return n;
	}
	return o.v4 ? Net(V4BASE | (10u << 24), 104) : Net((u128)0x20010db8 << 96, 32);
}

// A network related to an existing one: child, sibling, parent, neighbour...
static inline Net gen_related_net(pbt::Src& s, const Net& b, const NetOpts& o) {
	Net n = b;
	switch (s.pick({4, 3, 3, 2, 2})) {
		// Something inside
		case 0: {
			unsigned room = 128 - b.plen;
			if (room) {
				unsigned k = 1 + s.choose(s.coin() ? room : std::min(room, 3u));
				n = Net(b.addr | (gen_bits(s) & ~mask(b.plen)), b.plen + k);
			}
			break;
		}
		// The other half
		case 1:
			if (b.plen > b.minplen())
				n = Net(b.addr ^ ((u128)1 << (128 - b.plen)), b.plen);
			break;
		// Something around
		case 2: {
			unsigned room = b.plen - b.minplen();
			if (room)
				n = Net(b.addr, b.plen - 1 - s.choose(std::min(room, 6u)));
			break;
		}
		// The next block of the same size
		case 3:
			if (b.last() != ALLONES)
				n = Net(b.last() + 1, b.plen);
			break;
		// The previous block of the same size
		default:
			if (b.first() != 0)
				n = Net(b.first() - 1, b.plen);
			break;
	}
	// Do not wander into the other family
	if (n.v4() != b.v4() || !net_allowed(n, o))
		return b;
	return n;
}

static inline Net gen_net(pbt::Src& s, const std::vector<Net>& seen, const NetOpts& o) {
	if (seen.empty() || s.chance(30))
		return gen_fresh_net(s, o);
	return gen_related_net(s, s.of(seen), o);
}

static inline std::string gen_cc(pbt::Src& s) {
	static const std::vector<std::string> pool = { "DE", "", "FR", "US", "GB", "AA", "ZZ", "WX" };
	if (s.chance(20)) {
		// Any but those that begin with X
		std::string r = "AA";
		r[0] = "ABCDEFGHIJKLMNOPQRSTUVWYZ"[s.choose(25)];
		r[1] = 'A' + s.choose(26);
		return r;
	}
	return s.of(pool);
}

static inline Info gen_info(pbt::Src& s) {
	Info i;
	i.cc = gen_cc(s);
	switch (s.pick({4, 3, 1, 1, 1})) {
		case 0: i.asn = 0; break;
		case 1: i.asn = 1 + s.choose(3); break;
		case 2: i.asn = 0xffffffffu; break;
		case 3: i.asn = 0x80000000u; break;
		default: i.asn = (uint32_t)s.choose(1ull << 32); break;
	}
	// There are four flags so far, and room for more of them
	i.flags = s.chance(30) ? (s.chance(10) ? s.choose(1 << 16) : s.choose(16)) : 0;
	return i;
}

/*
	A list of distinct networks with attributes.
	distinct: give every network an attribution of its own, so that nothing may be merged
*/
static inline std::vector<Entry> gen_entries(pbt::Src& s, size_t max, const NetOpts& o, bool distinct) {
	std::vector<Entry> v;
	std::vector<Net> seen;
	std::vector<Info> infos;
	size_t n = s.size(max);

	// Few attributions make equal neighbours likely
	size_t ninfo = 1 + s.choose(4);
	if (!distinct)
		for (size_t i = 0; i < ninfo; i++)
			infos.push_back(gen_info(s));

	// A chain around one address: many nested networks
	if (n && s.chance(15)) {
		Net base = gen_fresh_net(s, o);
		u128 a = base.addr | (gen_bits(s) & ~mask(base.plen));
		for (unsigned p = base.minplen(); p <= 128; p++) {
			if (!s.chance(30))
				continue;
			Net x(a, p);
			if (x.v4() == base.v4() && net_allowed(x, o))
				seen.push_back(x);
		}
	}
	// All blocks left over when one host is cut out of the space: the widest possible tree
	else if (n && s.chance(4)) {
		bool four = o.v4 && (!o.v6 || s.coin());
		u128 a = four ? gen_addr4(s) : gen_addr6(s, o);
		for (unsigned p = four ? 97 : 1; p <= 128; p++) {
			Net x(a ^ ((u128)1 << (128 - p)), p);
			if (x.v4() == four && net_allowed(x, o))
				seen.push_back(x);
		}
		if (net_allowed(Net(a, 128), o))
			seen.push_back(Net(a, 128));
		s.label("comb");
	}

	// A small subtree filled densely: equal neighbours, nested duplicates, chains of merges
	else if (n && s.chance(30)) {
		Net base = gen_fresh_net(s, o);
		unsigned depth = std::min<unsigned>(1 + s.choose(5), 128 - base.plen);
		unsigned density = 20 + s.choose(80);
		for (unsigned d = 0; d <= depth; d++) {
			if (d < depth && s.coin())
				continue;
			for (u128 i = 0; i < ((u128)1 << d); i++)
				if (s.chance(density)) {
					Net x(base.addr | (base.plen + d ? i << (128 - base.plen - d) : 0), base.plen + d);
					if (x.v4() == base.v4() && net_allowed(x, o))
						seen.push_back(x);
				}
		}
		s.label("dense subtree");
	}

	for (size_t i = 0; i < n; i++)
		seen.push_back(gen_net(s, seen, o));

	// Shuffle a little, so that the order of insertion is arbitrary
	for (size_t i = 0; i + 1 < seen.size(); i++)
		if (s.chance(40))
			std::swap(seen[i], seen[i + s.choose(seen.size() - i)]);

	for (const Net& net : seen) {
		bool dup = false;
		for (const Entry& e : v)
			if (e.net == net) { dup = true; break; }
		if (dup)
			continue;
		Entry e;
		e.net = net;
		if (distinct) {
			e.info.cc = gen_cc(s);
			e.info.asn = 1000 + v.size();
			e.info.flags = s.choose(16);
		} else {
			e.info = s.of(infos);
		}
		v.push_back(e);
	}
	return v;
}

static inline u128 gen_probe(pbt::Src& s, const std::vector<Entry>& db, const NetOpts& o) {
	if (db.empty() || s.chance(10))
		return gen_addr(s, o);
	const Net& n = s.of(db).net;
	u128 a;
	switch (s.pick({2, 2, 2, 2, 4, 3})) {
		case 0: a = n.first(); break;
		case 1: a = n.last(); break;
		case 2: a = n.first() - 1; break;
		case 3: a = n.last() + 1; break;
		case 4: a = n.addr | (gen_bits(s) & ~mask(n.plen)); break;
		// Leave the path of this network at some bit
		default: a = n.addr ^ ((u128)1 << s.choose(n.v4() ? 32 : 128)); break;
	}
	return a;
}

// The borders at which attribution may change: the first address of every elementary interval
static inline std::vector<u128> borders(const std::vector<Net>& nets) {
	std::vector<u128> b = { 0, V4BASE, V4BASE + ((u128)1 << 32) };
	for (const Net& n : nets) {
		b.push_back(n.first());
		if (n.last() != ALLONES)
			b.push_back(n.last() + 1);
	}
	std::sort(b.begin(), b.end());
	b.erase(std::unique(b.begin(), b.end()), b.end());
	return b;
}

struct Interval { u128 first, last; };

static inline std::vector<Interval> intervals(const std::vector<Net>& nets) {
	std::vector<u128> b = borders(nets);
	std::vector<Interval> r;
	for (size_t i = 0; i < b.size(); i++)
		r.push_back(Interval{b[i], i + 1 < b.size() ? b[i + 1] - 1 : ALLONES});
	return r;
}

static inline std::vector<Net> nets_of(const std::vector<Entry>& v) {
	std::vector<Net> r;
	for (const Entry& e : v)
		r.push_back(e.net);
	return r;
}

// True if the answer for this address is a matter of taste (an IPv4 address below an IPv6 network)
static inline bool ambiguous(const std::vector<Entry>& db, u128 a) {
	if (!is_v4(a))
		return false;
	for (const Entry& e : db)
		if (e.net.encloses_v4())
			return true;
	return false;
}

static inline void say_entries(pbt::Src& s, const std::vector<Entry>& db) {
	if (!s.want_description)
		return;
	s.say("db{");
	size_t i = 0;
	for (const Entry& e : db) {
		if (i++ == 12) { s.say("... %zu in total", db.size()); break; }
		s.say("%s%s", i > 1 ? ", " : "", e.str().c_str());
	}
	s.say("} ");
}
