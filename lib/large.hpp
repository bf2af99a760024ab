/*
	Databases of a scale at which counters of 16 bits, initial capacities and buffers do not suffice
*/
#pragma once
#include <map>
#include <unordered_map>
#include "loc.hpp"

struct LargeDb {
	std::vector<Entry> entries; // in the order they are added
	bool distinct = false; // no two of them may be joined

	const Entry* find(u128 a) const {
		for (auto i = by_plen.rbegin(); i != by_plen.rend(); ++i) {
			auto f = i->second.find(a & mask(i->first));
			if (f != i->second.end())
				return &entries[f->second];
		}
		return nullptr;
	}

	bool add(const Entry& e) {
		auto& m = by_plen[e.net.plen];
		if (!m.emplace(e.net.addr, entries.size()).second)
			return false;
		entries.push_back(e);
		return true;
	}

private:
	struct H { size_t operator()(u128 a) const { return (size_t)(a ^ (a >> 64)) * 0x9e3779b97f4a7c15ull >> 7; } };
	std::map<unsigned, std::unordered_map<u128, size_t, H>> by_plen;
};

static inline LargeDb gen_large(pbt::Src& s, size_t least = 66000, size_t spread = 4000) {
	LargeDb d;
	static const std::vector<std::string> codes = { "DE", "FR", "US", "GB", "", "AA", "ZZ", "WX", "IT", "JP", "CN" };
	const size_t shape = s.choose(4);
	size_t n = least + s.choose(spread);
	u128 base;
	unsigned plen;
	size_t stride = 1 + s.choose(2);
	switch (shape) {
		case 0: base = V4BASE | (u128)(1 + s.choose(180)) << 24; plen = 128; break;
		case 1: base = V4BASE | (u128)(1 + s.choose(100)) << 24; plen = 120; break;
		case 2: base = (u128)0x2a00 << 112; plen = 48 + s.choose(17); break;
		// Far apart, so that there are many nodes
		default: base = (u128)0x2a00 << 112; plen = 128; n = std::min<size_t>(n, 3000); break;
	}
	d.distinct = s.choose(3) != 0;
	const size_t run = d.distinct ? 1 : 1 + s.choose(5);
	const bool nested = s.coin(), enclosed = s.coin();
	const uint64_t salt = s.choose(0);
	for (size_t k = 0; k < n; k++) {
		// In an order that is neither ascending nor descending
		const size_t i = salt % 3 ? (k * 7919 + salt % 1000) % n : k;
		u128 a;
		if (shape == 3) {
			uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull + salt;
			a = base | ((u128)(x >> 16) << 64) | (x * 0xbf58476d1ce4e5b9ull);
		} else {
			a = base + ((u128)(i * stride * (run > 1 ? 1 : 2)) << (128 - plen));
		}
		Entry e;
		// The writer looks at all networks of the same size, until there is a larger one
		const unsigned p = i % 61 || shape == 3 ? plen : plen - 1;
		e.net = Net(a, p);
		e.info.asn = 1 + (uint32_t)(i / run);
		e.info.cc = codes[i / run % codes.size()];
		if (i % 64 == 5) e.info.flags = 1 << (i / 64 % 4);
		if (d.distinct || e.info.cc.size() || e.info.asn)
			d.add(e);
		if (nested && plen < 125 && i % 5 == 2) {
			Entry x = e;
			x.net = Net(a | ~mask(p), p + 3);
			x.info.asn = 1000000 + (uint32_t)i;
			d.add(x);
		}
	}
	if (enclosed)
		for (unsigned up : { 4u, 9u, 13u }) {
			Entry x;
			x.net = Net(d.entries[d.entries.size() / 2].net.addr, plen - up);
			x.info.asn = 2000000 + up;
			x.info.cc = "QA";
			d.add(x);
		}
	s.say("%zu networks such as %s, %s and %s ", d.entries.size(), d.entries[0].str().c_str(), d.entries[1].str().c_str(), d.entries.back().str().c_str());
	s.label("large");
	s.nontrivial();
	return d;
}

static inline void compare_lookup(Db& d, const LargeDb& l, u128 a) {
	const Entry* want = l.find(a);
	Entry got;
	bool found = d.lookup(a, &got);
	if (!want) {
		CHECK(!found, "lookup of %s returns %s, but no network contains it", addr_str(a).c_str(), got.str().c_str());
		return;
	}
	CHECK(found, "lookup of %s finds nothing, expected %s", addr_str(a).c_str(), want->str().c_str());
	CHECK(got.info == want->info, "lookup of %s returns %s, expected %s", addr_str(a).c_str(), got.str().c_str(), want->str().c_str());
	if (l.distinct)
		CHECK(got.net == want->net, "lookup of %s returns %s, expected %s", addr_str(a).c_str(), got.str().c_str(), want->str().c_str());
}

// The ends of the network and what is next to them
static inline void compare_around(Db& d, const LargeDb& l, const Net& n) {
	compare_lookup(d, l, n.first());
	compare_lookup(d, l, n.last());
	if (n.first()) compare_lookup(d, l, n.first() - 1);
	if (n.last() != ALLONES) compare_lookup(d, l, n.last() + 1);
}
