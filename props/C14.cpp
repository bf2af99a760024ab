// Address and network text is parsed strictly and printed canonically
#include "loc.hpp"

// Spells an address in one of many ways
static std::string spell(pbt::Src& s, u128 a) {
	if (is_v4(a)) {
		std::string v4 = addr_str(a);
		switch (s.pick({5, 1, 1})) {
			case 1: return "::ffff:" + v4;
			case 2: return pbt::fmt("::FFFF:%x:%x", (unsigned)(a >> 16) & 0xffff, (unsigned)a & 0xffff);
		}
		return v4;
	}
	unsigned g[8];
	for (int i = 0; i < 8; i++)
		g[i] = (unsigned)(a >> (112 - 16 * i)) & 0xffff;
	const bool upper = s.coin(), padded = s.chance(30);
	const bool dotted = s.chance(15);
	const int groups = dotted ? 6 : 8;
	// Compress some run of zeroes
	int from = -1, to = -1;
	if (s.chance(70)) {
		std::vector<std::pair<int, int>> runs;
		for (int i = 0; i < groups; i++)
			for (int j = i; j < groups && !g[j]; j++)
				runs.push_back({i, j + 1});
		if (!runs.empty()) { auto r = s.of(runs); from = r.first; to = r.second; }
	}
	std::string r;
	for (int i = 0; i < groups; i++) {
		if (i == from) { r += "::"; i = to - 1; continue; }
		if (!r.empty() && r.back() != ':') r += ":";
		r += pbt::fmt(padded ? (upper ? "%04X" : "%04x") : (upper ? "%X" : "%x"), g[i]);
	}
	if (dotted) {
		if (r.empty() || r.back() != ':') r += ":";
		r += pbt::fmt("%u.%u.%u.%u", g[6] >> 8, g[6] & 255, g[7] >> 8, g[7] & 255);
	}
	return r;
}

enum Verdict { VALID, INVALID, UNDECIDED };

// What a piece of text means
static Verdict read(const std::string& text, Net* out) {
	size_t slash = text.find('/');
	std::string a = text.substr(0, slash);
	in6_addr x6; in_addr x4;
	u128 addr; unsigned max;
	if (inet_pton(AF_INET6, a.c_str(), &x6) == 1) { addr = from_in6(&x6); max = 128; }
	else if (inet_pton(AF_INET, a.c_str(), &x4) == 1) { addr = V4BASE | ntohl(x4.s_addr); max = 32; }
	else return INVALID;
	unsigned long p = max;
	if (slash != std::string::npos) {
		std::string t = text.substr(slash + 1);
		if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos)
			return INVALID;
		std::string digits = t.substr(std::min(t.find_first_not_of('0'), t.size() - 1));
		if (digits.size() > 3 || (p = strtoul(digits.c_str(), NULL, 10)) > max)
			return INVALID;
		if (digits != t)
			return UNDECIDED; // leading zeroes
	}
	*out = Net(addr, (max == 32 ? 96 : 0) + p);
	return VALID;
}

static void damage(pbt::Src& s, std::string& t) {
	static const std::string alphabet = "0123456789abcdefABCDEFgx:./-+ %\t\n,*";
	for (size_t i = 0, n = 1 + s.choose(2); i < n; i++)
		switch (s.pick({3, 3, 3, 1, 1, 2})) {
			case 0: t.insert(s.choose(t.size() + 1), 1, alphabet[s.choose(alphabet.size())]); break;
			case 1: if (t.size()) t[s.choose(t.size())] = alphabet[s.choose(alphabet.size())]; break;
			case 2: if (t.size()) t.erase(s.choose(t.size()), 1); break;
			case 3: t.resize(s.choose(t.size() + 1)); break;
			case 4: t += t; break;
			default: {
				static const std::vector<std::string> tails = { "/", " ", "/-1", "/+8", "/8 ", "/ 8", "/8x", "/0x8", "/33", "/129", "/256", "/4294967296", "/4294967304", "/18446744073709551624",
					"/99999999999999999999999999", "%eth0", "/8/8", "/255.0.0.0", "\n", ".", ":", "/1e1", "/8.0", "/24                                                                       " };
				t += s.of(tails);
				break;
			}
		}
	size_t z = t.find('\0');
	if (z != std::string::npos) t.resize(z);
}

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	o.enclosing = true;

	// A database to look up addresses as text
	std::vector<Entry> entries = gen_entries(s, 5, o, true);
	File f;
	const bool lookups = s.chance(15);
	if (lookups)
		build_db(c, entries, f);
	Db* d = lookups ? new Db(c, f) : nullptr;
	struct DG { Db* d; ~DG() { delete d; } } dg{d};

	for (size_t i = 0, n = 1 + s.choose(6); i < n; i++) {
		u128 a = lookups ? gen_probe(s, entries, o) : gen_addr(s, o);
		std::string text = spell(s, a);
		const bool six = text.find(':') != std::string::npos;
		bool certain = true;
		Net want(a, 128);
		if (s.chance(60)) {
			unsigned p = s.choose(six ? 129 : 33);
			text += "/" + std::to_string(p);
			want = Net(a, (six ? 0 : 96) + p);
		}
		if (s.chance(50)) {
			damage(s, text);
			certain = false;
		}
		Verdict v = VALID;
		Net m;
		v = read(text, &m);
		if (certain)
			CHECK(v == VALID && m == want, "the oracle disagrees with itself about %s", text.c_str());

		s.say("\"%s\" %s; ", text.c_str(), v == VALID ? m.str().c_str() : v == INVALID ? "invalid" : "undecided");
		struct loc_network* x = nullptr;
		int r = loc_network_new_from_string(c.ctx, &x, text.c_str());
		struct G { struct loc_network*& n; ~G() { if (n) loc_network_unref(n); } } g{x};

		if (v == INVALID) {
			CHECK(r != 0 && !x, "\"%s\" was accepted as %s", text.c_str(), x ? net_of(x).str().c_str() : "nothing");
			s.label("rejected");
			if (!certain) s.nontrivial();
		} else if (v == VALID) {
			CHECK(r == 0 && x, "\"%s\" was rejected", text.c_str());
			check_network_object(x);
			CHECK(net_of(x) == m, "\"%s\" was read as %s instead of %s", text.c_str(), net_of(x).str().c_str(), m.str().c_str());
			s.label("accepted");
			s.nontrivial();

			// Printed and read again
			std::string printed = loc_network_str(x);
			struct loc_network* y = nullptr;
			CHECK(!loc_network_new_from_string(c.ctx, &y, printed.c_str()) && y, "%s cannot be read again", printed.c_str());
			bool same = loc_network_cmp(x, y) == 0 && net_of(y) == m;
			loc_network_unref(y);
			CHECK(same, "%s is read again as something else", printed.c_str());
		}

		// The writer reads the same language
		if (s.chance(20)) {
			Writer w(c);
			struct loc_network* y = nullptr;
			r = loc_writer_add_network(w.w, &y, text.c_str());
			struct G { struct loc_network* n; ~G() { if (n) loc_network_unref(n); } } g{r == 0 ? y : nullptr};
			if (v == INVALID) CHECK(r != 0, "\"%s\" was accepted by the writer", text.c_str());
			if (v == VALID) {
				CHECK(r == 0 && y, "\"%s\" was rejected by the writer", text.c_str());
				CHECK(net_of(y) == m, "\"%s\" was added as %s", text.c_str(), net_of(y).str().c_str());
			}
		}

		// So does the lookup, for single addresses
		if (d && text.find('/') == std::string::npos) {
			struct loc_network* y = nullptr;
			r = loc_database_lookup_from_string(d->db, text.c_str(), &y);
			struct G { struct loc_network* n; ~G() { if (n) loc_network_unref(n); } } g{r == 0 ? y : nullptr};
			if (v == INVALID) CHECK(r != 0, "\"%s\" was looked up", text.c_str());
			if (v == VALID) {
				CHECK(r == 0, "\"%s\" could not be looked up: %d", text.c_str(), r);
				const Entry* e = lpm(entries, m.addr);
				CHECK(!!y == !!e, "\"%s\" was %sfound", text.c_str(), y ? "" : "not ");
				if (y) CHECK(entry_of(y) == *e, "\"%s\" was looked up as %s instead of %s", text.c_str(), entry_of(y).str().c_str(), e->str().c_str());
				s.label("looked up");
			}
		}
	}
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C14",
		"addresses of both families are spelled in many ways (case, padding, any run of zeroes compressed, dotted tails, IPv4-mapped), with or without a prefix, half of them damaged by insertions, deletions, replacements and odd tails; "
		"an independent reader decides what the text means or that it is invalid, and network creation, the writer and text lookups must agree; printed text must be canonical and read back; "
		"non-trivial: accepted text, or text that became invalid by damage", property };
	return pbt::pbt_main(argc, argv, p);
}
