// Files are exactly what format version 1 demands, and all files of that format are read
#include <algorithm>
#include <functional>
#include <map>
#include "keys.hpp"
#include "records.hpp"

/*
	The format, as it has been since the first release:

	magic "LOCDBXX", version (1 byte); all numbers are big endian
	8  created at (64 bits)
	16 vendor, description, license (offsets in the string pool)
	28 ASes, 36 networks, 44 tree, 52 countries, 60 strings (offset and length in bytes each)
	68 length of signature 1 and 2 (16 bits each)
	72, 2120 signatures
	4168 padding of 32 bytes

	AS: number, name; country: code (2), continent (2), name
	network: country code (2), 2 unused, ASN, flags (16 bits), 2 unused
	node: zero, one (index of a node, 0 for none), network (index, ~0 for none)
*/
enum { AS_AT = 28, NET_AT = 36, TREE_AT = 44, COUNTRY_AT = 52, POOL_AT = 60, SIGLEN_AT = 68, SIG_AT = 72, SIG_MAX = 2048, HEADER = 4200, PAGE = 4096 };

static uint64_t get(const std::string& f, size_t at, unsigned n) {
	CHECK(at + n <= f.size(), "the file has %zu bytes, but there should be something at %zu", f.size(), at);
	uint64_t r = 0;
	for (unsigned i = 0; i < n; i++)
		r = r << 8 | (uint8_t)f[at + i];
	return r;
}

static void put(std::string& f, size_t at, unsigned n, uint64_t v) {
	for (unsigned i = 0; i < n; i++)
		f[at + i] = (char)(v >> (8 * (n - 1 - i)));
}

static bool by_net(const Entry& a, const Entry& b) { return a.net < b.net; }

struct Section {
	size_t at, length;
	Section(const std::string& f, size_t field, size_t size, const char* what) : at(get(f, field, 4)), length(get(f, field + 4, 4)) {
		CHECK(at + length <= f.size(), "the section of the %s ends after the file", what);
		CHECK(length % size == 0, "the section of the %s has %zu bytes", what, length);
		CHECK(!length || at >= HEADER, "the section of the %s is in the header", what);
	}
};

// What a file says, in the words of dump_db
static std::string decode(const std::string& f) {
	CHECK(f.substr(0, 7) == "LOCDBXX" && f[7] == 1, "the magic is wrong");
	Section pool(f, POOL_AT, 1, "strings"), ases(f, AS_AT, 8, "ASes"), nets(f, NET_AT, 12, "networks"), tree(f, TREE_AT, 12, "tree"), countries(f, COUNTRY_AT, 8, "countries");
	auto str = [&](size_t at) -> std::string {
		size_t o = get(f, at, 4);
		if (o >= pool.length)
			return "-";
		size_t e = f.find('\0', pool.at + o);
		CHECK(e < pool.at + pool.length, "a string does not end");
		return f.substr(pool.at + o, e - pool.at - o);
	};
	auto code = [&](size_t at) { return f[at] ? f.substr(at, 2) : ""; };
	std::string r = "vendor " + str(16) + "\ndescription " + str(20) + "\nlicense " + str(24) + "\n";
	r += pbt::fmt("ases %zu\n", ases.length / 8);
	for (size_t i = 0; i < ases.length; i += 8) {
		CHECK(!i || get(f, ases.at + i, 4) > get(f, ases.at + i - 8, 4), "the ASes are not in order");
		r += pbt::fmt("as %u %s\n", (unsigned)get(f, ases.at + i, 4), str(ases.at + i + 4).c_str());
	}
	for (size_t i = 0; i < countries.length; i += 8) {
		size_t at = countries.at + i;
		CHECK(!i || f.substr(at, 2) > f.substr(at - 8, 2), "the countries are not in order");
		std::string continent = code(at + 2);
		r += "country " + code(at) + " " + (continent.empty() ? "-" : continent) + " " + str(at + 4) + "\n";
	}
	std::vector<Entry> entries;
	std::vector<bool> seen(tree.length / 12);
	std::function<void(size_t, u128, unsigned)> walk = [&](size_t i, u128 a, unsigned depth) {
		CHECK(i < tree.length / 12, "node %zu does not exist", i);
		CHECK(!seen[i], "node %zu is in the tree twice", i);
		CHECK(depth <= 128, "the tree is too deep");
		seen[i] = true;
		size_t at = tree.at + i * 12;
		uint32_t n = get(f, at + 8, 4);
		if (n != 0xffffffff) {
			CHECK(n < nets.length / 12, "network %u does not exist", n);
			size_t x = nets.at + n * 12;
			Entry e;
			e.net = Net(a, depth);
			e.info.cc = code(x);
			e.info.asn = get(f, x + 4, 4);
			e.info.flags = get(f, x + 8, 2);
			entries.push_back(e);
		}
		for (int bit = 0; bit < 2; bit++)
			if (uint32_t c = get(f, at + bit * 4, 4))
				walk(c, bit ? a | (u128)1 << (127 - depth) : a, depth + 1);
	};
	if (tree.length)
		walk(0, 0, 0);
	std::sort(entries.begin(), entries.end(), by_net);
	for (auto& e : entries)
		r += "net " + e.str() + "\n";
	return r;
}

static KeyPair keys[2];

// What is signed is everything, with the signatures and their lengths being zero
static std::string to_sign(std::string f) {
	for (size_t i = SIGLEN_AT; i < SIG_AT + 2 * SIG_MAX; i++)
		f[i] = 0;
	return f;
}

static EVP_PKEY* read_key(const std::string& pem, bool priv) {
	BIO* b = BIO_new_mem_buf(pem.data(), pem.size());
	EVP_PKEY* k = priv ? PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr) : PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr);
	BIO_free(b);
	return k;
}

static bool signature_ok(const std::string& f, int slot, const KeyPair& key) {
	size_t n = get(f, SIGLEN_AT + 2 * slot, 2);
	CHECK(n && n <= SIG_MAX, "signature %d has %zu bytes", slot + 1, n);
	std::string data = to_sign(f);
	EVP_PKEY* k = read_key(key.pub, false);
	EVP_MD_CTX* m = EVP_MD_CTX_new();
	bool ok = EVP_DigestVerifyInit(m, nullptr, nullptr, nullptr, k) == 1 &&
		EVP_DigestVerify(m, (const unsigned char*)f.data() + SIG_AT + slot * SIG_MAX, n, (const unsigned char*)data.data(), data.size()) == 1;
	EVP_MD_CTX_free(m);
	EVP_PKEY_free(k);
	return ok;
}

static void sign(std::string& f, int slot, const KeyPair& key) {
	std::string data = to_sign(f);
	EVP_PKEY* k = read_key(key.priv, true);
	EVP_MD_CTX* m = EVP_MD_CTX_new();
	size_t n = SIG_MAX;
	std::string sig(n, '\0');
	if (EVP_DigestSignInit(m, nullptr, nullptr, nullptr, k) != 1 || EVP_DigestSign(m, (unsigned char*)&sig[0], &n, (const unsigned char*)data.data(), data.size()) != 1)
		_exit(99);
	EVP_MD_CTX_free(m);
	EVP_PKEY_free(k);
	put(f, SIGLEN_AT + 2 * slot, 2, n);
	f.replace(SIG_AT + slot * SIG_MAX, n, sig, 0, n);
}

// Some file that means these records
static std::string encode(pbt::Src& s, const Records& r, uint64_t created_at) {
	auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.choose(i)]); };

	// Strings, in any order, some of them twice, or the ends of others
	std::vector<std::string> strings = { "" };
	strings.push_back(r.vendor); strings.push_back(r.description); strings.push_back(r.license);
	for (auto& a : r.ases) strings.push_back(a.name);
	for (auto& c : r.countries) strings.push_back(c.name);
	for (size_t i = 0, n = s.choose(3); i < n; i++) strings.push_back("unused");
	shuffle(strings);
	std::string pool;
	auto find = [&](const std::string& x) { return pool.find(x + std::string(1, '\0')); };
	bool twice = s.coin(), ends = s.coin();
	for (auto& x : strings) {
		size_t at = find(x);
		if (at == std::string::npos || twice || (!ends && at && pool[at - 1]))
			pool += x + std::string(1, '\0');
	}
	auto ref = [&](const std::string& x) -> uint32_t {
		// Any of the places it is at
		std::vector<size_t> at;
		for (size_t i = find(x); i != std::string::npos && at.size() < 8; i = pool.find(x + std::string(1, '\0'), i + 1)) at.push_back(i);
		return s.of(at);
	};

	std::string ases, countries, nets, tree;
	std::map<uint32_t, std::string> by_number;
	for (auto& a : r.ases) by_number[a.number] = a.name;
	for (auto& a : by_number) {
		std::string x(8, '\0');
		put(x, 0, 4, a.first); put(x, 4, 4, ref(a.second));
		ases += x;
	}
	std::map<std::string, CountryRec> by_code;
	for (auto& c : r.countries) by_code[c.code] = c;
	for (auto& c : by_code) {
		std::string x(8, '\0');
		x.replace(0, 2, c.first);
		if (c.second.placed) x.replace(2, 2, c.second.continent);
		put(x, 4, 4, ref(c.second.name));
		countries += x;
	}

	// The networks, in any order, some of them unused, equal ones shared or not
	bool share = s.coin(), junk = s.coin();
	struct Node { int zero = -1, one = -1, net = -1; unsigned depth = 0; size_t index = 0; };
	std::vector<Node> nodes(1);
	std::vector<std::string> net_records;
	for (auto& e : r.entries) {
		int at = 0;
		for (unsigned i = 0; i < e.net.plen; i++) {
			bool bit = e.net.addr >> (127 - i) & 1;
			int next = bit ? nodes[at].one : nodes[at].zero;
			if (next < 0) {
				next = nodes.size();
				nodes.push_back(Node());
				nodes[next].depth = i + 1;
				(bit ? nodes[at].one : nodes[at].zero) = next;
			}
			at = next;
		}
		std::string x(12, '\0');
		x.replace(0, e.info.cc.size(), e.info.cc);
		put(x, 4, 4, e.info.asn); put(x, 8, 2, e.info.flags);
		if (junk) { put(x, 2, 2, s.choose(65536)); put(x, 10, 2, s.choose(65536)); }
		size_t n = net_records.size();
		if (share)
			for (size_t i = 0; i < net_records.size(); i++)
				if (net_records[i] == x) n = i;
		if (n == net_records.size()) net_records.push_back(x);
		nodes[at].net = n;
	}
	std::vector<size_t> where;
	for (size_t i = 0; i < net_records.size() + (junk ? 2 : 0); i++) where.push_back(i);
	shuffle(where);
	nets.assign(where.size() * 12, '\x41');
	for (size_t i = 0; i < net_records.size(); i++) nets.replace(where[i] * 12, 12, net_records[i]);

	// Branches that lead nowhere
	if (junk && s.coin() && nodes.size() > 1) {
		size_t at = s.choose(nodes.size());
		Node& n = nodes[at];
		if (n.depth < 128 && (n.zero < 0 || n.one < 0)) {
			(n.zero < 0 ? n.zero : n.one) = nodes.size();
			nodes.push_back(Node());
		}
	}
	// The tree, depth first, breadth first or in any order, with the root at the beginning
	std::vector<size_t> order;
	switch (s.choose(3)) {
		case 0:
			for (size_t i = 0; i < nodes.size(); i++) order.push_back(i);
			break;
		case 1: {
			std::vector<size_t> queue = { 0 };
			for (size_t i = 0; i < queue.size(); i++) {
				order.push_back(queue[i]);
				if (nodes[queue[i]].zero >= 0) queue.push_back(nodes[queue[i]].zero);
				if (nodes[queue[i]].one >= 0) queue.push_back(nodes[queue[i]].one);
			}
			break;
		}
		default: {
			std::vector<size_t> rest;
			for (size_t i = 1; i < nodes.size(); i++) rest.push_back(i);
			// Drawing a number for each node would be too much
			uint64_t x = s.choose(1ull << 32) | 1;
			for (size_t i = rest.size(); i > 1; i--) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap(rest[i - 1], rest[(x >> 33) % i]); }
			order.push_back(0);
			order.insert(order.end(), rest.begin(), rest.end());
		}
	}
	for (size_t i = 0; i < order.size(); i++) nodes[order[i]].index = i;
	for (size_t i : order) {
		std::string x(12, '\0');
		const Node& n = nodes[i];
		put(x, 0, 4, n.zero < 0 ? 0 : nodes[n.zero].index);
		put(x, 4, 4, n.one < 0 ? 0 : nodes[n.one].index);
		put(x, 8, 4, n.net < 0 ? 0xffffffff : where[n.net]);
		tree += x;
	}
	// An empty tree may have no root
	if (r.entries.empty() && s.coin()) tree.clear();

	std::string f(HEADER, '\0');
	f.replace(0, 8, "LOCDBXX\x01");
	put(f, 8, 8, created_at);
	put(f, 16, 4, ref(r.vendor)); put(f, 20, 4, ref(r.description)); put(f, 24, 4, ref(r.license));
	if (junk) for (size_t i = HEADER - 32; i < HEADER; i++) f[i] = (char)i;
	std::vector<std::pair<size_t, const std::string*>> sections = { {AS_AT, &ases}, {NET_AT, &nets}, {TREE_AT, &tree}, {COUNTRY_AT, &countries}, {POOL_AT, &pool} };
	shuffle(sections);
	for (auto& x : sections) {
		size_t gap = s.chance(20) ? PAGE : 0;
		f.resize((f.size() + PAGE - 1) / PAGE * PAGE + gap, junk ? '\xee' : '\0');
		put(f, x.first, 4, f.size());
		put(f, x.first + 4, 4, x.second->size());
		f += *x.second;
	}
	if (s.coin()) f.resize((f.size() + PAGE - 1) / PAGE * PAGE);
	return f;
}

static std::string expected(Records r) {
	std::string x = "vendor " + r.vendor + "\ndescription " + r.description + "\nlicense " + r.license + "\n";
	x += pbt::fmt("ases %zu\n", r.ases.size());
	std::sort(r.ases.begin(), r.ases.end(), [](const AsRec& a, const AsRec& b) { return a.number < b.number; });
	std::sort(r.countries.begin(), r.countries.end(), [](const CountryRec& a, const CountryRec& b) { return a.code < b.code; });
	std::sort(r.entries.begin(), r.entries.end(), by_net);
	for (auto& a : r.ases) x += pbt::fmt("as %u %s\n", a.number, a.name.c_str());
	for (auto& c : r.countries) x += "country " + c.code + " " + (c.placed ? c.continent : "-") + " " + c.name + "\n";
	for (auto& e : r.entries) x += "net " + e.str() + "\n";
	return x;
}

static int verify(struct loc_database* db, const KeyPair& key) {
	FILE* f = text_file(key.pub);
	int r = loc_database_verify(db, f);
	fclose(f);
	return r;
}

// What the library writes
static void written(pbt::Src& s, Ctx& c, const Records& r) {
	int k[2];
	FILE* kf[2] = {};
	for (int i = 0; i < 2; i++) {
		k[i] = s.chance(30) ? (int)s.choose(2) : -1;
		if (k[i] >= 0) kf[i] = text_file(keys[k[i]].priv);
	}
	File f;
	uint64_t before = time(nullptr), after;
	{
		Writer w(c, kf[0], kf[1]);
		put_records(w.w, r);
		CHECK(!loc_writer_write(w.w, f.f, s.coin() ? LOC_DATABASE_VERSION_UNSET : LOC_DATABASE_VERSION_1), "could not write the database");
		after = time(nullptr);
	}
	for (FILE* x : kf) if (x) fclose(x);
	std::string bytes = f.bytes();
	Db d(c, f);
	std::string a = decode(bytes), b = dump_db(c, d.db);
	CHECK(a == b, "the file says\n%sbut the library says\n%s", a.c_str(), b.c_str());
	uint64_t t = get(bytes, 8, 8);
	CHECK(t >= before && t <= after, "the file was created at %llu instead of %llu", (unsigned long long)t, (unsigned long long)before);
	CHECK((uint64_t)loc_database_created_at(d.db) == t, "the library says that the file was created at %lld", (long long)loc_database_created_at(d.db));
	for (int i = 0; i < 2; i++) {
		if (k[i] < 0) {
			CHECK(!get(bytes, SIGLEN_AT + 2 * i, 2), "there is a signature %d without a key", i + 1);
			continue;
		}
		CHECK(signature_ok(bytes, i, keys[k[i]]), "signature %d is wrong", i + 1);
		s.label("signed");
	}
	s.say("%zu bytes", bytes.size());
}

// What somebody else has written
static void foreign(pbt::Src& s, Ctx& c, const Records& r, const NetOpts& o) {
	uint64_t created_at = s.coin() ? s.choose(1ull << 32) : s.choose(1ull << 40);
	std::string bytes = encode(s, r, created_at);
	int k = s.chance(30) ? (int)s.choose(2) : -1, slot = s.choose(2);
	if (k >= 0) {
		sign(bytes, slot, keys[k]);
		s.label("signed");
	}
	// There may be another signature of any length, made with a key that nobody knows
	if (s.chance(30)) {
		int other = k >= 0 ? 1 - slot : (int)s.choose(2);
		static const std::vector<size_t> lengths = { 1, 64, 139, 256, 512, 2047, 2048, 2048 };
		size_t n = s.coin() ? s.of(lengths) : 1 + s.choose(SIG_MAX);
		bytes[SIGLEN_AT + 2 * other] = n >> 8;
		bytes[SIGLEN_AT + 2 * other + 1] = n & 0xff;
		for (size_t i = 0; i < n; i++) bytes[SIGLEN_AT + 4 + SIG_MAX * other + i] = 0x30 + i % 7 + n % 64;
		s.say("signature %d has %zu bytes from elsewhere; ", other + 1, n);
		s.label("another signature");
	}
	std::string want = expected(r);
	if (decode(bytes) != want) { fprintf(stderr, "the encoder is broken:\n%s---\n%s", decode(bytes).c_str(), want.c_str()); _exit(99); }
	File f;
	f.set(bytes);
	Db d(c, f);
	std::string got = dump_db(c, d.db);
	CHECK(got == want, "the file says\n%sbut the library says\n%s", want.c_str(), got.c_str());
	CHECK((uint64_t)loc_database_created_at(d.db) == created_at, "the library says that the file was created at %lld instead of %llu", (long long)loc_database_created_at(d.db), (unsigned long long)created_at);
	for (size_t i = 0, n = s.choose(8); i < n; i++) {
		u128 a = gen_probe(s, r.entries, o);
		const Entry* e = lpm(r.entries, a);
		Entry got;
		bool found = d.lookup(a, &got);
		CHECK(found == (e != nullptr), "%s was %sfound", addr_str(a).c_str(), found ? "" : "not ");
		CHECK(!found || got == *e, "%s is in %s instead of %s", addr_str(a).c_str(), got.str().c_str(), e->str().c_str());
	}
	for (auto& a : r.ases) {
		struct loc_as* as = nullptr;
		CHECK(!loc_database_get_as(d.db, &as, a.number) && as, "AS%u was not found", a.number);
		std::string name = loc_as_get_name(as) ? loc_as_get_name(as) : "";
		loc_as_unref(as);
		CHECK(name == a.name, "AS%u is %s", a.number, name.c_str());
	}
	for (auto& x : r.countries) {
		struct loc_country* n = nullptr;
		CHECK(!loc_database_get_country(d.db, &n, x.code.c_str()) && n, "%s was not found", x.code.c_str());
		loc_country_unref(n);
	}
	for (int i = 0; i < 2; i++) {
		int v = verify(d.db, keys[i]);
		CHECK((v == 0) == (k == i), "the signature by key %d is %s for key %d", k, v ? "wrong" : "right", i);
	}
	s.say("%zu bytes from elsewhere, signed by %d in slot %d", bytes.size(), k, slot + 1);
}

static void property(pbt::Src& s) {
	NetOpts o;
	Records r = gen_records(s, 16, o, s.coin());
	say_entries(s, r.entries);
	Ctx c;
	if (s.coin()) written(s, c, r);
	else foreign(s, c, r, o);
	if (r.entries.size() > 1 && r.ases.size() + r.countries.size() > 1) s.nontrivial();
}

static void setup() {
	keys[0] = make_keypair(EVP_EC_gen("P-521"));
	keys[1] = make_keypair(EVP_EC_gen("P-256"));
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C31",
		"0-16 related networks, 0-24 ASes, 0-16 countries and metadata are either written by the library, and the file decoded by an independent decoder of the format, or encoded by an independent encoder (sections, nodes, records and strings in any order, shared, repeated or unused ones, gaps, any padding) and read by the library; signatures are made and checked independently, too; "
		"non-trivial: at least two networks, and two ASes or countries", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
