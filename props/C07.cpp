#include <memory>
// Signature verification accepts exactly what was signed
#include "bigkey.hpp"
#include "loc.hpp"
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>

struct Key { std::string type, priv, pub; };
static std::vector<Key> keys;

static void make_key(const char* type, EVP_PKEY* k) {
	if (!k) { fprintf(stderr, "could not make a key: %s\n", type); _exit(99); }
	Key r;
	r.type = type;
	for (int i = 0; i < 2; i++) {
		BIO* b = BIO_new(BIO_s_mem());
		if (i) PEM_write_bio_PUBKEY(b, k); else PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
		char* p; long n = BIO_get_mem_data(b, &p);
		(i ? r.pub : r.priv).assign(p, n);
		BIO_free(b);
	}
	EVP_PKEY_free(k);
	keys.push_back(r);
}

static void setup() {
	make_key("P-256", EVP_EC_gen("P-256"));
	make_key("P-256", EVP_EC_gen("P-256"));
	make_key("P-521", EVP_EC_gen("P-521"));
	make_key("P-384", EVP_EC_gen("P-384"));
	make_key("RSA-2048", EVP_RSA_gen(2048));
	make_key("RSA-1024", EVP_RSA_gen(1024));
}

static FILE* text_file(const std::string& s) {
	FILE* f = mem_file();
	fwrite(s.data(), 1, s.size(), f);
	fflush(f);
	rewind(f);
	return f;
}

// Where the format keeps the signatures: two lengths, two buffers
static const size_t SIG_LENGTHS = 68, SIG1 = 72, SIG2 = SIG1 + 2048, SIG_END = SIG2 + 2048;

static int verify(Ctx& c, struct loc_database* db, const std::string& key) {
	FILE* f = text_file(key);
	int r = loc_database_verify(db, f);
	fclose(f);
	return r;
}

static bool big = false;

static void property(pbt::Src& s) {
	Ctx c;
	NetOpts o;
	std::vector<Entry> db = gen_entries(s, 12, o, true);

	int k1 = s.chance(75) ? (int)s.choose(keys.size()) : -1;
	int k2 = s.chance(50) ? (int)s.choose(keys.size()) : -1;
	if (big) (s.coin() ? k1 : k2) = keys.size() - 1;
	FILE* f1 = k1 >= 0 ? text_file(keys[k1].priv) : nullptr;
	FILE* f2 = k2 >= 0 ? text_file(keys[k2].priv) : nullptr;
	s.say("%zu networks, signed by key %d (%s) and key %d (%s); ", db.size(), k1, k1 >= 0 ? keys[k1].type.c_str() : "", k2, k2 >= 0 ? keys[k2].type.c_str() : "");

	File f;
	{
		Writer w(c, f1, f2);
		if (f1) fclose(f1);
		if (f2) fclose(f2);
		for (const Entry& e : db)
			w.add(e);
		if (s.coin())
			loc_writer_set_vendor(w.w, "Vendor");
		// Sometimes make it larger than one chunk
		if (s.chance(10))
			loc_writer_set_description(w.w, std::string(50000 + s.choose(s.chance(3) ? 3000000 : 100000), 'x').c_str());
		int n = 1 + s.chance(15);
		for (int i = 0; i < n; i++) {
			int r = loc_writer_write(w.w, f.f, LOC_DATABASE_VERSION_UNSET);
			CHECK(r == 0, "could not write the signed database: %d", r);
		}
	}
	std::string bytes = f.bytes();

	// The stream belongs to somebody else, who may use it for anything
	auto use = [&](FILE* x) {
		if (!s.chance(30)) return;
		char buffer[100];
		if (fseek(x, s.choose(bytes.size() + 100), SEEK_SET)) pbt::fail("fseek");
		if (s.coin() && fread(buffer, 1, 1 + s.choose(sizeof(buffer)), x)) {}
		s.label("stream in use");
	};

	// Every key, in any order, several times on the same handle
	{
		use(f.f);
		Db d(c, f);
		std::unique_ptr<Db> other;
		if (s.chance(10)) other.reset(new Db(c, f));
		for (size_t i = 0, n = 2 + s.choose(6); i < n; i++) {
			int k = s.choose(keys.size());
			if (i == 0 && k1 >= 0) k = k1;
			if (i == 1 && k2 >= 0) k = k2;
			bool want = k == k1 || k == k2;
			if (s.chance(20)) {
				Entry x;
				d.lookup(gen_probe(s, db, o), &x);
			}
			use(f.f);
			int r = verify(c, other && s.coin() ? other->db : d.db, keys[k].pub);
			CHECK((r == 0) == want, "signed by keys %d and %d: verification with key %d (%s) returns %d", k1, k2, k, keys[k].type.c_str(), r);
		}
		// Not a key
		if (s.chance(30)) {
			static const std::vector<std::string> junk = { "", "garbage", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n" };
			std::string j = s.chance(30) && k1 >= 0 ? keys[k1].pub.substr(0, keys[k1].pub.size() / 2) : s.of(junk);
			CHECK(verify(c, d.db, j) != 0, "the database verifies with something that is not a key");
		}
	}

	// Now change it
	int signer = k1 >= 0 ? k1 : k2;
	if (signer < 0) {
		s.label("unsigned");
		return;
	}

	for (size_t i = 0, n = 1 + s.choose(4); i < n; i++) {
		std::string m = bytes;
		std::string what;
		switch (s.pick({6, 1, 2, 2, 2})) {
			// Any byte that is not part of the signatures
			case 0: {
				size_t pos;
				switch (s.pick({3, 2, 2, 3})) {
					case 0: pos = s.choose(SIG_LENGTHS); break;
					case 1: pos = SIG_END + s.choose(m.size() - SIG_END); break;
					case 2: pos = SIG_END + s.choose(40); break;
					default: pos = 8192 + s.choose(m.size() - 8192); break;
				}
				uint8_t x = 1 + s.choose(255);
				m[pos] ^= x;
				what = pbt::fmt("byte %zu ^ %02x", pos, x);
				break;
			}
			// The signature itself, if there is only one
			case 1: {
				if (k1 >= 0 && k2 >= 0)
					continue;
				size_t len_at = SIG_LENGTHS + (k1 >= 0 ? 0 : 2);
				size_t len = ((uint8_t)m[len_at] << 8) | (uint8_t)m[len_at + 1];
				CHECK(len > 0 && len <= 2048, "signed, but the signature has a length of %zu", len);
				size_t pos = (k1 >= 0 ? SIG1 : SIG2) + s.choose(len);
				uint8_t x = 1 + s.choose(255);
				m[pos] ^= x;
				what = pbt::fmt("signature byte %zu ^ %02x", pos, x);
				break;
			}
			case 2: {
				size_t len = s.chance(50) ? m.size() - 1 - s.choose(std::min<size_t>(m.size() - 1, 64)) : s.choose(m.size());
				m.resize(len);
				what = pbt::fmt("cut to %zu of %zu bytes", len, bytes.size());
				break;
			}
			case 3: {
				size_t len = s.chance(20) ? 1 + s.choose(70000) : 1 + s.choose(16);
				m += std::string(len, s.coin() ? '\0' : 'x');
				what = pbt::fmt("%zu bytes appended", len);
				break;
			}
			// Strip the signatures
			default:
				memset(&m[SIG_LENGTHS], 0, SIG_END - SIG_LENGTHS);
				what = "signatures removed";
				break;
		}

		File g;
		g.set(m);
		use(g.f);
		struct loc_database* d = nullptr;
		int r = loc_database_new(c.ctx, &d, g.f);
		if (r)
			continue;
		r = verify(c, d, keys[signer].pub);
		int r2 = k2 >= 0 ? verify(c, d, keys[k2].pub) : 1;
		loc_database_unref(d);
		CHECK(r != 0 && r2 != 0, "the database still verifies after: %s", what.c_str());
		s.say("%s: rejected; ", what.c_str());
		s.nontrivial();
		s.label("tampered, opened, rejected");
	}
	if (k1 >= 0 && k2 >= 0 && keys[k1].type != keys[k2].type) s.label("two key types");
	if (k1 < 0) s.label("second slot only");
}

// With a signature that fills all of the space there is for it
static void large(pbt::Src& s) {
	BIO* b = BIO_new_mem_buf(RSA_16384, -1);
	EVP_PKEY* k = PEM_read_bio_PrivateKey(b, NULL, NULL, NULL);
	BIO_free(b);
	if (!k) { fprintf(stderr, "the key is broken\n"); _exit(99); }
	make_key("RSA-16384", k);
	big = true;
	property(s);
	big = false;
	keys.pop_back();
	s.label("signature of 2048 bytes");
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C07",
		"a generated database is written with any of six keys (EC P-256/384/521, RSA) or none in each slot, verified with all keys in any order, then tampered with (any byte, cut, appended, signature changed or removed); "
		"non-trivial: a tampered copy of a signed database opened and was put to verification; in addition, some with signatures of the maximal length", property, setup, large, 8 };
	return pbt::pbt_main(argc, argv, p);
}
