// Objects are memory-safe and leak-free under any sequence of API calls
#include <memory>
#include <openssl/err.h>
#include "keys.hpp"
#include "leak.hpp"
#include "records.hpp"

/*
	A case is a plan: a list of operations with numbers as arguments, drawn before anything runs.
	The plan is then carried out; numbers select among what exists at that time. So it can be
	carried out again to tell a leak from a cache being filled.
*/
struct Op { unsigned code; uint64_t a, b, c; std::string text; };

static KeyPair key;

struct NetM { Net net; Info info; };
struct AsM { uint32_t number; bool named; std::string name; };
struct CcM { std::string code; bool named; std::string name; bool placed; std::string continent; };

template <class P, class M> struct Handle { P* p; unsigned refs; std::shared_ptr<M> m; };

struct DbM { std::vector<Entry> entries; std::vector<AsRec> ases; };
struct DbH { struct loc_database* p; unsigned refs; };
struct EnumH { struct loc_database_enumerator* p; unsigned refs; enum loc_database_enumerator_mode mode; bool started; std::string text; bool has_text; };
struct WriterH { struct loc_writer* p; unsigned refs; std::string vendor, description, license; bool v = false, d = false, l = false; };
template <class P> struct ListH { P* p; unsigned refs; };

struct World {
	struct loc_ctx* ctx = nullptr;
	std::vector<Handle<struct loc_network, NetM>> nets;
	std::vector<Handle<struct loc_as, AsM>> ases;
	std::vector<Handle<struct loc_country, CcM>> ccs;
	std::vector<ListH<struct loc_network_list>> netlists;
	std::vector<ListH<struct loc_as_list>> aslists;
	std::vector<ListH<struct loc_country_list>> cclists;
	std::vector<WriterH> writers;
	std::vector<DbH> dbs;
	std::vector<EnumH> enums;
	std::vector<std::string> files;
	unsigned outlived = 0, failures = 0;

	World() { fresh_ctx(); }
	void fresh_ctx() {
		if (ctx) loc_unref(ctx);
		ctx = nullptr;
		if (loc_new(&ctx)) pbt::fail("loc_new failed");
		loc_set_log_fn(ctx, quiet_log);
		loc_set_log_priority(ctx, 0);
	}
	~World() {
		if (ctx) loc_unref(ctx);
		auto drop = [](auto& v, auto f) { for (auto& x : v) while (x.refs--) f(x.p); v.clear(); };
		drop(dbs, loc_database_unref);
		drop(writers, loc_writer_unref);
		drop(netlists, loc_network_list_unref);
		drop(aslists, loc_as_list_unref);
		drop(cclists, loc_country_list_unref);
		drop(enums, loc_database_enumerator_unref);
		drop(nets, loc_network_unref);
		drop(ases, loc_as_unref);
		drop(ccs, loc_country_unref);
	}
	World(const World&) = delete;
};

template <class V> static auto* pick(V& v, uint64_t i) { return v.empty() ? nullptr : &v[i % v.size()]; }

// Takes over one reference
static void adopt(World& w, struct loc_network* n) {
	if (!n) return;
	for (auto& h : w.nets) if (h.p == n) { h.refs++; return; }
	check_network_object(n);
	w.nets.push_back({ n, 1, std::make_shared<NetM>(NetM{ net_of(n), info_of(n) }) });
}
static void adopt(World& w, struct loc_as* a) {
	if (!a) return;
	for (auto& h : w.ases) if (h.p == a) { h.refs++; return; }
	const char* name = loc_as_get_name(a);
	w.ases.push_back({ a, 1, std::make_shared<AsM>(AsM{ loc_as_get_number(a), name != nullptr, name ? name : "" }) });
}
static void adopt(World& w, struct loc_country* c) {
	if (!c) return;
	for (auto& h : w.ccs) if (h.p == c) { h.refs++; return; }
	const char* name = loc_country_get_name(c);
	const char* cont = loc_country_get_continent_code(c);
	w.ccs.push_back({ c, 1, std::make_shared<CcM>(CcM{ loc_country_get_code(c), name != nullptr, name ? name : "", cont != nullptr, cont ? cont : "" }) });
}
static void adopt(World& w, struct loc_network_list* l) { if (l) w.netlists.push_back({ l, 1 }); }

static void verify(const Handle<struct loc_network, NetM>& h) {
	check_network_object(h.p);
	Net n = net_of(h.p);
	Info i = info_of(h.p);
	CHECK(n == h.m->net, "network %s has become %s", h.m->net.str().c_str(), n.str().c_str());
	CHECK(i == h.m->info, "network %s has %s instead of %s", n.str().c_str(), i.str().c_str(), h.m->info.str().c_str());
}
static void verify(const Handle<struct loc_as, AsM>& h) {
	const char* name = loc_as_get_name(h.p);
	CHECK(loc_as_get_number(h.p) == h.m->number, "AS%u has become AS%u", h.m->number, loc_as_get_number(h.p));
	CHECK(h.m->named || h.m->name.empty() ? (h.m->named ? name && h.m->name == name : !name || !*name) : false, "AS%u is named \"%s\" instead of \"%s\"", h.m->number, name ? name : "(null)", h.m->named ? h.m->name.c_str() : "(null)");
}
static void verify(const Handle<struct loc_country, CcM>& h) {
	const char* name = loc_country_get_name(h.p);
	const char* cont = loc_country_get_continent_code(h.p);
	CHECK(h.m->code == loc_country_get_code(h.p), "country %s has become %s", h.m->code.c_str(), loc_country_get_code(h.p));
	CHECK(h.m->named ? name && h.m->name == name : !name || !*name, "country %s is named \"%s\" instead of \"%s\"", h.m->code.c_str(), name ? name : "(null)", h.m->named ? h.m->name.c_str() : "(null)");
	CHECK(h.m->placed ? cont && h.m->continent == cont : !cont || !*cont, "country %s is on \"%s\" instead of \"%s\"", h.m->code.c_str(), cont ? cont : "(null)", h.m->placed ? h.m->continent.c_str() : "(null)");
}

template <class V, class R, class U> static void refs(V& v, const Op& o, R ref, U unref, World& w) {
	auto* h = pick(v, o.a);
	if (!h) return;
	if (o.b % 3 == 0 && h->refs < 5) {
		auto* r = ref(h->p);
		h->refs++;
		CHECK(r == h->p, "taking a reference returned something else");
	} else {
		auto* p = h->p;
		if (--h->refs == 0)
			v.erase(v.begin() + (h - v.data()));
		unref(p);
	}
}

static FILE* file_with(const std::string& bytes) { return text_file(bytes); }

static void step(World& w, const Op& o) {
	switch (o.code) {
		// Networks
		case 0: {
			struct loc_network* n = nullptr;
			int r = loc_network_new_from_string(w.ctx, &n, o.text.c_str());
			CHECK((r == 0) == (n != nullptr), "parsing \"%s\" returned %d and %s", o.text.c_str(), r, n ? "a network" : "nothing");
			if (r) w.failures++;
			adopt(w, n);
			break;
		}
		case 1: {
			struct loc_network* n = nullptr;
			u128 addr = o.a & 1 ? V4BASE | (uint32_t)o.b : ((u128)o.b << 64) | 1;
			in6_addr a = to_in6(addr);
			int r = loc_network_new(w.ctx, &n, &a, (unsigned)(o.c % 140));
			CHECK((r == 0) == (n != nullptr), "creating a network returned %d and %s", r, n ? "a network" : "nothing");
			if (r) w.failures++;
			adopt(w, n);
			break;
		}
		case 2: refs(w.nets, o, loc_network_ref, loc_network_unref, w); break;
		case 3: if (auto* h = pick(w.nets, o.a)) {
			switch (o.b % 4) {
				case 0: {
					static const char* codes[] = { "DE", "FR", "", nullptr, "DEU", "D", "xx", "XX", "A1", "ZZ", "d\xc3" };
					const char* cc = codes[o.c % 11];
					int r = loc_network_set_country_code(h->p, cc);
					if (r == 0) h->m->info.cc = cc ? cc : "";
					else w.failures++;
					break;
				}
				case 1: CHECK(!loc_network_set_asn(h->p, (uint32_t)o.c), "set_asn failed"); h->m->info.asn = (uint32_t)o.c; break;
				case 2: CHECK(!loc_network_set_flag(h->p, o.c % 16), "set_flag failed"); h->m->info.flags |= o.c % 16; break;
				default: {
					(void)loc_network_matches_country_code(h->p, o.text.c_str());
					std::string a = loc_network_format_first_address(h->p), b = loc_network_format_last_address(h->p);
					CHECK(a == addr_str(h->m->net.first()) && b == addr_str(h->m->net.last()), "network %s prints as %s - %s", h->m->net.str().c_str(), a.c_str(), b.c_str());
				}
			}
			break;
		} break;
		case 4: if (auto* h = pick(w.nets, o.a)) {
			struct loc_network *s1 = nullptr, *s2 = nullptr;
			int r = loc_network_subnets(h->p, &s1, &s2);
			CHECK((r == 0) == (h->m->net.plen < 128), "splitting %s returned %d", h->m->net.str().c_str(), r);
			if (r) w.failures++;
			else { adopt(w, s1); adopt(w, s2); }
		} break;
		case 5: if (auto* h = pick(w.nets, o.a)) {
			auto* x = pick(w.nets, o.b);
			auto* l = pick(w.netlists, o.b);
			// Excluding something that is not a part of it returns nothing
			if (o.c % 2 && l) adopt(w, loc_network_exclude_list(h->p, l->p));
			else adopt(w, loc_network_exclude(h->p, x->p));
		} break;
		case 6: if (auto* h = pick(w.nets, o.a)) {
			static const char* suffixes[] = { nullptr, "in-addr.arpa", "x", "zone.example" };
			char* p = loc_network_reverse_pointer(h->p, suffixes[o.b % 4]);
			if (!p) w.failures++;
			free(p);
		} break;
		case 7: if (auto* h = pick(w.nets, o.a)) {
			auto* x = pick(w.nets, o.b);
			(void)loc_network_cmp(h->p, x->p);
			(void)loc_network_overlaps(h->p, x->p);
			(void)loc_network_is_subnet(h->p, x->p);
			(void)loc_network_matches_address(h->p, loc_network_get_last_address(x->p));
		} break;

		// ASes and countries
		case 8: {
			struct loc_as* a = nullptr;
			CHECK(!loc_as_new(w.ctx, &a, (uint32_t)o.a) && a, "loc_as_new failed");
			adopt(w, a);
			break;
		}
		case 9: refs(w.ases, o, loc_as_ref, loc_as_unref, w); break;
		case 10: if (auto* h = pick(w.ases, o.a)) {
			const char* name = o.b % 4 ? o.text.c_str() : nullptr;
			CHECK(!loc_as_set_name(h->p, name), "loc_as_set_name failed");
			h->m->named = name; h->m->name = name ? name : "";
		} break;
		case 11: {
			struct loc_country* c = nullptr;
			int r = loc_country_new(w.ctx, &c, o.text.c_str());
			CHECK((r == 0) == (c != nullptr), "creating country \"%s\" returned %d and %s", o.text.c_str(), r, c ? "a country" : "nothing");
			if (r) w.failures++;
			adopt(w, c);
			break;
		}
		case 12: refs(w.ccs, o, loc_country_ref, loc_country_unref, w); break;
		case 13: if (auto* h = pick(w.ccs, o.a)) {
			if (o.b % 2) {
				const char* name = o.c % 4 ? o.text.c_str() : nullptr;
				CHECK(!loc_country_set_name(h->p, name), "loc_country_set_name failed");
				h->m->named = name; h->m->name = name ? name : "";
			} else {
				static const char* codes[] = { "EU", "AS", "", nullptr, "EUR", "E", "AF" };
				const char* code = codes[o.c % 7];
				int r = loc_country_set_continent_code(h->p, code);
				if (r == 0) { h->m->placed = true; h->m->continent = code ? code : ""; }
				else w.failures++;
			}
		} break;

		// Lists
		case 14: {
			if (o.a % 3 == 0) { struct loc_network_list* l = nullptr; CHECK(!loc_network_list_new(w.ctx, &l), "loc_network_list_new"); w.netlists.push_back({l, 1}); }
			else if (o.a % 3 == 1) { struct loc_as_list* l = nullptr; CHECK(!loc_as_list_new(w.ctx, &l), "loc_as_list_new"); w.aslists.push_back({l, 1}); }
			else { struct loc_country_list* l = nullptr; CHECK(!loc_country_list_new(w.ctx, &l), "loc_country_list_new"); w.cclists.push_back({l, 1}); }
			break;
		}
		case 15: refs(w.netlists, o, loc_network_list_ref, loc_network_list_unref, w); break;
		case 16: refs(w.aslists, o, loc_as_list_ref, loc_as_list_unref, w); break;
		case 17: refs(w.cclists, o, loc_country_list_ref, loc_country_list_unref, w); break;
		case 18: if (auto* l = pick(w.netlists, o.a)) {
			auto* h = pick(w.nets, o.b);
			switch (o.c % 9) {
				case 0: case 1: case 2: if (h) CHECK(!loc_network_list_push(l->p, h->p), "push failed"); break;
				case 3: adopt(w, loc_network_list_pop(l->p)); break;
				case 4: adopt(w, loc_network_list_pop_first(l->p)); break;
				case 5: adopt(w, loc_network_list_get(l->p, o.b % 8)); break;
				case 6: if (h) (void)loc_network_list_remove(l->p, h->p); break;
				case 7: if (auto* k = pick(w.netlists, o.b)) CHECK(!loc_network_list_merge(l->p, k->p), "merge failed"); break;
				default: if (o.b % 2) loc_network_list_clear(l->p); else loc_network_list_dump(l->p); break;
			}
		} break;
		case 19: if (auto* l = pick(w.aslists, o.a)) {
			auto* h = pick(w.ases, o.b);
			switch (o.c % 6) {
				case 0: case 1: case 2: if (h) CHECK(!loc_as_list_append(l->p, h->p), "append failed"); break;
				case 3: adopt(w, loc_as_list_get(l->p, o.b % 4)); break;
				case 4: loc_as_list_sort(l->p); break;
				default: loc_as_list_clear(l->p); break;
			}
		} break;
		case 20: if (auto* l = pick(w.cclists, o.a)) {
			auto* h = pick(w.ccs, o.b);
			switch (o.c % 6) {
				case 0: case 1: case 2: if (h) CHECK(!loc_country_list_append(l->p, h->p), "append failed"); break;
				case 3: adopt(w, loc_country_list_get(l->p, o.b % 4)); break;
				case 4: loc_country_list_sort(l->p); break;
				default: loc_country_list_clear(l->p); break;
			}
		} break;

		// Writers
		case 21: {
			FILE* k1 = nullptr; FILE* k2 = nullptr;
			bool bad = false;
			if (o.a % 8 == 0) k1 = file_with(key.priv);
			if (o.a % 8 == 1) { k1 = file_with(key.priv); k2 = file_with("not a key"); bad = true; }
			if (o.a % 8 == 2) { k1 = file_with(""); bad = true; }
			if (o.a % 8 == 3) { k2 = file_with(key.priv); }
			struct loc_writer* p = nullptr;
			int r = loc_writer_new(w.ctx, &p, k1, k2);
			if (k1) fclose(k1);
			if (k2) fclose(k2);
			CHECK((r != 0) == bad && (p != nullptr) == !bad, "creating a writer with %s key returned %d and %s", bad ? "a bad" : "a good", r, p ? "a writer" : "nothing");
			if (bad) { w.failures++; break; }
			WriterH h; h.p = p; h.refs = 1;
			w.writers.push_back(h);
			break;
		}
		case 22: refs(w.writers, o, loc_writer_ref, loc_writer_unref, w); break;
		case 23: if (auto* h = pick(w.writers, o.a)) {
			struct loc_network* n = nullptr;
			int r = loc_writer_add_network(h->p, &n, o.text.c_str());
			CHECK((r == 0) == (n != nullptr), "adding \"%s\" returned %d and %s", o.text.c_str(), r, n ? "a network" : "nothing");
			if (r) w.failures++;
			adopt(w, n);
		} break;
		case 24: if (auto* h = pick(w.writers, o.a)) {
			struct loc_as* a = nullptr;
			int r = loc_writer_add_as(h->p, &a, (uint32_t)(o.b % 50));
			if (r) w.failures++;
			adopt(w, a);
		} break;
		case 25: if (auto* h = pick(w.writers, o.a)) {
			struct loc_country* c = nullptr;
			int r = loc_writer_add_country(h->p, &c, o.text.c_str());
			if (r) w.failures++;
			adopt(w, c);
		} break;
		case 26: if (auto* h = pick(w.writers, o.a)) {
			switch (o.b % 3) {
				case 0: CHECK(!loc_writer_set_vendor(h->p, o.text.c_str()), "set_vendor failed"); h->vendor = o.text; h->v = true; break;
				case 1: CHECK(!loc_writer_set_description(h->p, o.text.c_str()), "set_description failed"); h->description = o.text; h->d = true; break;
				default: CHECK(!loc_writer_set_license(h->p, o.text.c_str()), "set_license failed"); h->license = o.text; h->l = true; break;
			}
			const char* p;
			if (h->v) { p = loc_writer_get_vendor(h->p); CHECK(p && h->vendor == p, "the vendor is %s instead of %s", p ? p : "(null)", h->vendor.c_str()); }
			if (h->d) { p = loc_writer_get_description(h->p); CHECK(p && h->description == p, "the description is %s instead of %s", p ? p : "(null)", h->description.c_str()); }
			if (h->l) { p = loc_writer_get_license(h->p); CHECK(p && h->license == p, "the license is %s instead of %s", p ? p : "(null)", h->license.c_str()); }
		} break;
		case 27: if (auto* h = pick(w.writers, o.a)) {
			if (o.b % 10 == 0) {
				// Cannot be written to
				FILE* f = fopen("/dev/null", "r");
				int r = loc_writer_write(h->p, f, LOC_DATABASE_VERSION_UNSET);
				fclose(f);
				CHECK(r, "writing to a file that is not open for writing succeeded");
				w.failures++;
			} else if (o.b % 10 == 1) {
				File f;
				int r = loc_writer_write(h->p, f.f, (enum loc_database_version)(2 + o.c % 5));
				CHECK(r, "writing a version that does not exist succeeded");
				w.failures++;
			} else {
				File f;
				int r = loc_writer_write(h->p, f.f, LOC_DATABASE_VERSION_1);
				CHECK(r == 0, "could not write the database: %d", r);
				if (w.files.size() < 4) w.files.push_back(f.bytes());
				else w.files[o.c % 4] = f.bytes();
			}
		} break;

		// Databases
		case 28: {
			if (w.files.empty()) break;
			std::string b = w.files[o.a % w.files.size()];
			bool broken = false;
			if (o.b % 8 == 0) { b.resize(o.c % b.size()); broken = true; }
			if (o.b % 8 == 1) { b[o.c % 8] ^= 1 + o.a % 255; broken = true; }
			FILE* f = file_with(b);
			struct loc_database* d = nullptr;
			int r = loc_database_new(w.ctx, &d, f);
			// The database must not depend on it
			fclose(f);
			CHECK((r == 0) == (d != nullptr), "opening a database returned %d and %s", r, d ? "a database" : "nothing");
			CHECK(broken || !r, "could not open a database that was just written: %d", r);
			if (r) { w.failures++; break; }
			w.dbs.push_back({ d, 1 });
			break;
		}
		case 29: refs(w.dbs, o, loc_database_ref, loc_database_unref, w); break;
		case 30: if (auto* d = pick(w.dbs, o.a)) {
			struct loc_network* n = nullptr;
			int r = loc_database_lookup_from_string(d->p, o.text.c_str(), &n);
			if (r) { CHECK(!n, "a failing lookup returned a network"); w.failures++; }
			adopt(w, n);
		} break;
		case 31: if (auto* d = pick(w.dbs, o.a)) {
			struct loc_as* a = nullptr;
			int r = loc_database_get_as(d->p, &a, (uint32_t)(o.b % 60));
			if (r) { CHECK(!a, "a failing AS query returned an AS"); w.failures++; }
			adopt(w, a);
		} break;
		case 32: if (auto* d = pick(w.dbs, o.a)) {
			struct loc_country* c = nullptr;
			int r = loc_database_get_country(d->p, &c, o.text.c_str());
			if (r) { CHECK(!c, "a failing country query returned a country"); w.failures++; }
			adopt(w, c);
		} break;
		case 33: if (auto* d = pick(w.dbs, o.a)) {
			FILE* f = file_with(o.b % 3 == 0 ? key.pub : o.b % 3 == 1 ? key.priv : std::string("x"));
			int r = loc_database_verify(d->p, f);
			fclose(f);
			if (r) w.failures++;
			(void)loc_database_created_at(d->p);
			(void)loc_database_count_as(d->p);
			for (const char* p : { loc_database_get_vendor(d->p), loc_database_get_description(d->p), loc_database_get_license(d->p) })
				if (p) (void)strlen(p);
		} break;

		// Enumerators
		case 34: if (auto* d = pick(w.dbs, o.a)) {
			static const enum loc_database_enumerator_mode modes[] = { LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATE_ASES, LOC_DB_ENUMERATE_COUNTRIES, LOC_DB_ENUMERATE_BOGONS };
			struct loc_database_enumerator* e = nullptr;
			enum loc_database_enumerator_mode mode = modes[o.b % 4];
			CHECK(!loc_database_enumerator_new(&e, d->p, mode, o.c % 2 ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0) && e, "could not create an enumerator");
			w.enums.push_back({ e, 1, mode, false, "", false });
		} break;
		case 35: refs(w.enums, o, loc_database_enumerator_ref, loc_database_enumerator_unref, w); break;
		case 36: if (auto* e = pick(w.enums, o.a)) {
			if (e->started) break;
			switch (o.b % 5) {
				case 0: CHECK(!loc_database_enumerator_set_string(e->p, o.text.c_str()), "set_string failed"); e->text = o.text; e->has_text = true; break;
				case 1: if (auto* l = pick(w.cclists, o.c)) {
					loc_database_enumerator_set_countries(e->p, l->p);
					struct loc_country_list* g = loc_database_enumerator_get_countries(e->p);
					CHECK(g == l->p, "the list of countries is not the one that was set");
					loc_country_list_unref(g);
				} break;
				case 2: if (auto* l = pick(w.aslists, o.c)) {
					loc_database_enumerator_set_asns(e->p, l->p);
					struct loc_as_list* g = loc_database_enumerator_get_asns(e->p);
					CHECK(g == l->p, "the list of ASNs is not the one that was set");
					loc_as_list_unref(g);
				} break;
				case 3: loc_database_enumerator_set_flag(e->p, (enum loc_network_flags)(1 << o.c % 4)); break;
				default: { static const int f[] = { 0, AF_INET, AF_INET6 }; loc_database_enumerator_set_family(e->p, f[o.c % 3]); }
			}
		} break;
		case 37: if (auto* e = pick(w.enums, o.a)) {
			e->started = true;
			// There is nothing of any other kind
			if (o.b % 4 == 0) {
				struct loc_as* a = (struct loc_as*)e;
				struct loc_country* c = (struct loc_country*)e;
				struct loc_network* x = (struct loc_network*)e;
				if (e->mode != LOC_DB_ENUMERATE_ASES)
					CHECK(!loc_database_enumerator_next_as(e->p, &a) && !a, "there are ASes among something else");
				if (e->mode != LOC_DB_ENUMERATE_COUNTRIES)
					CHECK(!loc_database_enumerator_next_country(e->p, &c) && !c, "there are countries among something else");
				if (e->mode == LOC_DB_ENUMERATE_ASES || e->mode == LOC_DB_ENUMERATE_COUNTRIES)
					CHECK(!loc_database_enumerator_next_network(e->p, &x) && !x, "there are networks among something else");
			}
			for (size_t i = 0, n = 1 + o.b % 40; i < n; i++) {
				if (e->mode == LOC_DB_ENUMERATE_ASES) {
					struct loc_as* a = nullptr;
					CHECK(!loc_database_enumerator_next_as(e->p, &a), "the enumeration failed");
					if (!a) break;
					if (e->has_text) {
						const char* name = loc_as_get_name(a);
						std::string x = name ? name : "", y = e->text;
						for (auto& ch : x) ch = tolower((unsigned char)ch);
						for (auto& ch : y) ch = tolower((unsigned char)ch);
						CHECK(x.find(y) != std::string::npos, "searching for \"%s\" found \"%s\"", e->text.c_str(), name ? name : "");
					}
					if (i % 2) loc_as_unref(a); else adopt(w, a);
				} else if (e->mode == LOC_DB_ENUMERATE_COUNTRIES) {
					struct loc_country* c = nullptr;
					CHECK(!loc_database_enumerator_next_country(e->p, &c), "the enumeration failed");
					if (!c) break;
					if (i % 2) loc_country_unref(c); else adopt(w, c);
				} else {
					struct loc_network* x = nullptr;
					CHECK(!loc_database_enumerator_next_network(e->p, &x), "the enumeration failed");
					if (!x) break;
					if (i % 2) loc_network_unref(x); else adopt(w, x);
				}
			}
		} break;
		// The context goes, what was made with it stays
		default: w.fresh_ctx(); break;
	}

	if (auto* h = pick(w.nets, o.b)) verify(*h);
	if (auto* h = pick(w.ases, o.b)) verify(*h);
	if (auto* h = pick(w.ccs, o.b)) verify(*h);
}

static std::string gen_text(pbt::Src& s, unsigned code, std::vector<Net>& seen, const NetOpts& opts) {
	if (code == 11 || code == 25 || code == 32) {
		static const std::vector<std::string> codes = { "DE", "FR", "US", "GB", "AA", "X1", "", "D", "DEU", "de", "A1", "ZZ" };
		return s.of(codes);
	}
	if (code == 0 || code == 23 || code == 30) {
		if (s.chance(10)) {
			static const std::vector<std::string> bad = { "", "x", "10.0.0.0/33", "10.0.0.0/", "::/129", "/", "10.0.0/8", "::1/-1", "1.2.3.4/8/8" };
			return s.of(bad);
		}
		Net n = gen_net(s, seen, opts);
		seen.push_back(n);
		return code == 30 ? addr_str(n.first()) : n.str();
	}
	return s.chance(5) ? std::string(s.choose(9000), 'n') : gen_name(s);
}

static void property(pbt::Src& s) {
	std::vector<Op> plan;
	std::vector<Net> seen;
	NetOpts opts;

	auto add = [&](unsigned code) {
		Op o;
		o.code = code;
		o.a = s.choose(1 << 16);
		o.b = s.choose(1 << 16);
		o.c = s.chance(10) ? s.choose(1ull << 32) : s.choose(1 << 16);
		if (code == 0 || code == 3 || code == 10 || code == 11 || code == 13 || code == 23 || code == 25 || code == 26 || code == 30 || code == 32 || code == 36)
			o.text = gen_text(s, code, seen, opts);
		plan.push_back(o);
	};

	// A database to begin with?
	if (s.chance(60)) {
		Op o = { 21, 7, 0, 0, "" };
		if (s.coin()) o.a = 0;
		plan.push_back(o);
		for (size_t i = 0, n = s.choose(12); i < n; i++) add(23);
		for (size_t i = 0, n = s.choose(6); i < n; i++) add(24);
		for (size_t i = 0, n = s.choose(4); i < n; i++) add(25);
		plan.push_back({ 27, 0, 5, 0, "" });
		plan.push_back({ 28, 0, 5, 0, "" });
	}
	const unsigned focus = s.choose(6);
	size_t n = 1 + s.size(80);
	for (size_t i = 0; i < n; i++) {
		if (s.chance(60)) {
			static const std::vector<std::vector<unsigned>> themes = {
				{ 0, 1, 2, 3, 4, 5, 6, 7, 15, 18, 14 },
				{ 8, 9, 10, 16, 19, 14 },
				{ 11, 12, 13, 17, 20, 14 },
				{ 21, 22, 23, 24, 25, 26, 27, 3, 10, 13, 2 },
				{ 28, 29, 30, 31, 32, 33, 34, 2, 38 },
				{ 34, 35, 36, 36, 37, 37, 29, 14, 19, 20, 38 },
			};
			add(s.of(themes[focus]));
		} else {
			add(s.choose(39));
		}
	}
	s.say("%zu operations:", plan.size());
	for (size_t i = 0; i < plan.size() && i < 60; i++) s.say(" %u", plan[i].code);

	unsigned failures = 0;
	check_leaks([&]() {
		World w;
		for (auto& o : plan) step(w, o);
		for (auto& h : w.nets) verify(h);
		for (auto& h : w.ases) verify(h);
		for (auto& h : w.ccs) verify(h);
		// Everything else goes first, then what is left is looked at again
		auto drop = [](auto& v, auto f) { for (auto& x : v) while (x.refs--) f(x.p); v.clear(); };
		drop(w.enums, loc_database_enumerator_unref);
		drop(w.dbs, loc_database_unref);
		drop(w.writers, loc_writer_unref);
		drop(w.netlists, loc_network_list_unref);
		drop(w.aslists, loc_as_list_unref);
		drop(w.cclists, loc_country_list_unref);
		for (auto& h : w.nets) verify(h);
		for (auto& h : w.ases) verify(h);
		for (auto& h : w.ccs) verify(h);
		failures = w.failures;
		// A cache of OpenSSL's
		ERR_clear_error();
	});
	if (plan.size() > 8) s.nontrivial();
	if (failures) s.label("with failing calls");
}

static void setup() {
	key = make_keypair(EVP_EC_gen("P-256"));
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C15",
		"a plan of up to ~100 calls over all object types of the library (networks, ASes, countries, their lists, writers with good and bad keys, databases opened from good and broken files, enumerators with filters set repeatedly, contexts), taking and dropping references at random, with failing calls among them, is carried out under the address and undefined behaviour sanitizers with a model of every object's attributes; afterwards no memory and no descriptor may be left; "
		"non-trivial: more than eight calls", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
