// Running out of memory is reported, and does no harm
#include <stdarg.h>
#include <openssl/err.h>
#include "keys.hpp"
#include "leak.hpp"
#include "records.hpp"

/*
	What the library calls to get memory, fails when it is told to: once, or from then on
*/
static bool armed = false, lasting = false, hit = false;
static long countdown = 0;

static bool fails() {
	if (!armed || countdown-- > 0)
		return false;
	hit = true;
	if (!lasting)
		armed = false;
	errno = ENOMEM;
	return true;
}

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_reallocarray(void*, size_t, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
FILE* __real_fdopen(int, const char*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_vasprintf(char**, const char*, va_list);
EVP_MD_CTX* __real_EVP_MD_CTX_new(void);

void* __wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { return fails() ? nullptr : __real_realloc(p, n); }
void* __wrap_reallocarray(void* p, size_t n, size_t m) { return fails() ? nullptr : __real_reallocarray(p, n, m); }
char* __wrap_strdup(const char* s) { return fails() ? nullptr : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { return fails() ? nullptr : __real_strndup(s, n); }
FILE* __wrap_fdopen(int fd, const char* mode) { return fails() ? nullptr : __real_fdopen(fd, mode); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return fails() ? MAP_FAILED : __real_mmap(a, n, p, f, fd, o); }
EVP_MD_CTX* __wrap_EVP_MD_CTX_new(void) { return fails() ? nullptr : __real_EVP_MD_CTX_new(); }
int __wrap_vasprintf(char** p, const char* fmt, va_list ap) {
	if (fails()) return -1;
	return __real_vasprintf(p, fmt, ap);
}
int __wrap_asprintf(char** p, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = __wrap_vasprintf(p, fmt, ap);
	va_end(ap);
	return r;
}
}

/*
	Choices are drawn once and repeated, so that a case can be run again
*/
struct Plan {
	pbt::Src& s;
	std::vector<uint64_t> drawn;
	size_t pos = 0;
	explicit Plan(pbt::Src& s) : s(s) {}
	uint64_t choose(uint64_t n) {
		if (pos == drawn.size())
			drawn.push_back(s.choose(n));
		return drawn[pos++];
	}
};

struct Run {
	Plan& plan;
	unsigned failed = 0, survived = 0;
	explicit Run(Plan& p) : plan(p) {}

	// Runs f (which returns 0 on success) with failing memory, and once more with enough of it if it has failed
	template <class F> void attempt(const char* what, unsigned depth, F f) {
		attempt(what, depth, f, [] {});
	}

	// The same, and unchanged() looks at what the object held before after a failure
	template <class F, class G> void attempt(const char* what, unsigned depth, F f, G unchanged) {
		bool inject = plan.choose(3) != 0;
		if (inject) {
			countdown = plan.choose(plan.choose(4) ? 4 : depth);
			lasting = plan.choose(3) == 2;
		}
		hit = false;
		armed = inject;
		int r = f();
		armed = false;
		if (!r) {
			survived += hit;
			return;
		}
		CHECK(hit, "%s fails with %d although there is enough memory", what, r);
		failed++;
		unchanged();
		r = f();
		CHECK(!r, "%s fails with %d (%s) when it is tried again with enough memory", what, r, strerror(errno));
	}
};

static KeyPair key;

static std::vector<std::string> strings(struct loc_network_list* l) {
	std::vector<std::string> r;
	for (size_t i = 0; i < loc_network_list_size(l); i++) {
		struct loc_network* n = loc_network_list_get(l, i);
		CHECK(n, "element %zu of a list is missing", i);
		r.push_back(entry_of(n).str());
		loc_network_unref(n);
	}
	return r;
}

static std::string join(const std::vector<std::string>& v) {
	std::string r;
	for (auto& x : v) r += x + " ";
	return r;
}

// Runs an enumeration; memory is only short while the library runs
struct Enumeration {
	EnumOpts o;
	bool has_string = false, decoy = false;
	std::string string;
	std::vector<std::string> out;

	int run(struct loc_ctx* ctx, struct loc_database* db) {
		struct loc_database_enumerator* e = nullptr;
		out.clear();
		int r = loc_database_enumerator_new(&e, db, o.mode, o.flatten ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
		if (r) return r;
		r = set(ctx, e);
		while (!r) {
			struct loc_network* n = nullptr;
			struct loc_as* as = nullptr;
			struct loc_country* c = nullptr;
			if (o.mode == LOC_DB_ENUMERATE_ASES) r = loc_database_enumerator_next_as(e, &as);
			else if (o.mode == LOC_DB_ENUMERATE_COUNTRIES) r = loc_database_enumerator_next_country(e, &c);
			else r = loc_database_enumerator_next_network(e, &n);
			if (r || (!n && !as && !c)) break;
			bool a = armed;
			armed = false;
			if (n) { out.push_back(entry_of(n).str()); loc_network_unref(n); }
			if (as) { out.push_back(pbt::fmt("AS%u", loc_as_get_number(as))); loc_as_unref(as); }
			if (c) { out.push_back(loc_country_get_code(c)); loc_country_unref(c); }
			armed = a;
		}
		loc_database_enumerator_unref(e);
		return r;
	}

	int set(struct loc_ctx* ctx, struct loc_database_enumerator* e) {
		int r = 0;
		if (o.family && (r = loc_database_enumerator_set_family(e, o.family))) return r;
		if (o.flags && (r = loc_database_enumerator_set_flag(e, (enum loc_network_flags)o.flags))) return r;
		if (has_string) {
			bool a = armed;
			armed = false;
			if (decoy) CHECK(!loc_database_enumerator_set_string(e, "\x01 nobody \x02"), "set_string");
			armed = a;
			if ((r = loc_database_enumerator_set_string(e, string.c_str()))) {
				armed = false;
				struct loc_as* as = nullptr;
				CHECK(!decoy || (!loc_database_enumerator_next_as(e, &as) && !as), "a search string that could not be changed is not in use any more");
				armed = a;
				return r;
			}
		}
		if (o.use_countries) {
			struct loc_country_list* l = nullptr;
			if ((r = loc_country_list_new(ctx, &l))) return r;
			for (auto& code : o.countries) {
				struct loc_country* x = nullptr;
				if ((r = loc_country_new(ctx, &x, code.c_str()))) break;
				r = loc_country_list_append(l, x);
				loc_country_unref(x);
				if (r) break;
			}
			if (!r) r = loc_database_enumerator_set_countries(e, l);
			loc_country_list_unref(l);
			if (r) return r;
		}
		if (o.use_asns) {
			struct loc_as_list* l = nullptr;
			if ((r = loc_as_list_new(ctx, &l))) return r;
			for (auto n : o.asns) {
				struct loc_as* x = nullptr;
				if ((r = loc_as_new(ctx, &x, n))) break;
				r = loc_as_list_append(l, x);
				loc_as_unref(x);
				if (r) break;
			}
			if (!r) r = loc_database_enumerator_set_asns(e, l);
			loc_as_list_unref(l);
		}
		return r;
	}
};

static void write_database(Run& run, struct loc_ctx* ctx, const Records& r, bool has_key, File& out) {
	struct loc_writer* w = nullptr;
	FILE* k = has_key ? text_file(key.priv) : nullptr;
	run.attempt("loc_writer_new", 12, [&] { if (k) rewind(k); return loc_writer_new(ctx, &w, k, nullptr); });
	if (k) fclose(k);
	if (r.has_vendor) run.attempt("loc_writer_set_vendor", 4, [&] { return loc_writer_set_vendor(w, r.vendor.c_str()); });
	if (r.has_description) run.attempt("loc_writer_set_description", 4, [&] { return loc_writer_set_description(w, r.description.c_str()); });
	if (r.has_license) run.attempt("loc_writer_set_license", 4, [&] { return loc_writer_set_license(w, r.license.c_str()); });
	for (auto& a : r.ases) {
		struct loc_as* as = nullptr;
		run.attempt("loc_writer_add_as", 4, [&] { return loc_writer_add_as(w, &as, a.number); });
		if (a.named) {
			// There may have been another name before
			bool before = run.plan.choose(2);
			if (before) CHECK(!loc_as_set_name(as, "before"), "loc_as_set_name");
			run.attempt("loc_as_set_name", 2, [&] { return loc_as_set_name(as, a.name.c_str()); }, [&] {
				const char* name = loc_as_get_name(as);
				CHECK(before ? name && !strcmp(name, "before") : !name, "a name that could not be changed has become %s", name ? name : "(null)");
			});
		}
		loc_as_unref(as);
	}
	for (auto& x : r.countries) {
		struct loc_country* c = nullptr;
		run.attempt("loc_writer_add_country", 4, [&] { return loc_writer_add_country(w, &c, x.code.c_str()); });
		if (x.named) {
			// There may have been another name before
			bool before = run.plan.choose(2);
			if (before) CHECK(!loc_country_set_name(c, "before"), "loc_country_set_name");
			run.attempt("loc_country_set_name", 2, [&] { return loc_country_set_name(c, x.name.c_str()); }, [&] {
				const char* name = loc_country_get_name(c);
				CHECK(before ? name && !strcmp(name, "before") : !name, "a name that could not be changed has become %s", name ? name : "(null)");
			});
		}
		if (x.placed) run.attempt("loc_country_set_continent_code", 2, [&] { return loc_country_set_continent_code(c, x.continent.c_str()); });
		loc_country_unref(c);
	}
	for (auto& e : r.entries) {
		struct loc_network* n = nullptr;
		run.attempt("loc_writer_add_network", 140, [&] { return loc_writer_add_network(w, &n, e.net.str().c_str()); });
		apply_info(n, e.info);
		loc_network_unref(n);
	}
	// Several times in a row
	for (size_t i = 0, rounds = 1 + run.plan.choose(3) / 2; i < rounds; i++)
		run.attempt("loc_writer_write", 600, [&] {
			bool a = armed;
			armed = false;
			out.set("");
			rewind(out.f);
			armed = a;
			return loc_writer_write(w, out.f, LOC_DATABASE_VERSION_UNSET);
		});
	loc_writer_unref(w);
}

static void networks(Run& run, struct loc_ctx* ctx, const Records& r) {
	if (r.entries.empty())
		return;
	std::vector<struct loc_network*> nets;
	for (size_t i = 0; i < r.entries.size() && i < 6; i++) {
		struct loc_network* n = nullptr;
		run.attempt("loc_network_new_from_string", 2, [&] { return loc_network_new_from_string(ctx, &n, r.entries[i].net.str().c_str()); });
		apply_info(n, r.entries[i].info);
		CHECK(entry_of(n) == r.entries[i], "%s has become %s", r.entries[i].str().c_str(), entry_of(n).str().c_str());
		nets.push_back(n);
	}
	for (struct loc_network* n : nets) {
		const Net m = net_of(n);
		struct loc_network *a = nullptr, *b = nullptr;
		if (m.plen < 128) {
			run.attempt("loc_network_subnets", 3, [&] { a = b = nullptr; return loc_network_subnets(n, &a, &b); });
			CHECK(a && b && net_of(a).addr == m.addr && net_of(b).last() == m.last(), "the halves of %s are wrong", m.str().c_str());
			loc_network_unref(a);
			loc_network_unref(b);
		}
		char* want = loc_network_reverse_pointer(n, nullptr);
		if (want) {
			char* got = nullptr;
			run.attempt("loc_network_reverse_pointer", 40, [&] { got = loc_network_reverse_pointer(n, nullptr); return got ? 0 : 1; });
			CHECK(!strcmp(got, want), "the reverse pointer of %s is %s instead of %s", m.str().c_str(), got, want);
			free(got);
			free(want);
		}
	}
	for (struct loc_network* n : nets) for (struct loc_network* o : nets) {
		if (!loc_network_is_subnet(n, o))
			continue;
		struct loc_network_list *want = loc_network_exclude(n, o), *got = nullptr;
		CHECK(want, "could not exclude");
		run.attempt("loc_network_exclude", 140, [&] { got = loc_network_exclude(n, o); return got ? 0 : 1; });
		CHECK(strings(got) == strings(want), "%s without %s is %s instead of %s", net_of(n).str().c_str(), net_of(o).str().c_str(), join(strings(got)).c_str(), join(strings(want)).c_str());
		loc_network_list_unref(want);
		loc_network_list_unref(got);
	}
	// A list, and several networks at once
	struct loc_network_list *list = nullptr, *other = nullptr;
	run.attempt("loc_network_list_new", 2, [&] { return loc_network_list_new(ctx, &list); });
	run.attempt("loc_network_list_new", 2, [&] { return loc_network_list_new(ctx, &other); });
	size_t i = 0;
	for (struct loc_network* n : nets) {
		struct loc_network_list* l = ++i % 2 ? list : other;
		std::vector<std::string> before = strings(l);
		run.attempt("loc_network_list_push", 2, [&] {
			int res = loc_network_list_push(l, n);
			bool a = armed;
			armed = false;
			if (res) CHECK(strings(l) == before, "a list has become %s instead of %s", join(strings(l)).c_str(), join(before).c_str());
			armed = a;
			return res;
		});
	}
	struct loc_network_list *want = loc_network_exclude_list(nets[0], list), *got = nullptr;
	if (want) {
		run.attempt("loc_network_exclude_list", 300, [&] { got = loc_network_exclude_list(nets[0], list); return got ? 0 : 1; });
		CHECK(strings(got) == strings(want), "%s without a list is %s instead of %s", net_of(nets[0]).str().c_str(), join(strings(got)).c_str(), join(strings(want)).c_str());
		loc_network_list_unref(want);
		loc_network_list_unref(got);
	}
	run.attempt("loc_network_list_merge", 3, [&] { return loc_network_list_merge(list, other); });
	std::vector<std::string> all;
	for (struct loc_network* n : nets) {
		CHECK(loc_network_list_contains(list, n), "%s is not in the list", net_of(n).str().c_str());
		loc_network_unref(n);
	}
	CHECK(loc_network_list_size(list) == nets.size(), "the list has %zu networks instead of %zu", loc_network_list_size(list), nets.size());
	loc_network_list_unref(list);
	loc_network_list_unref(other);
}

static void property(pbt::Src& s) {
	NetOpts o;
	Records r = gen_records(s, 14, o, s.coin());
	bool has_key = s.chance(20);
	std::vector<Enumeration> enums;
	for (size_t i = 0, n = s.choose(5); i < n; i++) {
		Enumeration e;
		switch (s.pick({4, 1, 1, 2})) {
			case 0: e.o = gen_filter(s, r.entries); e.o.flatten = s.coin(); break;
			case 1: e.o.mode = LOC_DB_ENUMERATE_ASES; if (s.coin()) { e.has_string = true; e.string = "a"; e.decoy = s.coin(); } break;
			case 2: e.o.mode = LOC_DB_ENUMERATE_COUNTRIES; break;
			case 3: e.o.mode = LOC_DB_ENUMERATE_BOGONS; break;
		}
		enums.push_back(e);
	}
	std::vector<u128> probes;
	for (size_t i = 0, n = s.choose(6); i < n; i++) probes.push_back(gen_probe(s, r.entries, o));
	bool objects = s.coin();
	say_entries(s, r.entries);

	// As it should be
	Ctx reference;
	File good;
	{
		Writer w(reference);
		put_records(w.w, r);
		CHECK(!loc_writer_write(w.w, good.f, LOC_DATABASE_VERSION_UNSET), "could not write the database");
	}
	Db want(reference, good);
	const std::string dump = dump_db(reference, want.db);

	Plan plan(s);
	unsigned failed = 0, survived = 0;
	check_leaks([&]() {
		plan.pos = 0;
		Run run(plan);
		struct loc_ctx* ctx = nullptr;
		run.attempt("loc_new", 2, [&] { return loc_new(&ctx); });
		loc_set_log_fn(ctx, quiet_log);
		loc_set_log_priority(ctx, 0);
		{
			File f;
			write_database(run, ctx, r, has_key, f);
			struct loc_database* db = nullptr;
			run.attempt("loc_database_new", 12, [&] { return loc_database_new(ctx, &db, f.f); });
			std::string got = dump_db(reference, db);
			CHECK(got == dump, "the database has become\n%sinstead of\n%s", got.c_str(), dump.c_str());
			for (u128 a : probes) {
				in6_addr x = to_in6(a);
				Entry e;
				bool found = want.lookup(a, &e);
				struct loc_network* n = nullptr;
				run.attempt("loc_database_lookup", 3, [&] { n = nullptr; return loc_database_lookup(db, &x, &n); });
				CHECK((n != nullptr) == found, "%s is %sfound", addr_str(a).c_str(), found ? "not " : "");
				if (n) {
					CHECK(entry_of(n) == e, "%s is %s instead of %s", addr_str(a).c_str(), entry_of(n).str().c_str(), e.str().c_str());
					loc_network_unref(n);
				}
			}
			for (auto& a : r.ases) {
				struct loc_as* as = nullptr;
				run.attempt("loc_database_get_as", 4, [&] { as = nullptr; int res = loc_database_get_as(db, &as, a.number);
					CHECK(res != 1, "AS%u is said not to exist, when there is not enough memory", a.number);
					return res;
				});
				CHECK(as && loc_as_get_number(as) == a.number, "AS%u was not found", a.number);
				const char* name = loc_as_get_name(as);
				CHECK((name ? name : "") == a.name, "AS%u is named %s instead of %s", a.number, name, a.name.c_str());
				loc_as_unref(as);
			}
			for (auto& x : r.countries) {
				struct loc_country* c = nullptr;
				run.attempt("loc_database_get_country", 4, [&] { c = nullptr; return loc_database_get_country(db, &c, x.code.c_str()); });
				CHECK(c && x.code == loc_country_get_code(c), "%s was not found", x.code.c_str());
				const char* name = loc_country_get_name(c);
				CHECK((name ? name : "") == x.name, "%s is named %s instead of %s", x.code.c_str(), name, x.name.c_str());
				loc_country_unref(c);
			}
			for (auto& e : enums) {
				Enumeration w = e;
				{ int e0 = w.run(reference.ctx, want.db); CHECK(!e0, "an enumeration (mode %d, %s) failed with %d: %s", (int)w.o.mode, w.o.str().c_str(), e0, strerror(errno)); }
				run.attempt("an enumeration", 300, [&] { return e.run(ctx, db); });
				CHECK(e.out == w.out, "an enumeration (%s) yields %s instead of %s", e.o.str().c_str(), join(e.out).c_str(), join(w.out).c_str());
			}
			if (has_key) {
				FILE* k = text_file(key.pub);
				run.attempt("loc_database_verify", 3, [&] { rewind(k); return loc_database_verify(db, k); });
				fclose(k);
			}
			loc_database_unref(db);
		}
		if (objects)
			networks(run, ctx, r);
		loc_unref(ctx);
		failed = run.failed;
		survived = run.survived;
		ERR_clear_error();
	});
	if (failed) s.nontrivial();
	if (survived) s.label("out of memory was not noticed, but the result was right");
	s.say("%u calls failed", failed);
}

static void setup() {
	key = make_keypair(EVP_EC_gen("P-256"));
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C29",
		"a database of 0-14 networks, 0-24 ASes and 0-16 countries is written, read and enumerated, and networks are split, excluded, printed and put into lists; in about two thirds of all calls the 1st to nth request for memory fails, once or from then on; a call must either succeed with the right result, or fail and succeed when it is repeated, and afterwards no memory and no descriptor may be left; "
		"non-trivial: at least one call has failed", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
