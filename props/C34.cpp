// Log messages go where they are told to go, and change nothing
#include <stdlib.h>
#include <functional>
#include "keys.hpp"
#include "leak.hpp"
#include "records.hpp"

struct Message {
	int priority;
	std::string where, text;
	bool operator==(const Message& o) const { return priority == o.priority && where == o.where && text == o.text; }
};

// Without what is different in every run: pointers, and dumps of times and signatures
static std::string masked(const std::string& s) {
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (!s.compare(i, 2, "0x") || !s.compare(i, 5, "(nil)")) {
			size_t k = s[i] == '(' ? i + 5 : i + 2;
			while (s[i] != '(' && k < s.size() && isxdigit((unsigned char)s[k])) k++;
			r += "PTR";
			i = k - 1;
		} else if (isdigit((unsigned char)s[i])) {
			// How long something took
			size_t k = s.find_first_not_of("0123456789.", i);
			if (k != std::string::npos && !s.compare(k, 2, "ms"))
				r += "TIME";
			else
				r += s.substr(i, k == std::string::npos ? k : k - i);
			i = k == std::string::npos ? s.size() : k - 1;
		} else
			r += s[i];
	}
	return r;
}

static void record(std::vector<Message>* to, int priority, const char* file, int line, const char* fn, const char* format, va_list args) {
	char* text = nullptr;
	if (vasprintf(&text, format, args) < 0) _exit(99);
	Message m;
	m.priority = priority;
	// The lines are those of the code, whatever they are
	m.where = pbt::fmt("%s:%d:%s", file, line, fn);
	m.text = strcmp(fn, "hexdump") ? masked(text) : "";
	to->push_back(m);
	free(text);
}

static std::vector<Message> *fn_target = nullptr, *null_target = nullptr;

static void callback(struct loc_ctx*, void* data, int priority, const char* file, int line, const char* fn, const char* format, va_list args) {
	// It may have been set without anything
	if (!data) data = null_target;
	if (data) record((std::vector<Message>*)data, priority, file, line, fn, format, args);
}

static void log_fn(struct loc_ctx*, int priority, const char* file, int line, const char* fn, const char* format, va_list args) {
	if (fn_target) record(fn_target, priority, file, line, fn, format, args);
}

// What is written to standard output and error
struct Captured {
	int saved[2], fd;
	Captured() {
		fflush(stdout); fflush(stderr);
		fd = memfd_create("out", 0);
		for (int i = 0; i < 2; i++) { saved[i] = dup(i + 1); dup2(fd, i + 1); }
	}
	std::string take() {
		fflush(stdout); fflush(stderr);
		off_t n = lseek(fd, 0, SEEK_END);
		std::string s(n, '\0');
		if (n && pread(fd, &s[0], n, 0) != n) _exit(99);
		if (ftruncate(fd, 0)) _exit(99);
		lseek(fd, 0, SEEK_SET);
		return s;
	}
	~Captured() {
		fflush(stdout); fflush(stderr);
		for (int i = 0; i < 2; i++) { dup2(saved[i], i + 1); close(saved[i]); }
		close(fd);
	}
};

enum Where { STDERR, CALLBACK, OTHER, NOTHING, FN };

// Everything that belongs to a context
struct World {
	struct loc_ctx* ctx = nullptr;
	struct loc_database* db = nullptr;
	int priority = 3;
	Where where = STDERR;
	std::vector<Message> a, b, n, f;
	~World() {
		if (db) loc_database_unref(db);
		if (ctx) loc_unref(ctx);
	}
};

static KeyPair keys[2];

struct Files { Ctx& quiet; const Records& r; const std::vector<FILE*>& files; };

struct Step {
	int what = 0;
	uint64_t n = 0;
	u128 address = 0;
	std::string text, other;
	EnumOpts o;
};

static std::string text_of(struct loc_network* n) {
	const char* c = loc_network_str(n);
	return std::string(c ? c : "-") + " " + entry_of(n).str();
}

static std::string perform(World& w, const Step& x, const Files& files) {
	std::string out;
	switch (x.what) {
		case 0: {
			if (w.db) loc_database_unref(w.db);
			w.db = nullptr;
			int r = loc_database_new(w.ctx, &w.db, files.files[x.n % files.files.size()]);
			if (r) w.db = nullptr;
			return pbt::fmt("open %d", r);
		}
		case 1: {
			File f;
			struct loc_writer* wr = nullptr;
			CHECK(!loc_writer_new(w.ctx, &wr, nullptr, nullptr), "could not create a writer");
			struct G { struct loc_writer* w; ~G() { loc_writer_unref(w); } } g{wr};
			put_records(wr, files.r);
			if (x.n % 4 == 0) { struct loc_network* n = nullptr; if (!loc_writer_add_network(wr, &n, x.text.c_str())) loc_network_unref(n); else out += "not added "; }
			int r = loc_writer_write(wr, f.f, x.n % 5 == 0 ? (enum loc_database_version)77 : LOC_DATABASE_VERSION_UNSET);
			out += pbt::fmt("write %d ", r);
			if (r) return out;
			std::string b = f.bytes();
			// The time is different
			b.replace(8, 8, 8, '\0');
			return out + pbt::fmt("%zx", std::hash<std::string>()(b));
		}
		case 2: {
			struct loc_network* n = nullptr;
			if (loc_network_new_from_string(w.ctx, &n, x.text.c_str())) return "invalid";
			struct G { struct loc_network* n; ~G() { loc_network_unref(n); } } g{n};
			out += text_of(n);
			struct loc_network *s1 = nullptr, *s2 = nullptr;
			if (!loc_network_subnets(n, &s1, &s2)) {
				out += " " + text_of(s1) + " " + text_of(s2);
				loc_network_unref(s1);
				loc_network_unref(s2);
			}
			struct loc_network* m = nullptr;
			if (!loc_network_new_from_string(w.ctx, &m, x.other.c_str())) {
				struct loc_network_list* l = loc_network_exclude(n, m);
				if (l) {
					for (size_t i = 0; i < loc_network_list_size(l); i++) { struct loc_network* y = loc_network_list_get(l, i); out += " " + text_of(y); loc_network_unref(y); }
					if (x.n & 1) loc_network_list_dump(l);
					loc_network_list_unref(l);
				}
				loc_network_unref(m);
			}
			return out;
		}
		case 3: {
			struct loc_network* n = nullptr;
			int r = loc_network_new_from_string(w.ctx, &n, x.n & 1 ? "10.0.0.0/99" : "hello");
			if (!r) loc_network_unref(n);
			struct loc_country* c = nullptr;
			int r2 = loc_country_new(w.ctx, &c, x.n & 2 ? "DE" : "d1");
			if (!r2) loc_country_unref(c);
			return pbt::fmt("%d %d", !r, !r2);
		}
	}
	if (!w.db) return "no database";
	switch (x.what) {
		case 4: {
			in6_addr a = to_in6(x.address);
			struct loc_network* n = nullptr;
			int r = loc_database_lookup(w.db, &a, &n);
			out = pbt::fmt("lookup %d ", r);
			if (!r && n) { out += text_of(n); loc_network_unref(n); }
			return out;
		}
		case 5: {
			return dump_db(files.quiet, w.db);
		}
		case 6: {
			FILE* k = text_file(x.n & 2 ? "not a key" : keys[x.n & 1].pub);
			int r = loc_database_verify(w.db, k);
			fclose(k);
			return pbt::fmt("verify %d", r);
		}
		case 7: {
			struct loc_as* as = nullptr;
			int r = loc_database_get_as(w.db, &as, x.n);
			out = pbt::fmt("as %d %s", r, as && loc_as_get_name(as) ? loc_as_get_name(as) : "-");
			if (as) loc_as_unref(as);
			struct loc_country* c = nullptr;
			r = loc_database_get_country(w.db, &c, x.text.substr(0, 2).c_str());
			out += pbt::fmt(" country %d %d", r, !!c);
			if (c) loc_country_unref(c);
			return out;
		}
		default: {
			struct loc_database_enumerator* e = nullptr;
			EnumOpts o = x.o;
			CHECK(!loc_database_enumerator_new(&e, w.db, (enum loc_database_enumerator_mode)o.mode, o.flatten ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0), "could not create an enumerator");
			struct G { struct loc_database_enumerator* e; ~G() { loc_database_enumerator_unref(e); } } g{e};
			if (o.family) loc_database_enumerator_set_family(e, o.family);
			if (o.flags) loc_database_enumerator_set_flag(e, (enum loc_network_flags)o.flags);
			while (1) {
				struct loc_network* n = nullptr;
				CHECK(!loc_database_enumerator_next_network(e, &n), "could not enumerate");
				if (!n) return out;
				out += text_of(n) + "\n";
				loc_network_unref(n);
			}
		}
	}
}

static const char* names[] = { "standard error", "a callback", "another callback", "a callback without data", "a function" };

static void property(pbt::Src& s) {
	NetOpts o;
	Records r = gen_records(s, 6, o, s.coin());
	bool signedby = s.coin();
	// A good file, and some that are not
	File good, cut, empty, junk, version;
	std::vector<FILE*> files = { good.f, good.f, good.f, cut.f, empty.f, junk.f, version.f };
	{
		Ctx c;
		FILE* k = text_file(keys[0].priv);
		Writer w(c, signedby ? k : nullptr);
		fclose(k);
		put_records(w.w, r);
		CHECK(!loc_writer_write(w.w, good.f, LOC_DATABASE_VERSION_UNSET), "could not write a database");
		std::string b = good.bytes();
		cut.set(b.substr(0, s.choose(b.size())));
		junk.set(std::string(5000, 'x'));
		b[7] = 9;
		version.set(b);
	}
	Ctx quiet;
	Files fs{quiet, r, files};

	static const std::vector<std::pair<const char*, int>> envs = { {nullptr, 3}, {nullptr, 3}, {"0", 0}, {"3", 3}, {"6", 6}, {"7", 7}, {"err", 3}, {"info", 6}, {"debug", 7} };
	auto env = s.of(envs);
	if (env.first) setenv("LOC_LOG", env.first, 1); else unsetenv("LOC_LOG");
	struct U { ~U() { unsetenv("LOC_LOG"); } } u;
	s.say("LOC_LOG=%s; ", env.first ? env.first : "(unset)");

	Captured cap;
	World ref, w;
	fn_target = &w.f;
	null_target = &w.n;
	CHECK(!loc_new(&ref.ctx), "loc_new failed");
	loc_set_log_priority(ref.ctx, 7);
	loc_set_log_callback(ref.ctx, callback, &ref.a);
	ref.a.clear();
	cap.take();
	CHECK(!loc_new(&w.ctx), "loc_new failed");
	CHECK(loc_get_log_priority(w.ctx) == env.second, "LOC_LOG=%s makes the priority %d", env.first ? env.first : "(unset)", loc_get_log_priority(w.ctx));
	w.priority = env.second;
	cap.take();

	// A list of lines, as they appear on standard error
	auto lines = [](const std::vector<Message>& m) {
		std::string r;
		for (auto& x : m) r += "libloc: " + x.where.substr(x.where.rfind(':') + 1) + ": " + x.text;
		return r;
	};

	unsigned messages = 0, suppressed = 0;
	for (size_t i = 0, n = 1 + s.choose(8); i < n; i++) {
		if (s.chance(40)) {
			w.priority = s.of(std::vector<int>({0, 3, 4, 6, 7, 7, 2, 5}));
			loc_set_log_priority(w.ctx, w.priority);
			CHECK(loc_get_log_priority(w.ctx) == w.priority, "the priority is %d instead of %d", loc_get_log_priority(w.ctx), w.priority);
		}
		if (s.chance(40)) {
			w.where = (Where)(1 + s.choose(4));
			switch (w.where) {
				case CALLBACK: loc_set_log_callback(w.ctx, callback, &w.a); break;
				case OTHER: loc_set_log_callback(w.ctx, callback, &w.b); break;
				case NOTHING: loc_set_log_callback(w.ctx, callback, nullptr); break;
				default: loc_set_log_fn(w.ctx, log_fn); break;
			}
		}
		Step x;
		x.what = i == 0 && s.coin() ? 0 : s.choose(9);
		x.n = s.choose(8);
		x.address = gen_probe(s, r.entries, o);
		x.text = r.entries.empty() || s.chance(30) ? gen_fresh_net(s, o).str() : gen_related_net(s, s.of(r.entries).net, o).str();
		x.other = r.entries.empty() ? gen_fresh_net(s, o).str() : gen_related_net(s, s.of(r.entries).net, o).str();
		x.o.mode = s.chance(70) ? LOC_DB_ENUMERATE_NETWORKS : LOC_DB_ENUMERATE_BOGONS;
		x.o.flatten = s.coin();
		x.o.family = s.of(std::vector<int>({0, AF_INET, AF_INET6}));
		x.o.flags = s.coin() ? s.choose(16) : 0;

		for (auto v : { &ref.a, &w.a, &w.b, &w.n, &w.f }) v->clear();
		cap.take();
		std::string want = perform(ref, x, fs);
		std::string noise = cap.take();
		CHECK(noise.empty(), "with a callback, something is written to standard output or error: %s", noise.c_str());
		std::string got = perform(w, x, fs);
		std::string err = cap.take();
		CHECK(got == want, "step %zu (%d): with priority %d and messages to %s, the result is '%s' instead of '%s'", i, x.what, w.priority, names[w.where], got.c_str(), want.c_str());

		std::vector<Message> expected;
		for (auto& m : ref.a) if (m.priority <= w.priority) expected.push_back(m); else suppressed++;
		messages += expected.size();
		for (int k = STDERR; k <= FN; k++) {
			std::string there;
			if (k == STDERR) {
				// The dumps cannot be compared
				bool dumps = false;
				for (auto& m : expected) dumps |= m.where.find(":hexdump") != std::string::npos;
				if (k == w.where) {
					CHECK(err.empty() == expected.empty(), "step %zu (%d): with priority %d, '%s' is written to standard error, but there are %zu messages", i, x.what, w.priority, err.c_str(), expected.size());
					if (!dumps) CHECK(masked(err) == lines(expected), "step %zu (%d): with priority %d, '%s' is written to standard error instead of '%s'", i, x.what, w.priority, err.c_str(), lines(expected).c_str());
				} else
					CHECK(err.empty(), "step %zu (%d): messages go to %s, but this is written to standard error: %s", i, x.what, names[w.where], err.c_str());
				continue;
			}
			std::vector<Message>& to = k == CALLBACK ? w.a : k == OTHER ? w.b : k == NOTHING ? w.n : w.f;
			if (k != w.where) {
				CHECK(to.empty(), "step %zu (%d): messages go to %s, but %s receives %zu messages", i, x.what, names[w.where], names[k], to.size());
				continue;
			}
			CHECK(to.size() == expected.size(), "step %zu (%d): with priority %d, %zu messages go to %s instead of %zu", i, x.what, w.priority, to.size(), names[k], expected.size());
			for (size_t q = 0; q < to.size(); q++)
				CHECK(to[q] == expected[q], "step %zu (%d): with priority %d, message %zu is %s '%s' instead of %s '%s'", i, x.what, w.priority, q,
					to[q].where.c_str(), to[q].text.c_str(), expected[q].where.c_str(), expected[q].text.c_str());
		}
		s.say("%d (priority %d, %s), ", x.what, w.priority, names[w.where]);
	}
	if (messages) s.nontrivial();
	if (messages && suppressed) s.label("some messages suppressed");
}

static void setup() {
	for (auto& k : keys) k = make_keypair(EVP_EC_gen("P-256"));
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C34",
		"1-8 operations (open good and broken files, write, parse, split, exclude, look up, verify, fetch, enumerate) with log levels from LOC_LOG or set in between, and messages going to standard error, one of two callbacks, one without data, or a function; in a library built with debugging, the results must be those at full verbosity, and the messages the ones that are seen there up to the level, all of them at the one place chosen; "
		"non-trivial: there is at least one message", property, setup };
	return pbt::pbt_main(argc, argv, p);
}
