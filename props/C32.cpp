// Contexts are independent of each other: threads that share no objects do not disturb each other
#include <atomic>
#include <sched.h>
#include <thread>
#include <fcntl.h>
#include "records.hpp"

struct Plan {
	Records r;
	bool own;                 // writes a database of its own, or opens one that others have open, too
	size_t shared = 0;
	std::vector<u128> probes;
	std::vector<EnumOpts> enums;
	std::vector<std::string> texts;
	unsigned rounds = 1;
};

static std::string text_of(struct loc_network* n) {
	const char* a = loc_network_format_first_address(n);
	std::string r = a ? a : "-";
	const char* b = loc_network_format_last_address(n);
	r += std::string("-") + (b ? b : "-");
	const char* c = loc_network_str(n);
	r += std::string(" ") + (c ? c : "-");
	return r + " " + entry_of(n).str();
}

// Does everything that the plan says, returns all that was seen
static std::string execute(const Plan& p, const std::vector<int>& files) {
	std::string out;
	Ctx c;
	FILE* f;
	if (p.own) {
		f = mem_file();
		Writer w(c);
		put_records(w.w, p.r);
		CHECK(!loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET), "could not write a database");
		fflush(f);
	} else
		f = fopen(pbt::fmt("/proc/self/fd/%d", files[p.shared]).c_str(), "r");
	CHECK(f, "could not open a file");
	{
		File file(f);
		Db d(c, file);
		for (unsigned k = 0; k < p.rounds; k++) {
			for (u128 a : p.probes) {
				in6_addr x = to_in6(a);
				struct loc_network* n = nullptr;
				CHECK(!loc_database_lookup(d.db, &x, &n), "a lookup failed");
				if (n) { out += text_of(n) + "\n"; loc_network_unref(n); }
				else out += "none\n";
			}
			for (auto& o : p.enums) {
				Enumerator e(c, d, o);
				for (auto& x : e.all()) out += x.str() + "\n";
			}
			for (auto& t : p.texts) {
				struct loc_network* n = nullptr;
				if (loc_network_new_from_string(c.ctx, &n, t.c_str())) { out += "invalid\n"; continue; }
				out += text_of(n) + " ";
				char* ptr = loc_network_reverse_pointer(n, nullptr);
				out += ptr ? ptr : "-";
				free(ptr);
				struct loc_network *s1 = nullptr, *s2 = nullptr;
				if (!loc_network_subnets(n, &s1, &s2)) {
					out += " " + text_of(s1) + " " + text_of(s2);
					struct loc_network_list* l = loc_network_exclude(n, s1);
					if (l) { for (size_t i = 0; i < loc_network_list_size(l); i++) { struct loc_network* x = loc_network_list_get(l, i); out += " " + text_of(x); loc_network_unref(x); } loc_network_list_unref(l); }
					loc_network_unref(s1);
					loc_network_unref(s2);
				}
				out += "\n";
				loc_network_unref(n);
			}
		}
		out += dump_db(c, d.db);
	}
	return out;
}

static void property(pbt::Src& s) {
	NetOpts o;
	// Files that several threads have open
	std::vector<Records> shared;
	std::vector<FILE*> files;
	struct G { std::vector<FILE*>& f; ~G() { for (auto x : f) fclose(x); } } g{files};
	std::vector<int> fds;
	for (size_t i = 0; i < 2; i++) {
		shared.push_back(gen_records(s, 16, o, s.coin()));
		FILE* f = mem_file();
		files.push_back(f);
		fds.push_back(fileno(f));
		Ctx c;
		Writer w(c);
		put_records(w.w, shared[i]);
		CHECK(!loc_writer_write(w.w, f, LOC_DATABASE_VERSION_UNSET), "could not write a database");
		fflush(f);
	}

	std::vector<Plan> plans(2 + s.choose(3));
	unsigned same = 0;
	for (auto& p : plans) {
		p.own = s.chance(40);
		p.shared = s.choose(2);
		if (p.own) p.r = gen_records(s, 16, o, s.coin());
		const std::vector<Entry>& e = p.own ? p.r.entries : shared[p.shared].entries;
		for (size_t i = 0, n = s.choose(10); i < n; i++) p.probes.push_back(gen_probe(s, e, o));
		for (size_t i = 0, n = s.choose(4); i < n; i++) {
			EnumOpts x = gen_filter(s, e);
			x.flatten = s.coin();
			if (s.chance(25)) { x = EnumOpts(); x.mode = LOC_DB_ENUMERATE_BOGONS; }
			p.enums.push_back(x);
		}
		for (size_t i = 0, n = s.choose(4); i < n; i++) p.texts.push_back(e.empty() || s.chance(30) ? gen_fresh_net(s, o).str() : gen_related_net(s, s.of(e).net, o).str());
		p.rounds = 1 + s.choose(4);
		same += !p.own;
	}
	say_entries(s, shared[0].entries);

	// One after the other
	std::vector<std::string> want;
	for (auto& p : plans) want.push_back(execute(p, fds));

	// At the same time
	for (int repeat = 0; repeat < 3; repeat++) {
	std::vector<std::string> got(plans.size()), errors(plans.size());
	{
		std::vector<std::thread> threads;
		std::atomic<size_t> ready{0};
		for (size_t i = 0; i < plans.size(); i++)
			threads.emplace_back([&, i] {
				for (ready++; ready < plans.size();) sched_yield();
				try { got[i] = execute(plans[i], fds); }
				catch (const pbt::Fail& e) { errors[i] = e.msg; }
				catch (...) { errors[i] = "failed"; }
			});
		for (auto& t : threads) t.join();
	}
	for (size_t i = 0; i < plans.size(); i++) {
		CHECK(errors[i].empty(), "what works alone fails in one of %zu threads: %s", plans.size(), errors[i].c_str());
		if (got[i] != want[i]) {
			size_t k = 0;
			while (k < got[i].size() && k < want[i].size() && got[i][k] == want[i][k]) k++;
			k = k < 40 ? 0 : k - 40;
			pbt::fail("one of %zu threads has seen '%s' instead of '%s'", plans.size(), got[i].substr(k, 120).c_str(), want[i].substr(k, 120).c_str());
		}
	}
	}
	s.say("%zu threads, %u of which share files", plans.size(), same);
	if (same > 1) s.label("same file in several threads");
	unsigned busy = 0;
	for (auto& p : plans) busy += !p.probes.empty() || !p.texts.empty();
	if (busy > 1) s.nontrivial();
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C32",
		"2-4 threads, each with a context of its own, write a database, or open one that others have open, too, look addresses up, enumerate (also flattened and bogons), parse, print and split networks; what each of them sees is compared with what it sees alone, under the thread sanitizer; "
		"non-trivial: at least two threads that look up or print something", property };
	return pbt::pbt_main(argc, argv, p);
}
