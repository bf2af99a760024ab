/*
	A small property-based testing engine.

	Every random decision of a case is drawn through Src::choose(), so a case *is* its
	sequence of choices: it can be recorded, replayed, and shrunk by editing the sequence
	(deleting blocks, lowering numbers). Zero is always the simplest choice.

	Cases run in forked workers, so that a crash, a sanitizer report, a hang (measured in CPU
	time) or a failed assertion are all observed from the outside and shrunk alike.
*/
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static const size_t MAX_CHOICES = 1 << 18;

struct Fail { std::string msg; };
struct Discard {};

static inline std::string vfmt(const char* f, va_list ap) {
	char buf[8192];
	vsnprintf(buf, sizeof(buf), f, ap);
	return buf;
}

__attribute__((format(printf, 1, 2)))
static inline std::string fmt(const char* f, ...) {
	va_list ap;
	va_start(ap, f);
	std::string s = vfmt(f, ap);
	va_end(ap);
	return s;
}

// State shared between a worker and the supervisor
struct Shared {
	volatile uint64_t current;
	volatile uint64_t done;
	volatile uint64_t discarded;
	volatile uint64_t nontrivial;
	volatile uint32_t finished;
	volatile uint32_t status; // 0 running, 1 assertion failed, 2 hang
	volatile uint64_t nchoices;
	char msg[8192];
	uint64_t choices[MAX_CHOICES];
};

struct Src {
	Shared* sh;
	bool replaying;
	const std::vector<uint64_t>* in;
	size_t pos = 0;
	uint64_t state[4];

	// Classification of this case
	bool is_nontrivial = false;
	std::vector<const char*> labels;
	std::string description;
	bool want_description = false;
	bool force_large = false;

	void seed(uint64_t s) {
		for (int i = 0; i < 4; i++) {
			s += 0x9e3779b97f4a7c15ull;
			uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			state[i] = z ^ (z >> 31);
		}
	}

	uint64_t next() {
		auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
		const uint64_t r = rotl(state[1] * 5, 7) * 9;
		const uint64_t t = state[1] << 17;
		state[2] ^= state[0]; state[3] ^= state[1]; state[1] ^= state[2]; state[0] ^= state[3];
		state[2] ^= t; state[3] = rotl(state[3], 45);
		return r;
	}

	// A number in [0, n); n == 0 stands for the full 64 bit range
	uint64_t choose(uint64_t n) {
		uint64_t v;

		if (replaying) {
			v = pos < in->size() ? (*in)[pos] : 0;
			if (n && v >= n)
				v = n - 1;
		} else {
			v = next();
			if (n)
				v %= n;
			if (force_large) {
				v = n - 1;
				force_large = false;
			}
		}

		if (pos < MAX_CHOICES) {
			sh->choices[pos] = v;
			sh->nchoices = pos + 1;
		} else {
			throw Discard();
		}
		pos++;
		return v;
	}

	// Inclusive range
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choose((uint64_t)(hi - lo) + 1); }
	bool chance(unsigned percent) { return choose(100) >= 100 - percent; }
	bool coin() { return choose(2); }

	// Returns an index according to the weights
	size_t pick(std::initializer_list<unsigned> weights) {
		unsigned total = 0;
		for (unsigned w : weights)
			total += w;
		uint64_t x = choose(total);
		size_t i = 0;
		for (unsigned w : weights) {
			if (x < w)
				return i;
			x -= w;
			i++;
		}
		return i - 1;
	}

	template <class T> const T& of(const std::vector<T>& v) { return v[choose(v.size())]; }

	// A size with a long tail: mostly small, sometimes up to max
	size_t size(size_t max) {
		size_t limit;
		switch (pick({4, 3, 2, 1})) {
			case 0: limit = std::min<size_t>(max, 4); break;
			case 1: limit = std::min<size_t>(max, 12); break;
			case 2: limit = std::min<size_t>(max, max / 3 + 1); break;
			default: limit = max; break;
		}
		return choose(limit + 1);
	}

	void label(const char* l) { labels.push_back(l); }
	void nontrivial() { is_nontrivial = true; }

	__attribute__((format(printf, 2, 3)))
	void say(const char* f, ...) {
		if (!want_description)
			return;
		va_list ap;
		va_start(ap, f);
		description += vfmt(f, ap);
		va_end(ap);
	}
};

__attribute__((noreturn, format(printf, 1, 2)))
static inline void fail(const char* f, ...) {
	va_list ap;
	va_start(ap, f);
	std::string s = vfmt(f, ap);
	va_end(ap);
	throw Fail{s};
}

#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

struct Property {
	const char* id;
	const char* rule;
	void (*fn)(Src&);
	void (*setup)() = nullptr; // run once per process before any case
	void (*large)(Src&) = nullptr; // cases of a scale that is too expensive to be run often
	unsigned nlarge = 0; // how many of those are run (and hardly any more than that)
};

static const uint64_t LARGE = 1 << 24;
static const unsigned LARGE_CPU = 90;

static Shared* g_shared = nullptr;

static void on_cpu_limit(int) {
	if (g_shared) {
		g_shared->status = 2;
		strcpy(g_shared->msg, "does not terminate (CPU time limit for a single case exceeded)");
	}
	_exit(77);
}

static inline void cpu_limit(unsigned seconds) {
	struct itimerval it = {};
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static inline uint64_t hash_choices(const Shared* sh) {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < sh->nchoices; i++) {
		h ^= sh->choices[i] + 0x9e3779b97f4a7c15ull + (h << 6);
		h *= 1099511628211ull;
	}
	return h;
}

static inline double now() {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

static inline std::string json_escape(const std::string& s) {
	std::string out;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { out += '\\'; out += c; }
		else if (c == '\n') out += "\\n";
		else if (c < 0x20 || c >= 0x7f) out += fmt("\\u%04x", c);
		else out += c;
	}
	return out;
}

static inline Shared* make_shared() {
	void* p = mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared*)p;
}

// Runs one case in this process; returns true if it failed
static inline bool run_one(const Property& p, Src& s, bool rethrow_discard = false) {
	try {
		if (p.large && s.choose(LARGE) == LARGE - 1) {
			cpu_limit(LARGE_CPU);
			p.large(s);
		} else {
			p.fn(s);
		}
		return false;
	} catch (const Fail& f) {
		snprintf(s.sh->msg, sizeof(s.sh->msg), "%s", f.msg.c_str());
		s.sh->status = 1;
		return true;
	} catch (const Discard&) {
		if (rethrow_discard)
			throw;
		return false;
	}
}

struct Outcome {
	bool failed;
	std::string msg;
	std::vector<uint64_t> choices; // as consumed
};

// Replays a choice sequence in a child process
static inline Outcome replay_in_child(const Property& p, const std::vector<uint64_t>& in,
		Shared* sh, unsigned limit, const char* log) {
	sh->status = 0;
	sh->nchoices = 0;
	sh->msg[0] = '\0';
	fflush(stdout);

	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(log ? log : "/dev/null", O_WRONLY|O_CREAT|O_TRUNC, 0644);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
		g_shared = sh;
		signal(SIGVTALRM, on_cpu_limit);
		if (p.setup)
			p.setup();
		cpu_limit(limit);
		Src s;
		s.sh = sh; s.replaying = true; s.in = &in;
		bool failed = run_one(p, s);
		_exit(failed ? 1 : 0);
	}

	int status = 0;
	waitpid(pid, &status, 0);

	Outcome o;
	o.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
	if (o.failed) {
		if (sh->status)
			o.msg = sh->msg;
		else if (WIFSIGNALED(status))
			o.msg = fmt("process killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
		else
			o.msg = fmt("process ended with status %d (sanitizer report or exit)", WEXITSTATUS(status));
	}
	o.choices.assign(sh->choices, sh->choices + sh->nchoices);
	return o;
}

static inline uint64_t case_seed(uint64_t seed, uint64_t i) {
	return seed * 0x100000001b3ull + i * 0x9e3779b1ull + 12345;
}

// Runs all cases of one worker up to (and including) a case; returns true if any failed
static inline bool stream_in_child(const Property& p, uint64_t seed, unsigned workers, unsigned w,
		uint64_t upto, Shared* sh) {
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open("/dev/null", O_WRONLY);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
		g_shared = sh;
		signal(SIGVTALRM, on_cpu_limit);
		if (p.setup)
			p.setup();
		for (uint64_t i = w; i <= upto; i += workers) {
			cpu_limit(30);
			Src s;
			s.sh = sh; s.replaying = false; s.in = nullptr;
			s.seed(case_seed(seed, i));
			s.force_large = p.large && i < p.nlarge;
			s.want_description = false;
			if (run_one(p, s))
				_exit(1);
		}
		_exit(0);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	return !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}

static inline std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best,
		Shared* sh, double budget, unsigned& attempts) {
	const double deadline = now() + budget;
	attempts = 0;

	auto attempt = [&](const std::vector<uint64_t>& c) {
		if (now() > deadline)
			return false;
		attempts++;
		Outcome o = replay_in_child(p, c, sh, 5, NULL);
		if (!o.failed)
			return false;
		// Prefer what was really consumed, it is never longer in effect
		if (o.choices.size() < c.size())
			best = o.choices;
		else
			best = c;
		return true;
	};

	bool improved = true;
	while (improved && now() < deadline) {
		improved = false;

		// Delete blocks
		for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() < deadline;) {
				std::vector<uint64_t> c(best);
				c.erase(c.begin() + i, c.begin() + i + len);
				if (attempt(c))
					improved = true;
				else
					i += len;
			}
			if (len == 1)
				break;
		}

		// Zero blocks
		for (size_t len : {8, 4, 2}) {
			for (size_t i = 0; i + len <= best.size() && now() < deadline; i += len) {
				std::vector<uint64_t> c(best);
				bool any = false;
				for (size_t j = i; j < i + len; j++) { any |= c[j] != 0; c[j] = 0; }
				if (any && attempt(c))
					improved = true;
			}
		}

		// Lower single values
		for (size_t i = 0; i < best.size() && now() < deadline; i++) {
			if (!best[i])
				continue;
			std::vector<uint64_t> c(best);
			c[i] = 0;
			if (attempt(c)) { improved = true; continue; }

			uint64_t lo = 0, hi = best[i];
			while (hi - lo > 1 && i < best.size() && now() < deadline) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best;
				c[i] = mid;
				if (attempt(c)) { improved = true; hi = mid; if (i >= best.size() || best[i] != mid) break; }
				else lo = mid;
			}
		}
	}

	return best;
}

static inline std::vector<uint64_t> read_replay(const char* path) {
	std::vector<uint64_t> v;
	FILE* f = fopen(path, "r");
	if (!f) { perror(path); exit(2); }
	char line[1 << 16];
	while (fgets(line, sizeof(line), f)) {
		if (*line == '#')
			continue;
		for (char* p = strtok(line, " \n"); p; p = strtok(NULL, " \n"))
			v.push_back(strtoull(p, NULL, 10));
	}
	fclose(f);
	return v;
}

/*
	usage: PROG run SEED CASES WORKERS TIMECAP RESULT.json REPLAYFILE
	       PROG replay FILE
*/
static inline int pbt_main(int argc, char** argv, const Property& p) {
	const std::string mode = argc > 1 ? argv[1] : "";

	if (mode == "replay" && argc == 3) {
		Shared* sh = make_shared();
		{
			// A recorded stream of cases?
			FILE* f = fopen(argv[2], "r");
			char line[4096];
			while (f && fgets(line, sizeof(line), f)) {
				unsigned long a, d; unsigned b; int c;
				if (sscanf(line, "stream %lu %u %d %lu", &a, &b, &c, &d) == 4) {
					bool failed = stream_in_child(p, a, b, c, d, sh);
					printf("%s\n", failed ? "FAILED" : "passed");
					return failed ? 1 : 0;
				}
			}
			if (f)
				fclose(f);
		}
		std::vector<uint64_t> in = read_replay(argv[2]);
		g_shared = sh;
		signal(SIGVTALRM, on_cpu_limit);
		if (p.setup)
			p.setup();
		cpu_limit(60);
		Src s;
		s.sh = sh; s.replaying = true; s.in = &in; s.want_description = true;
		bool failed = run_one(p, s);
		printf("%s\n", s.description.c_str());
		printf("%s%s\n", failed ? "FAILED: " : "passed", failed ? sh->msg : "");
		return failed ? 1 : 0;
	}

	if (mode != "run" || argc != 8) {
		fprintf(stderr, "usage: %s run SEED CASES WORKERS TIMECAP RESULT.json REPLAY | replay FILE\n", argv[0]);
		return 2;
	}

	const uint64_t seed = strtoull(argv[2], NULL, 10);
	const uint64_t cases = strtoull(argv[3], NULL, 10);
	const unsigned workers = strtoul(argv[4], NULL, 10);
	const double timecap = strtod(argv[5], NULL);
	const std::string result = argv[6];
	const std::string replay = argv[7];

	const double start = now();
	std::vector<Shared*> shared;
	std::vector<pid_t> pids;
	std::vector<std::string> statfiles;

	for (unsigned w = 0; w < workers; w++) {
		shared.push_back(make_shared());
		statfiles.push_back(result + fmt(".w%u", w));
	}

	fflush(stdout);
	for (unsigned w = 0; w < workers; w++) {
		pid_t pid = fork();
		if (pid == 0) {
			Shared* sh = shared[w];
			g_shared = sh;
			int fd = open((result + fmt(".log%u", w)).c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
			if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
			signal(SIGVTALRM, on_cpu_limit);
			if (p.setup)
				p.setup();

			std::map<std::string, uint64_t> labels;
			std::unordered_set<uint64_t> distinct;
			std::vector<std::string> samples;

			for (uint64_t i = w; i < cases; i += workers) {
				if ((i / workers) % 16 == 0 && now() - start > timecap)
					break;
				cpu_limit(30);
				Src s;
				s.sh = sh; s.replaying = false; s.in = nullptr;
				s.seed(case_seed(seed, i));
				s.force_large = p.large && i < p.nlarge;
				s.want_description = (samples.size() < 2 && i / workers > 3);
				sh->current = i;
				sh->nchoices = 0;
				bool discarded = false;
				try {
					if (run_one(p, s, true))
						_exit(1);
				} catch (const Discard&) {
					discarded = true;
				}
				sh->done++;
				if (discarded) { sh->discarded++; continue; }
				for (const char* l : s.labels)
					labels[l]++;
				if (s.is_nontrivial) {
					sh->nontrivial++;
					if (distinct.size() < 4000000)
						distinct.insert(hash_choices(sh));
					if (s.want_description && !s.description.empty())
						samples.push_back(s.description.substr(0, 1500));
				}
			}

			FILE* f = fopen(statfiles[w].c_str(), "w");
			if (f) {
				for (auto& l : labels)
					fprintf(f, "L %s\t%lu\n", l.first.c_str(), (unsigned long)l.second);
				for (auto h : distinct)
					fprintf(f, "H %lu\n", (unsigned long)h);
				for (auto& smp : samples)
					fprintf(f, "S %s\n", json_escape(smp).c_str());
				fclose(f);
			}
			sh->finished = 1;
			_exit(0);
		}
		pids.push_back(pid);
	}

	// Wait for the workers; stop at the first failure
	std::vector<bool> running(workers, true);
	unsigned left = workers;
	int failed_worker = -1;
	unsigned unreproducible = 0;
	std::string failure;
	std::vector<uint64_t> failing;

	while (left) {
		int status = 0;
		pid_t pid = waitpid(-1, &status, 0);
		if (pid < 0)
			break;
		for (unsigned w = 0; w < workers; w++) {
			if (pids[w] != pid || !running[w])
				continue;
			running[w] = false;
			left--;
			if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && failed_worker < 0) {
				failing.assign(shared[w]->choices, shared[w]->choices + shared[w]->nchoices);
				failure = shared[w]->status ? std::string(shared[w]->msg)
					: WIFSIGNALED(status) ? fmt("process killed by signal %d", WTERMSIG(status))
					: fmt("process ended with status %d", WEXITSTATUS(status));
				failed_worker = w;
				for (unsigned o = 0; o < workers; o++)
					if (running[o])
						kill(pids[o], SIGKILL);
			}
		}
	}

	unsigned attempts = 0;
	bool violation = false;
	std::string first_failure = failure;

	if (failed_worker >= 0) {
		Shared* sh = make_shared();

		// Confirm that it reproduces from the choices alone
		unsigned confirmed = 0;
		// (which takes long if it does not terminate, hence less often and without shrinking if it is a large one)
		const bool slow = shared[failed_worker]->status == 2 && p.large && failing.size() && failing[0] == LARGE - 1;
		const unsigned repeats = slow ? 1 : 3;
		for (unsigned i = 0; i < repeats; i++)
			if (replay_in_child(p, failing, sh, 30, NULL).failed)
				confirmed++;

		if (confirmed == repeats) {
			std::vector<uint64_t> best = failing;
			unsigned again = 0;
			std::string log = replay + ".log";
			if (!slow) {
				best = shrink(p, failing, sh, 45, attempts);
				for (int i = 0; i < 3; i++) {
					Outcome o = replay_in_child(p, best, sh, 30, log.c_str());
					if (o.failed) { again++; failure = o.msg; }
				}
				if (again < 3)
					best = failing;
			}
			violation = true;

			FILE* f = fopen(replay.c_str(), "w");
			if (!f) { perror(replay.c_str()); return 2; }
			fprintf(f, "# property %s: shrunk choice sequence (%zu choices, from %zu)\n", p.id, best.size(), failing.size());
			std::string m = failure;
			for (auto& c : m) if (c == '\n') c = ' ';
			fprintf(f, "# %s\n", m.c_str());
			for (size_t i = 0; i < best.size(); i++)
				fprintf(f, "%lu%s", (unsigned long)best[i], i % 32 == 31 ? "\n" : " ");
			fprintf(f, "\n");
			fclose(f);
		} else {
			// It may need the cases that ran before it in the same process: run them again
			const uint64_t upto = shared[failed_worker]->current;
			unsigned streamed = 0;
			for (int i = 0; i < 2; i++)
				if (stream_in_child(p, seed, workers, failed_worker, upto, sh))
					streamed++;
			if (streamed == 2) {
				violation = true;
				FILE* f = fopen(replay.c_str(), "w");
				if (!f) { perror(replay.c_str()); return 2; }
				fprintf(f, "# property %s: only fails after the cases before it\n# %s\n", p.id, failure.c_str());
				fprintf(f, "stream %lu %u %d %lu\n", (unsigned long)seed, workers, failed_worker, (unsigned long)upto);
				fclose(f);
			} else {
				unreproducible++;
			}
		}
	}

	uint64_t done = 0, discarded = 0, nontrivial = 0;
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	for (unsigned w = 0; w < workers; w++) {
		done += shared[w]->done; discarded += shared[w]->discarded; nontrivial += shared[w]->nontrivial;
		FILE* f = fopen(statfiles[w].c_str(), "r");
		if (!f)
			continue;
		static char line[1 << 16];
		while (fgets(line, sizeof(line), f)) {
			size_t n = strlen(line);
			if (n && line[n - 1] == '\n') line[n - 1] = '\0';
			if (line[0] == 'H') distinct.insert(strtoull(line + 2, NULL, 10));
			else if (line[0] == 'S') { if (samples.size() < 5) samples.push_back(line + 2); }
			else if (line[0] == 'L') {
				char* t = strchr(line, '\t');
				if (t) { *t = '\0'; labels[line + 2] += strtoull(t + 1, NULL, 10); }
			}
		}
		fclose(f);
		unlink(statfiles[w].c_str());
	}

	FILE* f = fopen(result.c_str(), "w");
	if (!f) { perror(result.c_str()); return 2; }
	fprintf(f, "{\"evaluations\": %lu, \"discarded\": %lu, \"nontrivial\": %lu, \"distinct_nontrivial\": %zu,\n",
		(unsigned long)done, (unsigned long)discarded, (unsigned long)nontrivial, distinct.size());
	fprintf(f, " \"rule\": \"%s\",\n \"labels\": {", json_escape(p.rule).c_str());
	const char* sep = "";
	for (auto& l : labels) { fprintf(f, "%s\"%s\": %lu", sep, json_escape(l.first).c_str(), (unsigned long)l.second); sep = ", "; }
	fprintf(f, "},\n \"samples\": [");
	sep = "";
	for (auto& s : samples) { fprintf(f, "%s\"%s\"", sep, s.c_str()); sep = ",\n  "; }
	fprintf(f, "],\n \"violation\": %s, \"message\": \"%s\", \"first_failure\": \"%s\", \"failed_case\": %lu, \"unreproducible\": %u, \"shrink_attempts\": %u, \"wall_s\": %.3f}\n",
		violation ? "true" : "false", json_escape(failure).c_str(), json_escape(first_failure).c_str(),
		failed_worker >= 0 ? (unsigned long)shared[failed_worker]->current : 0ul,
		unreproducible, attempts, now() - start);
	fclose(f);

	return violation ? 1 : 0;
}

} // namespace pbt
