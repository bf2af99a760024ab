"""
	A small property-based testing engine, for checks in Python. It works like pbt.hpp:

	Every random decision of a case is drawn through Src.choose(), so a case *is* its sequence of
	choices: it can be recorded, replayed and shrunk by editing the sequence. Zero is always the
	simplest choice. Cases run in forked workers, so that a crash of the interpreter, a sanitizer
	report or a hang (measured in CPU time) are observed from the outside and shrunk alike.
"""
import ctypes
import hashlib
import json
import mmap
import os
import random
import signal
import struct
import sys
import time
import traceback

MAX_CHOICES = 1 << 17
MSG = 8192
LARGE = 1 << 24
LARGE_CPU = 180

class Fail(Exception):
	pass

class Discard(Exception):
	pass

def check(cond, fmt, *args):
	if not cond:
		raise Fail(fmt % args if args else fmt)

class Shared(object):
	"""
		Memory shared by a worker and its supervisor: done, discarded, nontrivial, status, number of
		choices, length of message; then the message; then the choices
	"""
	def __init__(self):
		self.map = mmap.mmap(-1, 64 + MSG + 8 * MAX_CHOICES)
		self.head = memoryview(self.map)[:64].cast("Q")
		self.msg = memoryview(self.map)[64:64 + MSG]
		self.choices = memoryview(self.map)[64 + MSG:].cast("Q")

	def reset(self):
		self.head[3] = self.head[4] = self.head[5] = 0

	def set_message(self, msg):
		b = msg.encode(errors="replace")[:MSG]
		self.msg[:len(b)] = b
		self.head[5] = len(b)
		self.head[3] = 1

	def message(self):
		return bytes(self.msg[:self.head[5]]).decode(errors="replace")

	def sequence(self):
		return list(self.choices[:self.head[4]])

class Src(object):
	def __init__(self, shared, seed=None, replay=None, large=False):
		self.shared = shared
		self.force_large = large
		self.replay = replay
		self.random = random.Random(seed) if replay is None else None
		self.pos = 0
		self.is_nontrivial = False
		self.labels = []
		self.description = []

	def choose(self, n):
		"""
			A number in [0, n)
		"""
		pos = self.pos
		if pos >= MAX_CHOICES:
			raise Discard()
		if self.replay is not None:
			v = self.replay[pos] if pos < len(self.replay) else 0
			if v >= n:
				v = n - 1
		else:
			v = self.random.randrange(n) if n > 1 else 0
			if self.force_large:
				self.force_large = False
				v = n - 1
		self.shared.choices[pos] = v
		self.pos = self.shared.head[4] = pos + 1
		return v

	def range(self, lo, hi):
		return lo + self.choose(hi - lo + 1)

	def chance(self, percent):
		return self.choose(100) >= 100 - percent

	def coin(self):
		return self.choose(2) == 1

	def pick(self, *weights):
		x = self.choose(sum(weights))
		for i, w in enumerate(weights):
			if x < w:
				return i
			x -= w

	def of(self, seq):
		return seq[self.choose(len(seq))]

	def size(self, limit):
		limit = (min(limit, 4), min(limit, 12), min(limit, limit // 3 + 1), limit)[self.pick(4, 3, 2, 1)]
		return self.choose(limit + 1)

	def big(self, bits):
		"""
			A number of so many bits
		"""
		r = 0
		while bits > 0:
			n = min(bits, 32)
			r = r << n | self.choose(1 << n)
			bits -= n
		return r

	def shuffle(self, seq):
		for i in range(len(seq) - 1):
			if self.chance(40):
				j = i + self.choose(len(seq) - i)
				seq[i], seq[j] = seq[j], seq[i]

	def label(self, l):
		self.labels.append(l)

	def nontrivial(self):
		self.is_nontrivial = True

	def say(self, fmt, *args):
		self.description.append(fmt % args if args else fmt)

def case_seed(seed, i):
	return "%s/%s" % (seed, i)

def cpu_limit(seconds):
	# The default action of the signal ends the process, even when it is stuck in C
	signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
	signal.setitimer(signal.ITIMER_VIRTUAL, seconds)

def run_one(prop, src):
	"""
		Returns True if the case failed
	"""
	try:
		if prop.large and src.choose(LARGE) == LARGE - 1:
			cpu_limit(LARGE_CPU)
			prop.large(src)
		else:
			prop.fn(src)
		return False
	except Fail as e:
		src.shared.set_message(str(e))
		return True
	except Discard:
		raise
	except Exception as e:
		# Something in the code under test (or in the harness) raised what it should not
		src.shared.set_message("unexpected %s\n%s" % (e.__class__.__name__, traceback.format_exc()[-3000:]))
		return True

class Property(object):
	"""
		large is for cases of a scale that is too expensive to be run often; nlarge of those are run
	"""
	def __init__(self, id, rule, fn, setup=None, cpu=60, large=None, nlarge=0):
		self.id, self.rule, self.fn, self.setup, self.cpu, self.large, self.nlarge = id, rule, fn, setup, cpu, large, nlarge

def describe(status):
	if os.WIFSIGNALED(status):
		sig = os.WTERMSIG(status)
		if sig == signal.SIGVTALRM:
			return "does not terminate (CPU time limit for a single case exceeded)"
		return "the process was killed by signal %d (%s)" % (sig, signal.strsignal(sig))
	return "the process ended with status %d (sanitizer report or exit)" % os.WEXITSTATUS(status)

def child_io(log=None):
	fd = os.open(log or "/dev/null", os.O_WRONLY|os.O_CREAT|os.O_TRUNC, 0o644)
	os.dup2(fd, 1)
	os.dup2(fd, 2)
	os.close(fd)

def finish_child(code):
	try:
		sys.stdout.flush()
		sys.stderr.flush()
	except Exception:
		pass
	os._exit(code)

def replay_in_child(prop, choices, shared, limit, log=None):
	shared.reset()
	pid = os.fork()
	if pid == 0:
		code = 99
		try:
			child_io(log)
			if prop.setup:
				prop.setup()
			cpu_limit(limit)
			try:
				code = 1 if run_one(prop, Src(shared, replay=choices)) else 0
			except Discard:
				code = 0
		finally:
			finish_child(code)
	_, status = os.waitpid(pid, 0)
	failed = not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0)
	msg = None
	if failed:
		msg = shared.message() if shared.head[3] else describe(status)
	return failed, msg, shared.sequence()

def shrink(prop, best, shared, budget):
	deadline = time.monotonic() + budget
	attempts = 0

	def attempt(c):
		nonlocal best, attempts
		if time.monotonic() > deadline:
			return False
		attempts += 1
		failed, _, used = replay_in_child(prop, c, shared, prop.cpu)
		if failed:
			best = used if len(used) < len(c) else c
		return failed

	improved = True
	while improved and time.monotonic() < deadline:
		improved = False
		n = max(len(best) // 2, 1)
		while n >= 1:
			i = 0
			while i + n <= len(best) and time.monotonic() < deadline:
				if attempt(best[:i] + best[i + n:]):
					improved = True
				else:
					i += n
			n //= 2
		for n in (8, 4, 2):
			i = 0
			while i + n <= len(best) and time.monotonic() < deadline:
				if any(best[i:i + n]) and attempt(best[:i] + [0] * n + best[i + n:]):
					improved = True
				i += n
		i = 0
		while i < len(best) and time.monotonic() < deadline:
			if best[i]:
				if attempt(best[:i] + [0] + best[i + 1:]):
					improved = True
				else:
					lo, hi = 0, best[i]
					while hi - lo > 1 and i < len(best) and time.monotonic() < deadline:
						mid = (lo + hi) // 2
						if attempt(best[:i] + [mid] + best[i + 1:]):
							improved, hi = True, mid
							if i >= len(best) or best[i] != mid:
								break
						else:
							lo = mid
			i += 1
	return best, attempts

def read_replay(path):
	r = []
	with open(path) as f:
		for line in f:
			if not line.startswith("#"):
				r += [int(x) for x in line.split()]
	return r

def worker(prop, seed, cases, workers, w, cap, start, shared, out):
	labels, distinct, samples = {}, set(), []
	for i in range(w, cases, workers):
		if time.monotonic() - start > cap:
			break
		cpu_limit(prop.cpu)
		src = Src(shared, seed=case_seed(seed, i), large=prop.large and i < prop.nlarge)
		shared.reset()
		try:
			if run_one(prop, src):
				return 1
		except Discard:
			shared.head[1] += 1
			shared.head[0] += 1
			continue
		shared.head[0] += 1
		for l in src.labels:
			labels[l] = labels.get(l, 0) + 1
		if src.is_nontrivial:
			shared.head[2] += 1
			distinct.add(hashlib.blake2b(bytes(shared.choices[:shared.head[4]].cast("B")), digest_size=8).hexdigest())
			if len(samples) < 2 and src.description:
				samples.append(" ".join(src.description)[:1500])
	with open(out, "w") as f:
		json.dump(dict(labels=labels, distinct=sorted(distinct), samples=samples), f)
	return 0

def main(prop):
	argv = sys.argv
	if len(argv) == 3 and argv[1] == "replay":
		shared = Shared()
		if prop.setup:
			prop.setup()
		cpu_limit(prop.cpu)
		src = Src(shared, replay=read_replay(argv[2]))
		try:
			failed = run_one(prop, src)
		except Discard:
			failed = False
		print(" ".join(src.description))
		print("FAILED: %s" % shared.message() if failed else "passed")
		return 1 if failed else 0

	if len(argv) != 8 or argv[1] != "run":
		print("usage: %s run SEED CASES WORKERS TIMECAP RESULT.json REPLAY | replay FILE" % argv[0])
		return 2

	seed, cases, workers, cap, result, replay = int(argv[2]), int(argv[3]), int(argv[4]), float(argv[5]), argv[6], argv[7]
	start = time.monotonic()
	shared = [Shared() for w in range(workers)]
	outs = ["%s.w%d" % (result, w) for w in range(workers)]
	pids = {}
	for w in range(workers):
		if os.path.exists(outs[w]):
			os.unlink(outs[w])
		pid = os.fork()
		if pid == 0:
			code = 99
			try:
				child_io("%s.log%d" % (result, w))
				if prop.setup:
					prop.setup()
				code = worker(prop, seed, cases, workers, w, cap, start, shared[w], outs[w])
			except BaseException:
				traceback.print_exc()
			finally:
				finish_child(code)
		pids[pid] = w

	failed, first, infrastructure = None, None, False
	while pids:
		pid, status = os.wait()
		w = pids.pop(pid, None)
		if w is None:
			continue
		if failed is None and not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0):
			if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
				infrastructure = True
			failed = w
			first = shared[w].message() if shared[w].head[3] else describe(status)
			for p in pids:
				os.kill(p, signal.SIGKILL)

	if infrastructure:
		sys.stderr.write(open("%s.log%d" % (result, failed)).read())
		return 2

	labels, distinct, samples = {}, set(), []
	for o in outs:
		if os.path.exists(o):
			with open(o) as f:
				d = json.load(f)
			os.unlink(o)
			for k, v in d["labels"].items():
				labels[k] = labels.get(k, 0) + v
			distinct.update(d["distinct"])
			samples += d["samples"]

	r = dict(evaluations=sum(s.head[0] for s in shared), discarded=sum(s.head[1] for s in shared),
		distinct_nontrivial=len(distinct), rule=prop.rule, labels=labels, samples=samples[:10],
		violation=False, message="", unreproducible=0)

	if failed is not None:
		choices = shared[failed].sequence()
		sh = Shared()
		again, msg, used = replay_in_child(prop, choices, sh, prop.cpu)
		if again:
			best, attempts = shrink(prop, used, sh, 60)
			log = "%s.shrunk" % result
			_, msg2, used = replay_in_child(prop, best, sh, prop.cpu, log)
			with open(replay, "w") as f:
				f.write("# %s\n" % prop.id)
				for line in (msg2 or msg or "").splitlines():
					f.write("# %s\n" % line)
				f.write(" ".join(str(x) for x in best) + "\n")
			r.update(violation=True, message=msg2 or msg, first_failure=first, shrink_attempts=attempts)
		else:
			r["unreproducible"] = 1
			r["message"] = first

	with open(result, "w") as f:
		json.dump(r, f, indent=1)
	return 1 if r["violation"] else 0
