"""
	The bindings give back what they take
"""
import gc
import ctypes
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import C16
import C17
import pbt
from pbt import check

allocated = None

def setup():
	global allocated
	C16.setup()
	C17.setup()
	preload = os.environ["LD_PRELOAD"] + ":" + os.path.join(os.environ["VERIF_ALLOCATED"], "allocated.so")
	for server in (C17.lua, C17.perl):
		server.env = dict(server.env, LD_PRELOAD=preload)
		# Not in the middle of a case
		server.limit = None
	allocated = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes")
	allocated.restype = ctypes.c_size_t

class Again(pbt.Src):
	"""
		Makes the same choices again
	"""
	def __init__(self, choices):
		self.again, self.pos = choices, 0
		self.labels, self.description = [], []

	def choose(self, n):
		v = self.again[self.pos] if self.pos < len(self.again) else 0
		self.pos += 1
		return min(v, n - 1)

def next_fd():
	fd = os.dup(2)
	os.close(fd)
	return fd

class Python(object):
	name, prop = "Python", staticmethod(C16.prop)

	def measure(self):
		gc.collect()
		yield self.name, allocated(), next_fd()

class Others(object):
	name, prop = "Lua and Perl", staticmethod(C17.prop)

	def measure(self):
		lua, = C17.lua.get("collectgarbage(); collectgarbage(); return os.getenv('VERIF_ALLOCATED')")
		perl, = C17.perl.get("getlogin")
		for server, v in ((C17.lua, lua), (C17.perl, perl)):
			yield server.name, int(v), len(os.listdir("/proc/%d/fd" % server.process.pid))

ROUNDS = 5
WARM = 40

def growth(what, choices):
	"""
		Runs the case again and again, returns what has grown every time
	"""
	first = last = list(what.measure())
	grown = [True] * len(first)
	for i in range(ROUNDS):
		what.prop(Again(choices))
		now = list(what.measure())
		for j, (a, b) in enumerate(zip(last, now)):
			grown[j] = grown[j] and (b[1] > a[1] or b[2] > a[2])
		last = now
		if not any(grown):
			return []
	return ["%s has lost %d bytes of memory and %d file descriptors in %d repetitions" % (a[0], b[1] - a[1], b[2] - a[2], ROUNDS)
		for g, a, b in zip(grown, first, last) if g]

def prop(s):
	what = (Python, Others)[s.pick(3, 1)]()
	start = s.pos
	what.prop(s)
	choices = list(s.shared.choices[start:s.pos])
	if growth(what, choices):
		# Something may be kept for later, like OpenSSL does with its last 16 errors
		for i in range(WARM):
			what.prop(Again(choices))
		lost = growth(what, choices)
		check(not lost, "%s", "; ".join(lost))

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C28",
		"a case of C16 (Python) or C17 (Lua and Perl), i.e. a database of 0-16 networks and 1-13 operations on it and on objects, with valid, invalid and arbitrary arguments, is run once and then up to five times again (and, if anything has grown, 45 times more), and memory (exactly, from the address sanitizer's allocator, after a garbage collection) and file descriptors in use are compared: what grows every time is lost; "
		"non-trivial: more than two networks", prop, setup, cpu=120)))
