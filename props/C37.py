"""
	The Python binding does not give wrong answers when memory runs out
"""
import ctypes
import os

import model
import pbt
import testkeys
from pbt import check
from pyloc import MemFile, entry_of, fill

location = oom = None

def setup():
	global location, oom
	import location as l
	location = l
	oom = ctypes.CDLL(os.path.join(os.environ["VERIF_OOM"], "oom.so"))
	oom.oom_begin.argtypes = [ctypes.c_long, ctypes.c_int]
	oom.oom_end.restype = ctypes.c_long
	assert oom.oom_find() >= 2

class Ended(object):
	"""
		A call that raised an exception
	"""
	def __init__(self, e):
		self.e = e

	def __repr__(self):
		return "%r" % self.e

def call(fn, n=-1, all=0):
	"""
		Calls the function while the n-th request for memory fails (and all after it): returns its result, and how many requests there were
	"""
	oom.oom_begin(n, all)
	try:
		r = fn()
		abs(0)
	except Exception as e:
		oom.oom_end()
		if isinstance(e, SystemError) and ("exception set" in str(e) or "without setting" in str(e)):
			raise pbt.Fail("SystemError: %s" % e)
		return Ended(e), 0
	return r, oom.oom_end()

def network(n):
	return n and (str(n), n.country_code, n.asn, n.family, n.first_address, n.last_address, n._first_address, n._last_address, [n.has_flag(f) for f in model.FLAGS])

def as_(a):
	return a and (a.number, a.name, str(a), repr(a))

def country(c):
	return c and (c.code, c.name, c.continent_code, str(c), repr(c))

def gen_query(s, db, r, f):
	"""
		Returns a description, and a function that has no effects on anything that exists
	"""
	addr = model.addr_str(model.gen_probe(s, r.entries))
	net = str(model.gen_net(s, [e.net for e in r.entries], model.Opts()) if s.coin() or not r.entries else s.of(r.entries).net)
	k = s.choose(18)
	if k == 0:
		return "lookup(%s)" % addr, lambda: network(db.lookup(addr))
	if k == 1:
		n = s.of(sorted(r.ases)) if r.ases and s.chance(80) else model.gen_asn(s)
		return "get_as(%d)" % n, lambda: as_(db.get_as(n))
	if k == 2:
		code = s.of(sorted(r.countries)) if r.countries and s.chance(80) else "ZZ"
		return "get_country(%s)" % code, lambda: country(db.get_country(code))
	if k == 3:
		return "ases", lambda: list(map(as_, db.ases))
	if k == 4:
		return "countries", lambda: list(map(country, db.countries))
	if k == 5:
		return "networks", lambda: list(map(network, db.networks))
	if k == 6:
		return "networks_flattened", lambda: list(map(network, db.networks_flattened))
	if k == 7:
		family = s.of((0, 2, 10))
		return "list_bogons(%d)" % family, lambda: [network(n) for _, n in zip(range(20), db.list_bogons(family=family))]
	if k == 8:
		text = s.of([name[:3] for name in r.ases.values() if name] + ["x", "AS", ""])
		return "search_as(%r)" % text, lambda: list(map(as_, db.search_as(text)))
	if k in (9, 10):
		kw = {}
		if s.coin():
			kw["country_codes"] = [s.of([e.cc for e in r.entries if e.cc] + ["DE", "US"]) for _ in range(1 + s.choose(3))]
		if s.coin():
			kw["asns"] = [s.of([e.asn for e in r.entries if e.asn] + [1]) for _ in range(1 + s.choose(3))]
		if s.coin():
			kw["flags"] = s.of(model.FLAGS)
		if s.coin():
			kw["family"] = s.of((2, 10))
		if s.coin():
			kw["flatten"] = True
		return "search_networks(%s)" % kw, lambda: list(map(network, db.search_networks(**kw)))
	if k == 11:
		other = str(model.gen_net(s, [e.net for e in r.entries], model.Opts()))
		return "Network(%s).exclude(%s)" % (net, other), lambda: list(map(network, location.Network(net).exclude(location.Network(other))))
	if k == 12:
		# A subnet in any case
		n = model.parse_net(net)
		a = model.addr_str(n.first)
		return "Network(%s).exclude(%s)" % (net, a), lambda: list(map(network, location.Network(net).exclude(location.Network(a))))
	if k == 13:
		suffix = s.of((None, "x."))
		return "Network(%s).reverse_pointer(%s)" % (net, suffix), lambda: location.Network(net).reverse_pointer(suffix=suffix)
	if k == 14:
		def make():
			n, a, c = location.Network(net), location.AS(5), location.Country("DE")
			n.country_code, n.asn, a.name, c.name, c.continent_code = "DE", 7, "name of the AS", "Germany", "EU"
			a.name, c.name = "another", "Deutschland"
			n.set_flag(1)
			return network(n), as_(a), country(c)
		return "objects", make
	if k == 15:
		def again():
			d = location.Database(f.path)
			return d.vendor, d.license, d.description, d.created_at, network(d.lookup(addr))
		return "Database()", again
	if k == 16:
		def verify():
			with MemFile(testkeys.EC1_PUBLIC) as key:
				return db.verify(key)
		# Saying that it cannot be verified is all that can be said
		return "verify()", verify
	def write():
		with MemFile() as x:
			w = location.Writer()
			fill(w, r)
			w.write(x.path)
			oom.oom_end()
			d = location.Database(x.path)
			return d.vendor, d.license, list(map(as_, d.ases)), list(map(country, d.countries)), list(map(network, d.networks))
	return "Writer()", write

def prop(s):
	r = model.gen_records(s, 10, None, s.coin())
	with MemFile() as f, MemFile(testkeys.EC1_PRIVATE) as key:
		w = location.Writer(key)
		fill(w, r)
		w.write(f.path)
		del w
		db = location.Database(f.path)
		s.say("%s; %s; %s;", r.entries[:8], r.ases, r.countries)
		failed = 0
		for i in range(1 + s.size(6)):
			what, fn = gen_query(s, db, r, f)
			want, count = call(fn)
			s.say("%s (%s requests)", what, count)
			for j in range(4):
				n, all = s.choose(max(count, 1)), s.choose(2)
				got, _ = call(fn, n, all)
				if isinstance(got, Ended):
					failed += 1
				else:
					check(got == want or (what == "verify()" and got is False), "%s gives %r instead of %r, when request %d of %d for memory fails", what, got, want, n, count)
			# With enough memory, all is as it was
			got, _ = call(fn)
			if isinstance(want, Ended):
				check(isinstance(got, Ended), "%s has ended with %s, but then returns %r", what, want, got)
			else:
				check(got == want, "%s gives %r instead of %r, after there was not enough memory", what, got, want)
	if failed:
		s.nontrivial()
		s.label("calls failed")

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C37",
		"a database of 0-10 networks, ASes and countries is opened in Python, and 1-7 calls (queries, enumerations, searches, operations on objects, opening, verifying and writing) are each made with enough memory, then four times while the n-th request for memory that the library or the module makes fails (alone or with all after it), and once more with enough memory; "
		"non-trivial: at least one call raised an exception", prop, setup)))
