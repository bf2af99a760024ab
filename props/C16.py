"""
	The Python binding gives the library's answers or a proper exception
"""
import os
import random
import socket
import struct

import model
import pbt
import testkeys
from pbt import check
from pyloc import MemFile, damage, entry_of, fill

location = None

def setup():
	global location
	import location as l
	location = l

PROPER = (ValueError, TypeError, OverflowError, OSError, IndexError, AttributeError)

def flush():
	# A call that left an exception behind is found out by the next one
	abs(0)
	len("")

def raises(kinds, what, fn, *args, **kwargs):
	try:
		r = fn(*args, **kwargs)
		flush()
	except kinds:
		flush()
		return
	except SystemError:
		raise pbt.Fail("%s raised a SystemError instead of a proper exception" % what)
	except Exception as e:
		raise pbt.Fail("%s raised %r instead of %s" % (what, e, kinds))
	raise pbt.Fail("%s returned %r instead of raising %s" % (what, r, kinds))

BAD_ADDRESSES = ("", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::g", ":::", "1.2.3.4/33", "10.0.0.0/", "1.2.3.4 ", "fe80::1%eth0", "\u00e4")
BAD_CODES = ("", "D", "DEU", "de", "dE", "X1", "XX", "D1", "\u00c4", "1E")

def matches(e, cc, asns, flags, family):
	if family and e.net.family != family:
		return False
	if cc is None and asns is None and not flags:
		return True
	return bool((cc and e.cc in cc) or (asns and e.asn in asns) or (flags & e.flags))

def ranges_of(nets):
	"""
		Joins networks in ascending order into ranges, checking that they do not overlap
	"""
	r, last = [], -1
	for n in nets:
		check(n.first > last, "%s comes after an address %s", n, model.addr_str(max(last, 0)))
		if r and r[-1][1] + 1 == n.first:
			r[-1][1] = n.last
		else:
			r.append([n.first, n.last])
		last = n.last
	return r

def expected_ranges(entries, accept):
	r = []
	for first, last in model.intervals([e.net for e in entries]):
		if accept(model.lpm(entries, first), first):
			if r and r[-1][1] + 1 == first:
				r[-1][1] = last
			else:
				r.append([first, last])
	return r

def op_lookup(s, db, r, distinct):
	a = model.gen_probe(s, r.entries)
	text = model.addr_str(a)
	n = db.lookup(text)
	want = model.lpm(r.entries, a)
	if want is None:
		check(n is None, "%s was found in %s", text, n)
		return
	check(n is not None, "%s was not found, but is in %s", text, want)
	got = entry_of(n)
	check(got.info == want.info, "%s is %r instead of %r", text, got, want)
	check(not distinct or got.net == want.net, "%s is %r instead of %r", text, got, want)
	return got, n

def op_bad_lookup(s, db, r, distinct):
	a = s.of(BAD_ADDRESSES)
	raises(ValueError, "looking up %r" % a, db.lookup, a)

def check_as(a, number, r):
	name = r.ases[number]
	check(a.number == number, "AS%d has the number %s", number, a.number)
	check((a.name or None) == name, "AS%d is named %r instead of %r", number, a.name, name)
	text = "AS%d - %s" % (number, name) if name else "AS%d" % number
	check(str(a) == text or (not name and str(a).startswith(text)), "AS%d prints as %r", number, str(a))
	check(str(number) in repr(a), "AS%d is represented by %r", number, repr(a))

def op_get_as(s, db, r, distinct):
	if s.chance(15):
		n = s.of((-1, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 64, -(1 << 70)))
		raises((OverflowError, ValueError), "get_as(%d)" % n, db.get_as, n)
		return
	n = s.of(sorted(r.ases)) if r.ases and s.chance(70) else model.gen_asn(s)
	a = db.get_as(n)
	if n in r.ases:
		check(a is not None, "AS%d was not found", n)
		check_as(a, n, r)
	else:
		check(a is None, "AS%d was found: %s", n, a)

def check_country(c, code, r):
	name, continent = r.countries[code]
	check(c.code == code and str(c) == code, "%s has the code %s", code, c.code)
	check((c.name or None) == name, "%s is named %r instead of %r", code, c.name, name)
	check((c.continent_code or None) == continent, "%s is on %r instead of %r", code, c.continent_code, continent)

def op_get_country(s, db, r, distinct):
	if s.chance(20):
		code = s.of(BAD_CODES)
		raises(ValueError, "get_country(%r)" % code, db.get_country, code)
		return
	code = s.of(sorted(r.countries)) if r.countries and s.chance(70) else chr(65 + s.choose(23)) + chr(65 + s.choose(26))
	c = db.get_country(code)
	if code in r.countries:
		check(c is not None, "country %s was not found", code)
		check_country(c, code, r)
	else:
		check(c is None, "country %s was found: %s", code, c)

def op_lists(s, db, r, distinct):
	ases = list(db.ases)
	check([a.number for a in ases] == sorted(r.ases), "the ASes are %s instead of %s", ases, sorted(r.ases))
	for a in ases:
		check_as(a, a.number, r)
	countries = list(db.countries)
	check([c.code for c in countries] == sorted(r.countries), "the countries are %s instead of %s", countries, sorted(r.countries))
	for c in countries:
		check_country(c, c.code, r)

def op_metadata(s, db, r, distinct):
	for key in ("vendor", "description", "license"):
		check((getattr(db, key) or None) == getattr(r, key), "the %s is %r instead of %r", key, getattr(db, key), getattr(r, key))
	check(isinstance(db.created_at, int) and db.created_at > 1600000000, "created at %r", db.created_at)
	check("Database" in repr(db), "a database is represented by %r", repr(db))

def op_search_as(s, db, r, distinct):
	names = [n for n in r.ases.values() if n]
	text = s.of(names) if names and s.chance(70) else model.gen_name(s)
	if s.coin():
		i = s.choose(len(text))
		text = text[i:i + 1 + s.choose(4)]
	if s.coin():
		text = text.swapcase() if text.isascii() else text
	# Letters outside of ASCII have no case here
	low = lambda t: "".join(c.lower() if c.isascii() else c for c in t)
	want = sorted(n for n, name in r.ases.items() if name and low(text) in low(name))
	got = [a.number for a in db.search_as(text)]
	check(got == want, "searching for %r found %s instead of %s", text, got, want)

def gen_filter(s, r):
	kw = {}
	if s.coin():
		kw["country_codes"] = [c for c in (s.of(model.CODES) for i in range(s.choose(4))) if c]
	if s.coin():
		kw["asns"] = [(s.of(r.entries).asn if r.entries and s.chance(70) else model.gen_asn(s)) or 1 for i in range(s.choose(4))]
	# Many more, which hardly ever match
	if kw and s.chance(3):
		rnd = random.Random(s.choose(1 << 20))
		for i in range(s.size(300)):
			for k, l in kw.items():
				l.insert(rnd.randrange(len(l) + 1), rnd.randrange(10, 1 << 32) if k == "asns" else "".join((rnd.choice("ABCDEFGHIJKLMNOPQRSTUVW"), rnd.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))))
	if s.chance(40):
		kw["flags"] = s.choose(16)
	if s.coin():
		kw["family"] = s.of((0, socket.AF_INET, socket.AF_INET6))
	return kw

def op_search(s, db, r, distinct):
	kw = gen_filter(s, r)
	f = lambda e: matches(e, kw.get("country_codes"), kw.get("asns"), kw.get("flags", 0), kw.get("family", 0))
	if s.coin():
		# Flattened
		got = [entry_of(n) for n in db.search_networks(flatten=True, **kw)]
		for e in got:
			for a in (e.net.first, e.net.last):
				w = model.lpm(r.entries, a)
				check(w is not None and w.info == e.info, "search_networks(%s) yields %r, but %s is in %r", kw, e, model.addr_str(a), w)
		want = expected_ranges(r.entries, lambda e, a: e is not None and f(e))
		check(ranges_of([e.net for e in got]) == want, "search_networks(%s, flatten=True) yields %r", kw, got)
	elif distinct:
		got = [(e.net, e.info) for e in map(entry_of, db.search_networks(**kw))]
		want = sorted((e.net, e.info) for e in r.entries if f(e))
		check(got == want, "search_networks(%s) yields %r instead of %r", kw, got, want)

def op_bad_search(s, db, r, distinct):
	"""
		A single bad value among good ones
	"""
	kw = gen_filter(s, r)
	k = s.choose(6)
	if k < 2:
		key, bad, kinds = "country_codes", s.of(BAD_CODES), ValueError
	elif k == 2:
		key, bad, kinds = "country_codes", s.of((None, 5, b"DE", 1.5, [])), (TypeError, ValueError)
	elif k == 3:
		key, bad, kinds = "asns", s.of((-1, 1 << 32, (1 << 32) + 1, 1 << 64, -(1 << 70))), (OverflowError, ValueError)
	elif k == 4:
		key, bad, kinds = "asns", s.of((None, "x", "1", 1.5, [])), (TypeError, ValueError)
	else:
		key, kinds = s.of(("country_codes", "asns", "flags", "family")), (TypeError, ValueError)
		kw[key] = s.of(("x", "DE", 1.5, {}, object()))
		raises(kinds, "search_networks(%s)" % kw, db.search_networks, **kw)
		return
	values = list(kw.get(key, ()))
	values.insert(s.choose(len(values) + 1), bad)
	kw[key] = values
	raises(kinds, "search_networks(%s)" % kw, db.search_networks, **kw)

def op_networks(s, db, r, distinct):
	if distinct:
		got = [(e.net, e.info) for e in map(entry_of, db.networks)]
		want = sorted((e.net, e.info) for e in r.entries)
		check(got == want, "the networks are %r instead of %r", got, want)
	got = [entry_of(n) for n in db.networks_flattened]
	want = expected_ranges(r.entries, lambda e, a: e is not None)
	check(ranges_of([e.net for e in got]) == want, "the flattened networks are %r", got)

def op_bogons(s, db, r, distinct):
	# See C05 about the part of IPv6 that is left out here
	if any(not e.net.v4 and e.net.addr >> 64 == 0 for e in r.entries):
		return
	family = s.of((socket.AF_INET, socket.AF_INET6))
	if not any(e.cc and e.net.family == family for e in r.entries):
		return
	got = [entry_of(n).net for n in db.list_bogons(family=family)]
	check(all(n.family == family for n in got), "bogons of family %s are %s", family, got)
	lo, hi = (model.V4BASE, model.V4BASE + (1 << 32) - 1) if family == socket.AF_INET else (0, model.ALL)
	# Nobody cares for what IPv6 has in common with IPv4
	cut = lambda rs: [x for x in rs if family == socket.AF_INET or x[0] >> 64]
	want = []
	for a, b in expected_ranges(r.entries, lambda e, a: not any(x.cc and x.net.has(a) for x in r.entries)):
		a, b = max(a, lo), min(b, hi)
		if a <= b:
			want.append([a, b])
	check(cut(ranges_of(got)) == cut(want), "the bogons are %s", got)

def op_network_object(s, db, r, distinct):
	seen = [e.net for e in r.entries[:6]]
	m = model.gen_net(s, seen, model.Opts())
	o = model.gen_net(s, seen + [m], model.Opts())
	n, x = location.Network(str(m)), location.Network(str(o))
	check(entry_of(n).info == ("", 0, 0), "a new network has %r", entry_of(n))
	check((n == x) == (m == o) and (n != x) == (m != o), "%s == %s", n, x)
	check((n < x) == (m < o) and (n > x) == (o < m), "%s < %s", n, x)
	check(n.is_subnet_of(x) == o.covers(m), "%s is %sa subnet of %s", n, "" if n.is_subnet_of(x) else "not ", x)
	check(str(m) in repr(n), "%s is represented by %r", n, repr(n))
	if m.covers(o) and m.v4 == o.v4:
		parts = sorted(entry_of(p).net for p in n.exclude(x))
		want = []
		if m.first < o.first:
			want.append([m.first, o.first - 1])
		if o.last < m.last:
			want.append([o.last + 1, m.last])
		check(ranges_of(parts) == want, "%s without %s is %s", n, x, parts)
	else:
		n.exclude(x)
		flush()
	rp = n.reverse_pointer()
	step = 8 if m.v4 else 4
	if m.prefix % step:
		check(rp is None, "%s has the reverse pointer %s", n, rp)
	else:
		b = (m.addr & 0xffffffff).to_bytes(4, "big") if m.v4 else m.addr.to_bytes(16, "big")
		labels = [str(v) for v in b] if m.v4 else list(b.hex())
		labels = labels[:m.prefix // step][::-1]
		if m.plen != 128:
			labels = ["*"] + labels
		for suffix in (None, "example.org"):
			want = ".".join(labels + [suffix or ("in-addr.arpa." if m.v4 else "ip6.arpa.")])
			got = n.reverse_pointer(suffix) if s.coin() else n.reverse_pointer(suffix=suffix)
			check(got == want, "%s has the reverse pointer %s instead of %s", n, got, want)

	# Attributes
	cc, asn, flags = "", 0, 0
	for i in range(s.choose(5)):
		k = s.choose(6)
		if k == 0:
			cc = s.of(("DE", "FR", "AA"))
			n.country_code = cc
		elif k == 1:
			bad = s.of([c for c in BAD_CODES if c])
			raises(ValueError, "setting the country code to %r" % bad, setattr, n, "country_code", bad)
		elif k == 2:
			asn = s.of((1, 0x7fffffff, 0x80000000, 0xffffffff, 1 + s.choose(1 << 31)))
			n.asn = asn
		elif k == 3:
			bad = s.of((0, -1, 1 << 32, 1 << 64, -(1 << 64), "x", None, 1.5))
			raises(PROPER, "setting the ASN to %r" % (bad,), setattr, n, "asn", bad)
		elif k == 4:
			f = 1 << s.choose(4)
			n.set_flag(f)
			flags |= f
		else:
			raises((TypeError, ValueError), "setting the country code to a number", setattr, n, "country_code", s.of((5, b"DE", 1.5, [])))
		flush()
		check(entry_of(n).info == (cc, asn, flags), "%s has %s instead of %s", n, entry_of(n).info, (cc, asn, flags))

def op_as_object(s, db, r, distinct):
	if s.chance(20):
		bad = s.of((-1, 1 << 32, 1 << 64, "x", None))
		raises(PROPER, "AS(%r)" % (bad,), location.AS, bad)
		return
	x, y = model.gen_asn(s), model.gen_asn(s)
	a, b = location.AS(x), location.AS(y)
	check(a.number == x and b.number == y, "AS%d and AS%d have become %s and %s", x, y, a, b)
	check(a.name is None, "a new AS is named %r", a.name)
	check((a == b) == (x == y) and (a != b) == (x != y) and (a < b) == (x < y) and (a > b) == (x > y), "AS%d compares with AS%d like %s, %s", x, y, a == b, a < b)
	check(len({a, b}) == len({x, y}), "AS%d and AS%d in a set: %s", x, y, {a, b})
	name = None
	for i in range(s.choose(4)):
		if s.coin():
			name = model.gen_name(s)
			a.name = name
		else:
			raises((TypeError, ValueError), "setting the name to a number", setattr, a, "name", s.of((5, b"x", [])))
		flush()
		check(a.name == name, "AS%d is named %r instead of %r", x, a.name, name)
		check(str(a) == ("AS%d - %s" % (x, name) if name else "AS%d" % x), "AS%d prints as %s", x, a)

def op_country_object(s, db, r, distinct):
	if s.chance(30):
		bad = s.of(BAD_CODES + (None, 5, b"DE"))
		raises((ValueError, TypeError), "Country(%r)" % (bad,), location.Country, bad)
		return
	x, y = s.of(("DE", "FR", "AA")), s.of(("DE", "FR", "AA"))
	a, b = location.Country(x), location.Country(y)
	check(a.code == x and str(b) == y, "%s and %s have become %s and %s", x, y, a, b)
	check((a == b) == (x == y) and (a != b) == (x != y) and (a < b) == (x < y), "%s compares with %s like %s, %s", x, y, a == b, a < b)
	check(len({a, b}) == len({x, y}), "%s and %s in a set: %s", x, y, {a, b})
	name = continent = None
	for i in range(s.choose(4)):
		k = s.choose(4)
		if k == 0:
			name = model.gen_name(s)
			a.name = name
		elif k == 1:
			continent = s.of(("EU", "AS"))
			a.continent_code = continent
		elif k == 2:
			raises((TypeError, ValueError), "setting the name to a number", setattr, a, "name", s.of((5, b"x", [])))
		else:
			raises((TypeError, ValueError), "setting the continent", setattr, a, "continent_code", s.of((5, "EUR", "", "E", None)))
		flush()
		check((a.name, a.continent_code) == (name, continent), "%s has %r, %r instead of %r, %r", x, a.name, a.continent_code, name, continent)
		check(repr(a) == ("<Country %s (%s)>" % (x, name) if name else "<Country %s>" % x), "%s is represented by %r", x, repr(a))

def op_validity(s, db, r, distinct):
	code = "".join(chr(s.of((65, 90, 88, 97, 48, 64, 91, 228, 32, 68, 69))) for i in range(s.choose(4)))
	want = len(code) == 2 and all("A" <= c <= "Z" for c in code) and code[0] != "X"
	check(location.country_code_is_valid(code) == want, "%r is %svalid", code, "not " if want else "")

JUNK = (None, -1, 0, 1, 1 << 31, 1 << 40, 1 << 80, 1.5, "", "x", "DE", "10.0.0.0/8", "::1", b"", b"DE", (), [], {}, [None], ["DE"], ["XXX"], [1], [-1], [1 << 40], [1 << 80], ["\udc80"], "\udc80", "a\0b", True, object, len)

def op_junk(s, db, r, distinct):
	"""
		Anything at all, anywhere: nothing but ordinary exceptions
	"""
	w = location.Writer()
	makers = (
		lambda: db,
		lambda: w,
		lambda: location.Network("10.0.0.0/8"),
		lambda: location.AS(1),
		lambda: location.Country("DE"),
		lambda: db.networks,
		lambda: location,
	)
	obj = s.of(makers)()
	names = [n for n in dir(obj) if not n.startswith("__") or n in ("__eq__", "__lt__", "__init__", "__call__", "__hash__", "__str__", "__repr__", "__iter__", "__next__")]
	names = [n for n in names if n not in ("set_log_level", "open", "discover_latest_version", "logger", "downloader", "export", "i18n", "database")]
	if obj is location:
		names = [n for n in names if not n.startswith("__")]
	name = s.of(names)
	if name == "write":
		return
	def any():
		k = s.choose(len(JUNK) + 5)
		return JUNK[k] if k < len(JUNK) else makers[k - len(JUNK)]()
	args = [any() for i in range(s.choose(3))]
	kwargs = {}
	if name == "search_networks":
		for k in ("country_codes", "asns", "flags", "family", "flatten"):
			if s.chance(40):
				kwargs[k] = any()
	# This would make a file of any number
	if name in ("verify", "Writer"):
		args = [a for a in args if type(a) is not int and type(a) is not bool]
	what = "%s.%s(%s %s)" % (type(obj).__name__, name, args, kwargs)
	try:
		k = s.pick(4, 1, 1) if obj is not location else 0
		if k == 1:
			what = "%s.%s = %r" % (type(obj).__name__, name, args[:1])
			if not name.startswith("__"):
				setattr(obj, name, args[0] if args else None)
		elif k == 2:
			what = "del %s.%s" % (type(obj).__name__, name)
			if not name.startswith("__"):
				delattr(obj, name)
		else:
			f = getattr(obj, name)
			if callable(f):
				v = f(*args, **kwargs)
				if isinstance(v, location.DatabaseEnumerator):
					for i, x in zip(range(5), v):
						str(x)
				repr(v)
		flush()
	except SystemError as e:
		raise pbt.Fail("%s raised %r" % (what, e))
	except (MemoryError, AssertionError) as e:
		raise pbt.Fail("%s raised %r" % (what, e))
	except Exception:
		flush()
	s.label("junk")
	s.say("(%s)", what)
	# It can still be used
	if obj is not location:
		repr(obj)
	if isinstance(obj, location.Writer):
		obj.vendor, obj.description
		with MemFile() as f:
			obj.write(f.path)
	elif isinstance(obj, (location.Network, location.AS, location.Country)):
		str(obj)
		obj == obj
		if isinstance(obj, location.AS):
			obj.name, obj.number
		elif isinstance(obj, location.Country):
			obj.name, obj.code, obj.continent_code
		else:
			obj.country_code, obj.asn
	elif isinstance(obj, location.Database):
		obj.vendor
		obj.lookup("10.0.0.1")
	flush()

def op_writer_errors(s, db, r, distinct):
	k = s.choose(8)
	w = location.Writer(*s.of(((), (None,), (None, None))))
	if k == 0:
		n = str(model.gen_net(s, [], model.Opts()))
		w.add_network(n)
		raises(IndexError, "adding %s twice" % n, w.add_network, n)
	elif k == 1:
		bad = s.of(BAD_ADDRESSES + ("10.0.0.0/33", "::/129", "10.0.0.0/-1", "10.0.0.0/x"))
		raises(ValueError, "adding network %r" % bad, w.add_network, bad)
	elif k == 2:
		bad = s.of(BAD_CODES)
		raises(ValueError, "adding country %r" % bad, w.add_country, bad)
	elif k == 3:
		bad = s.of((-1, 1 << 32, 1 << 64))
		raises((OverflowError, ValueError), "adding AS %r" % bad, w.add_as, bad)
	elif k == 4:
		raises(OSError, "writing to nowhere", w.write, "/nonexistent/database.db")
		raises(OSError, "opening what does not exist", location.Database, "/nonexistent/database.db")
	elif k == 5:
		with MemFile(s.of((b"", b"x", b"LOCDBXX\x01", b"LOCDBXX\x02" + b"\0" * 5000, b"-----BEGIN"))) as f:
			raises(OSError, "opening a file that is not a database", location.Database, f.path)
	elif k == 6:
		with MemFile(s.of(("", "x", testkeys.EC1_PUBLIC))) as f:
			with open(f.path, "rb") as k:
				raises(PROPER, "a writer with a bad key", location.Writer, k)
			with open(f.path, "rb") as k:
				raises(PROPER, "a writer with a bad second key", location.Writer, None, k)
	else:
		bad = s.of((None, 5, b"x", []))
		attr = s.of(("vendor", "description", "license"))
		setattr(w, attr, "before")
		raises((TypeError, ValueError), "setting %s to %r" % (attr, bad), setattr, w, attr, bad)
		check(getattr(w, attr) == "before", "%s has become %r", attr, getattr(w, attr))
	# The writer still works
	with MemFile() as f:
		w.vendor = "v"
		check(w.vendor == "v", "the vendor of the writer is %r", w.vendor)
		w.write(f.path)
		check(location.Database(f.path).vendor == "v", "the vendor got lost")

def op_verify(s, db, r, distinct):
	pairs = ((testkeys.EC1_PRIVATE, testkeys.EC1_PUBLIC), (testkeys.EC2_PRIVATE, testkeys.EC2_PUBLIC), (testkeys.RSA_PRIVATE, testkeys.RSA_PUBLIC))
	used = [s.of((None, 0, 1)), s.of((None, 0, 1))]
	args = [None if u is None else MemFile(pairs[u][0]) for u in used]
	try:
		files = [None if a is None else open(a.path, "rb") for a in args]
		w = location.Writer(*files)
		for f in files:
			if f:
				f.close()
		with MemFile() as out:
			w.write(out.path)
			d = location.Database(out.path)
			# Either key has a place of its own
			lengths = struct.unpack(">HH", out.read()[68:72])
			check([n > 0 for n in lengths] == [u is not None for u in used], "signed with %s, the signatures are %s bytes long", used, lengths)
			for i, (_, public) in enumerate(pairs):
				with MemFile(public) as k, open(k.path, "rb") as f:
					check(d.verify(f) is (i in used), "signed with %s, verifying with key %d says %s", used, i, i not in used)
			# What is not a public key does not verify anything
			junk = s.of(("", "x", testkeys.EC1_PRIVATE, testkeys.EC1_PUBLIC[:60], testkeys.EC1_PUBLIC.replace("PUBLIC", "PRIVATE")))
			with MemFile(junk) as f:
				try:
					v = d.verify(f)
				except ValueError:
					v = False
				check(v is False, "signed with %s, verifying with %r says %s", used, junk, v)
			raises((TypeError, ValueError), "verifying with None", d.verify, None)
	finally:
		for a in args:
			if a:
				a.__exit__()

def op_damaged(s, db, r, distinct):
	"""
		What cannot be read from a damaged database is an exception, and not taken for the end
	"""
	r = model.gen_records(s, 8, None, True)
	for i, e in enumerate(r.entries):
		e.asn = 1000 + i
	w = location.Writer()
	fill(w, r)
	with MemFile() as f:
		w.write(f.path)
		data, kind, what = damage(s, f.read(), r.entries, r.countries)
	if not kind:
		return
	s.say("(%s %s)", kind, what)
	s.label("damaged " + kind)
	with MemFile(data) as f:
		db = location.Database(f.path)
		if kind == "country":
			raises(PROPER, "listing countries", lambda: list(db.countries))
			check(len(list(db.networks)) == len(r.entries), "networks are missing")
			return
		check(len(list(db.countries)) == len(r.countries), "countries are missing")
		seen = []
		def networks():
			for n in db.networks:
				seen.append(entry_of(n))
		raises(PROPER, "listing networks", networks)
		if kind == "network":
			before = sorted(e.net for e in r.entries if e.net < what.net)
			check([e.net for e in seen] == before, "before the network that cannot be read, there are %s instead of %s", seen, before)
		for name, fn in (("flattened", lambda: list(db.networks_flattened)), ("bogons", lambda: list(db.list_bogons())),
				("searching", lambda: list(db.search_networks(asns=[1])))):
			raises(PROPER, "%s networks" % name, fn)
		for i in range(4):
			a = model.gen_probe(s, r.entries)
			e = model.lpm(r.entries, a)
			if e is what if kind == "network" else a >> 127 == what:
				raises(PROPER, "looking up %s" % model.addr_str(a), db.lookup, model.addr_str(a))
			elif e:
				n = db.lookup(model.addr_str(a))
				check(n is not None and entry_of(n).net == e.net, "looking up %s found %s instead of %s", model.addr_str(a), n, e)
			else:
				check(db.lookup(model.addr_str(a)) is None, "looking up %s found something", model.addr_str(a))

def op_again(s, db, r, distinct):
	"""
		Objects are initialised once more: they become what they are asked to be, or remain what they were
	"""
	k = s.choose(5)
	if k == 0:
		a, b = (str(model.gen_net(s, [], model.Opts())) for _ in range(2))
		n = location.Network(a)
		n.asn = 1
		for i in range(1 + s.choose(3)):
			bad = s.of(BAD_ADDRESSES)
			raises(ValueError, "making %s %r" % (n, bad), n.__init__, bad)
			check(str(n) == (b if i else a), "%s has become %s", b if i else a, n)
			n.__init__(b)
			check(str(n) == b and n.asn is None, "%s was made %s (%s)", b, n, n.asn)
	elif k == 1:
		c = location.Country("DE")
		c.name = "x"
		for code in ("FR", s.of(("US", "ZZ"))):
			before = c.code
			bad = s.of(BAD_CODES)
			raises(ValueError, "making %s %r" % (c, bad), c.__init__, bad)
			check(c.code == before, "%s has become %s", before, c.code)
			c.__init__(code)
			check(c.code == code and c.name is None, "%s was made %s (%s)", code, c.code, c.name)
	elif k == 2:
		a = location.AS(1)
		a.name = "x"
		for number in (s.range(2, 2**32 - 1), 5):
			before = a.number
			raises((OverflowError, ValueError), "making %s an AS of 33 bits" % a, a.__init__, 1 << 32)
			check(a.number == before, "AS%s has become %s", before, a.number)
			a.__init__(number)
			check(a.number == number and a.name is None, "%s was made %s (%s)", number, a.number, a.name)
	elif k == 3:
		w = location.Writer()
		for i in range(1 + s.choose(3)):
			w.add_network("10.0.0.0/8")
			w.vendor = "x"
			with MemFile("x") as f:
				raises(ValueError, "making a writer with a bad key", w.__init__, f)
				raises(ValueError, "making a writer with a bad second key", w.__init__, None, f)
			check(w.vendor == "x", "the vendor has become %r", w.vendor)
			raises(IndexError, "adding a network twice", w.add_network, "10.0.0.0/8")
			with MemFile(testkeys.EC1_PRIVATE) as f:
				w.__init__(*s.of(((), (f,), (None, f))))
	else:
		with MemFile() as f1, MemFile() as f2, MemFile("x") as bad:
			for i, f in enumerate((f1, f2)):
				w = location.Writer()
				w.add_network("10.0.0.0/8").asn = i + 1
				w.write(f.path)
				if i:
					other.__init__(f.path)
				else:
					other = location.Database(f.path)
				raises(OSError, "opening what is no database", other.__init__, bad.path)
				raises(OSError, "opening what does not exist", other.__init__, "/nonexistent")
				n = other.lookup("10.0.0.1")
				check(n and n.asn == i + 1, "10.0.0.1 is %s", n)
	s.label("initialised again")

TIMES = (0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40)

def op_created(s, db, r, distinct):
	"""
		Times have 64 bits
	"""
	t = s.of(TIMES) + s.choose(2)
	w = location.Writer()
	with MemFile() as f:
		w.write(f.path)
		os.pwrite(f.fd, t.to_bytes(8, "big"), 8)
		d = location.Database(f.path)
		check(d.created_at == t, "what was created at %s was created at %s", t, d.created_at)

def op_delete(s, db, r, distinct):
	"""
		Attributes cannot be deleted, and trying to changes nothing
	"""
	w, n, a, c = location.Writer(), location.Network("10.0.0.0/8"), location.AS(1), location.Country("DE")
	w.vendor, w.description, w.license, n.country_code, n.asn, a.name, c.name, c.continent_code = "v", "d", "l", "DE", 1, "n", "n", "EU"
	obj, name = s.of(((w, "vendor"), (w, "description"), (w, "license"), (n, "country_code"), (n, "asn"), (a, "name"), (c, "name"), (c, "continent_code")))
	before = getattr(obj, name)
	raises((TypeError, AttributeError), "deleting %s.%s" % (type(obj).__name__, name), delattr, obj, name)
	check(getattr(obj, name) == before, "%s.%s was %r and has become %r", type(obj).__name__, name, before, getattr(obj, name))

OPS = ((op_created, 1), (op_delete, 1), (op_again, 2), (op_damaged, 3), (op_lookup, 10), (op_bad_lookup, 2), (op_get_as, 4), (op_get_country, 4), (op_lists, 2), (op_metadata, 1), (op_search_as, 3),
	(op_search, 5), (op_bad_search, 2), (op_networks, 2), (op_bogons, 2), (op_network_object, 5), (op_as_object, 3), (op_country_object, 3),
	(op_validity, 2), (op_junk, 6), (op_writer_errors, 3), (op_verify, 1))

def prop(s):
	distinct = s.coin()
	r = model.gen_records(s, 16, None, distinct)
	w = location.Writer()
	fill(w, r)
	with MemFile() as f:
		w.write(f.path)
		del w
		db = location.Database(f.path)
		s.say("%s; %s; %s;", r.entries[:8], r.ases, r.countries)
		kept = []
		for i in range(1 + s.size(12)):
			op = OPS[s.pick(*(x for _, x in OPS))][0]
			s.say("%s", op.__name__[3:])
			got = op(s, db, r, distinct)
			if got:
				kept.append(got)
		# Objects outlive the database
		del db
		for e, n in kept:
			check(entry_of(n).info == e.info and entry_of(n).net == e.net, "%r has become %r", e, n)
	if len(r.entries) > 2:
		s.nontrivial()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C16",
		"a database of 0-16 networks, ASes and countries is written through the Python module, opened, and 1-13 operations are run on it: every query, enumeration, filter and record operation against a model, invalid arguments of each kind with the exception they must raise, and arbitrary objects as arguments, attributes and deletions anywhere; the module and the library run under the address sanitizer; "
		"non-trivial: more than two networks", prop, setup)))
