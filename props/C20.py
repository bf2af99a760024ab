"""
	The command line reports what the database says, with honest exit codes
"""
import os
import shutil
import socket
import tempfile
import time

import cli
import formats
import model
import pbt
import testkeys
from pbt import check
from pyloc import MemFile, fill

location = program = None
DIR = None

def setup():
	global location, program, DIR
	import location as l
	import location.export
	location = l
	program = cli.load()
	DIR = tempfile.mkdtemp(prefix="C20-", dir=os.environ["VERIF_SCRATCH"])

BAD_ADDRESSES = ("", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::g", ":::", "1.2.3.4/33", "10.0.0.0/", "1.2.3.4 ", "fe80::1%eth0", "\u00e4")
FAMILY_NAMES = { socket.AF_INET : "ipv4", socket.AF_INET6 : "ipv6" }

class Case(object):
	def __init__(self, path, db, r, distinct):
		self.path, self.db, self.r, self.distinct = path, db, r, distinct

	def run(self, s, *argv, seekable=True, key=None):
		argv = [str(a) for a in argv]
		options = ["--database", self.path] if s.coin() else ["-d", self.path]
		if key:
			options += ["--public-key", key] if s.coin() else ["-k", key]
		if s.chance(10):
			options.append("--quiet")
		if seekable is True and s.chance(5):
			seekable = "append"
		code, out, err = cli.run(program, options + argv, seekable)
		s.say("%s -> %s;", " ".join(argv), code)
		check("Traceback" not in err, "%s ends in a traceback: %s", argv, err[-1500:])
		check(code == 0 or err, "%s fails with status %s and says nothing", argv, code)
		return code, out, err

def text(out):
	return out.decode()

LINE = "  %-24s: %s\n"

def lookup_text(c, address, e):
	r = "%s:\n" % address + LINE % ("Network", e.net)
	if e.cc:
		name = (c.r.countries.get(e.cc) or (None,))[0]
		r += LINE % ("Country", name or e.cc)
	if e.asn:
		r += LINE % ("Autonomous System", as_text(c, e.asn))
	for flag, label in ((1, "Anonymous Proxy"), (2, "Satellite Provider"), (4, "Anycast"), (8, "Hostile Network safe to drop")):
		if e.flags & flag:
			r += LINE % (label, "yes")
	return r

def as_text(c, number):
	name = c.r.ases.get(number)
	return "AS%d - %s" % (number, name) if name else "AS%d" % number

def op_lookup(s, c):
	addresses, want, missing, bad = [], [], [], None
	for i in range(1 + s.choose(4)):
		if s.chance(8):
			a = s.of(BAD_ADDRESSES)
			if a == "":
				continue
			if bad is None:
				bad = len(want)
			addresses.append(a)
			continue
		a = model.gen_probe(s, c.r.entries)
		t = model.addr_str(a)
		addresses.append(t)
		e = model.lpm(c.r.entries, a)
		if e is None:
			missing.append((len(want), t))
		else:
			want.append((t, e, a))
	if not addresses:
		return
	code, out, err = c.run(s, "lookup", *addresses)
	if bad is not None:
		check(code != 0, "looking up %s is a success", addresses)
		check("Invalid IP address" in err, "an invalid address among %s is not reported: %r", addresses, err)
	elif missing:
		check(code == 1, "looking up %s exits with %s, although %s are unknown", addresses, code, missing)
	else:
		check(code == 0, "looking up %s exits with %s: %s", addresses, code, err)
	for i, t in missing:
		check(t in err or bad is not None and i >= bad, "it is not reported that %s is unknown: %r", t, err)
	# Nothing needs to follow an invalid address
	options = [want]
	if bad is not None:
		options.append(want[:bad])
	for w in options:
		pos, ok = 0, True
		# How an AS without a name is written does not matter
		o = text(out).replace(" - \n", "\n")
		for t, e, a in w:
			if not c.distinct:
				# Networks may have been merged with others
				head = "%s:\n" % t
				rest = o[pos + len(head):].split("\n", 1)[0]
				if o.startswith(head, pos) and rest.startswith(LINE[:2] + "Network"):
					n = model.parse_net(rest.split(": ", 1)[1])
					if n.has(a):
						e = model.Entry(n, *e.info)
			x = lookup_text(c, t, e)
			if not o.startswith(x, pos):
				ok = False
				break
			pos += len(x)
		if ok and pos == len(o):
			if want and missing:
				s.label("lookup of known and unknown addresses")
			return bool(want)
	raise pbt.Fail("looking up %s prints %r instead of %r" % (addresses, o, "".join(lookup_text(c, t, e) for t, e, a in want)))

def op_get_as(s, c):
	args, want, fails = [], [], False
	for i in range(1 + s.choose(4)):
		k = s.pick(5, 2, 1, 1)
		if k == 0 and c.r.ases:
			n = s.of(sorted(c.r.ases))
		elif k <= 1:
			n = model.gen_asn(s)
		elif k == 2:
			n = s.of((-1, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 64, -5))
		else:
			n = s.of(("x", "AS1", "1.5", "0x10"))
		args.append(n)
		if n in c.r.ases:
			want.append(n)
		else:
			fails = True
	code, out, err = c.run(s, "get-as", *args)
	check((code != 0) == fails, "get-as %s exits with %s, but knows %s", args, code, want)
	got = text(out).splitlines()
	check(len(got) == len(want), "get-as %s prints %r, but knows %s", args, got, want)
	for line, n in zip(got, want):
		name = c.r.ases[n]
		if name:
			check(line == "AS%d belongs to %s" % (n, name), "AS%d, %s, is shown as %r", n, name, line)
		else:
			check(line.split()[0] == "AS%d" % n and "None" not in line, "AS%d, which has no name, is shown as %r", n, line)
	return bool(want)

def op_search_as(s, c):
	names = [n for n in c.r.ases.values() if n]
	query = s.of(names) if names and s.chance(70) else model.gen_name(s)
	if s.coin():
		i = s.choose(len(query))
		query = query[i:i + 1 + s.choose(4)]
	if s.coin() and query.isascii():
		query = query.swapcase()
	if query.startswith("-"):
		return
	low = lambda t: "".join(c.lower() if c.isascii() else c for c in t)
	want = "".join("AS%d - %s\n" % (n, name) for n, name in sorted(c.r.ases.items()) if name and low(query) in low(name))
	code, out, err = c.run(s, "search-as", query)
	check(code == 0, "search-as %s exits with %s: %s", query, code, err)
	check(text(out) == want, "search-as %s prints %r instead of %r", query, text(out), want)
	return bool(want)

def op_list_countries(s, c):
	argv = ["list-countries"]
	name = s.coin()
	continent = s.coin()
	if name:
		argv.append("--show-name")
	if continent:
		argv.append("--show-continent")
	code, out, err = c.run(s, *argv)
	check(code == 0, "%s exits with %s: %s", argv, code, err)
	got = [" ".join(l.split()) for l in text(out).splitlines()]
	want = []
	for code, (n, k) in sorted(c.r.countries.items()):
		want.append(" ".join(" ".join(x for x in (code, k if continent else "", n if name else "") if x).split()))
	check(got == want, "%s prints %r instead of %r", argv, got, want)
	return bool(want)

def created(c):
	return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(c.db.created_at))

def op_version(s, c):
	now = time.time()
	check(abs(c.db.created_at - now) < 3600, "the database was created at %s", c.db.created_at)
	code, out, err = c.run(s, "version")
	check(code == 0, "version exits with %s: %s", code, err)
	check(text(out) == created(c) + "\n", "version prints %r instead of %r", text(out), created(c))

def op_dump(s, c):
	argv = ["dump"]
	path = None
	if s.chance(30):
		path = os.path.join(DIR, "dump")
		argv.append(path)
	elif s.chance(10):
		argv.append("-")
	code, out, err = c.run(s, *argv)
	check(code == 0, "dump exits with %s: %s", code, err)
	if path:
		check(not out, "dump prints %r although it was told to write to a file", out[:200])
		with open(path, "rb") as f:
			out = f.read()
		os.unlink(path)
	got = [l for l in text(out).split("\n") if l.rstrip() != "name:"]
	check(got[-1] == "", "the dump ends with %r", got[-1])
	got.pop()
	want = ["#", "# Location Database Export", "#", "# Generated: %s" % created(c)]
	if c.r.vendor:
		want.append("# Vendor:    %s" % c.r.vendor)
	if c.r.license:
		want.append("# License:   %s" % c.r.license)
	want.append("#")
	if c.r.description:
		want += [("# %s" % l).rstrip() for l in c.r.description.split("\n")]
		want.append("#")
	add = lambda k, v: want.append("%-24s %s" % (k, v))
	for n, name in sorted(c.r.ases.items()):
		want.append("")
		add("aut-num:", "AS%d" % n)
		if name:
			add("name:", name)
	if not c.distinct:
		check(got[:len(want)] == want, "the dump begins with %r instead of %r", got[:len(want)], want)
		return
	for e in sorted(c.r.entries, key=lambda e: e.net):
		want.append("")
		add("net:", e.net)
		if e.cc:
			add("country:", e.cc)
		if e.asn:
			add("aut-num:", e.asn)
		for flag, label in ((1, "is-anonymous-proxy:"), (2, "is-satellite-provider:"), (4, "is-anycast:"), (8, "drop:")):
			if e.flags & flag:
				add(label, "yes")
	if got != want:
		for i in range(max(len(got), len(want))):
			check(got[i:i + 1] == want[i:i + 1], "line %d of the dump is %r instead of %r", i + 1, got[i:i + 1], want[i:i + 1])
	return bool(c.r.entries)

FLAG_OPTIONS = { 1 : "--anonymous-proxy", 2 : "--satellite-provider", 4 : "--anycast", 8 : "--drop" }

def op_list(s, c):
	"""
		list-networks-by-*, in any format
	"""
	if not c.distinct:
		return
	k = s.choose(3)
	invalid = False
	if k == 0:
		asn = (s.of(c.r.entries).asn if c.r.entries and s.chance(70) else 1000 + s.choose(40)) or 1
		name, accept, argv = "AS%d" % asn, lambda e: e.asn == asn, ["list-networks-by-as", asn]
		if s.chance(10):
			argv[1] = s.of((-1, 1 << 32, "x", "AS1", 1 << 64))
			invalid = True
	elif k == 1:
		cc = s.of([x for x in model.CODES if x])
		name, accept, argv = cc, lambda e: e.cc == cc, ["list-networks-by-cc", cc]
		if s.chance(10):
			argv[1] = s.of(("D", "DEU", "de", "1A", "A1"))
			invalid = True
	else:
		flags = s.choose(16)
		name, accept, argv = "custom", lambda e: bool(e.flags & flags), ["list-networks-by-flags"] + [FLAG_OPTIONS[f] for f in FLAG_OPTIONS if flags & f]
		invalid = not flags
	family = s.of((None, socket.AF_INET, socket.AF_INET6))
	fmt = s.of(("list", "list", "ipset", "nftables"))
	if family:
		argv += ["--family", FAMILY_NAMES[family]]
	if fmt != "list" or s.coin():
		argv += ["--format", fmt]
	if fmt == "ipset" and not family:
		# A set has to be of one family
		invalid = True
	code, out, err = c.run(s, *argv, seekable=s.of((True, False, "append")))
	if invalid:
		check(code != 0, "%s is a success", argv)
		return
	check(code == 0, "%s exits with %s: %s", argv, code, err)
	want = sorted(e.net for e in c.r.entries if accept(e) and (not family or e.net.family == family))
	if family:
		got = formats.FORMATS[fmt][0](out, name, family)
	elif fmt == "list":
		got = [model.parse_net(l) for l in formats.lines(out)]
	else:
		got = [model.parse_net(l[1:-1]) for l in formats.lines(out)[1:-1]]
	check(got == want, "%s prints %s instead of %s", argv, got, want)
	s.label("list %s" % fmt)
	return bool(want)

def op_bogons(s, c):
	# See C05 about the part of IPv6 that is left out here
	if any(not e.net.v4 and e.net.addr >> 64 == 0 for e in c.r.entries):
		return
	family = s.of((socket.AF_INET, socket.AF_INET6))
	if not any(e.cc and e.net.family == family for e in c.r.entries):
		return
	fmt = s.of(("list", "ipset", "nftables"))
	code, out, err = c.run(s, "list-bogons", "--family", FAMILY_NAMES[family], "--format", fmt, seekable=s.of((True, False, "append")))
	check(code == 0, "list-bogons exits with %s: %s", code, err)
	got = formats.join((n.first, n.last) for n in formats.FORMATS[fmt][0](out, "bogons", family))
	lo, hi = (model.V4BASE, model.V4BASE + (1 << 32) - 1) if family == socket.AF_INET else (0, model.ALL)
	# Nobody cares for what IPv6 has in common with IPv4
	cut = lambda rs: [x for x in rs if family == socket.AF_INET or x[0] >> 64]
	want = []
	for a, b in model.intervals([e.net for e in c.r.entries]):
		a, b = max(a, lo), min(b, hi)
		if a <= b and not any(e.cc and e.net.has(a) for e in c.r.entries):
			if want and want[-1][1] + 1 == a:
				want[-1][1] = b
			else:
				want.append([a, b])
	check(cut(got) == cut(want), "the bogons are %s instead of %s", formats.show(got), formats.show(want))
	s.label("list-bogons")
	return True

def op_export(s, c):
	"""
		Which objects are exported, and where to; what is in the files is the same as in C18
	"""
	objects = []
	for i in range(s.choose(4)):
		k = s.pick(3, 2, 2, 1)
		o = (s.of([x for x in model.CODES if x]), s.of(sorted(model.SPECIAL)),
			"AS%d" % ((s.of(c.r.entries).asn if c.r.entries else 0) or 1), s.of(("de", "ASX", "X", "12")))[k]
		if o not in objects:
			objects.append(o)
	valid = [o for o in objects if o.startswith("AS") and o[2:].isdigit() or o in model.SPECIAL or len(o) == 2 and o.isalpha() and o.isupper()]
	if objects and not valid:
		return
	fmt = s.of(sorted(formats.FORMATS))
	family = s.of((None, socket.AF_INET, socket.AF_INET6))
	d = os.path.join(DIR, "out")
	argv = ["export", "--format", fmt, "--directory", d] + (["--family", FAMILY_NAMES[family]] if family else []) + objects
	os.mkdir(d)
	try:
		code, out, err = c.run(s, *argv)
		check(code == 0 or valid != objects, "%s exits with %s: %s", argv, code, err)
		if code:
			return
		if not objects:
			valid = sorted(model.SPECIAL) + sorted(c.r.countries)
			s.label("export of all countries")
		families = [family] if family else [socket.AF_INET6, socket.AF_INET]
		names = set(os.listdir(d))
		want = { formats.FORMATS[fmt][1](o, f) for o in valid for f in families }
		check(names == want, "%s wrote %s instead of %s", argv, sorted(names), sorted(want))
		found = False
		for o in valid:
			for f in families:
				with open(os.path.join(d, formats.FORMATS[fmt][1](o, f)), "rb") as x:
					found |= formats.verify(c.r.entries, o, int(o[2:]) if o[2:] else o, f, fmt, x.read())
		s.label("export")
		return found
	finally:
		shutil.rmtree(d)

def op_export_stdout(s, c):
	o = s.of(("DE", "FR", "A1", "XD", "AS%d" % ((s.of(c.r.entries).asn if c.r.entries else 0) or 1)))
	fmt = s.of(sorted(formats.FORMATS))
	family = s.of((socket.AF_INET, socket.AF_INET6))
	code, out, err = c.run(s, "export", "--format", fmt, "--family", FAMILY_NAMES[family], o)
	if fmt == "xt_geoip":
		check(code != 0 and not out, "binary data is printed to standard output")
		return
	check(code == 0, "the export exits with %s: %s", code, err)
	return formats.verify(c.r.entries, o, int(o[2:]) if o[2:] else o, family, fmt, out)

def op_verify(s, c):
	which = s.choose(4)
	path = os.path.join(DIR, "signed.db")
	key = os.path.join(DIR, "key.pem")
	with MemFile((testkeys.EC1_PRIVATE, testkeys.EC2_PRIVATE)[which == 1]) as k:
		w = location.Writer(open("/proc/self/fd/%d" % os.dup(k.fd)))
		fill(w, c.r)
		w.write(path)
	with open(key, "w") as f:
		f.write("garbage" if which == 2 else testkeys.EC1_PUBLIC)
	if which == 3:
		os.unlink(key)
	try:
		code, out, err = Case(path, None, c.r, False).run(s, "verify", key=key)
		check((code == 0) == (which == 0), "verify exits with %s although the key is %s: %s", code, ("right", "wrong", "garbage", "missing")[which], err)
	finally:
		os.unlink(path)
		if os.path.exists(key):
			os.unlink(key)
	s.label("verify")
	return which == 0

def op_bad_database(s, c):
	path = os.path.join(DIR, "bad.db")
	k = s.choose(4)
	if k == 0:
		pass
	elif k == 1:
		os.mkdir(path)
	else:
		with open(c.path, "rb") as f:
			data = f.read()
		with open(path, "wb") as f:
			f.write(data[:s.choose(len(data))] if k == 2 else b"x" * s.choose(100))
	argv = s.of((["version"], ["lookup", "1.1.1.1"], ["dump"], ["get-as", "1"], ["list-countries"], ["verify"], ["export", "DE"]))
	try:
		code, out, err = Case(path, None, c.r, False).run(s, *argv)
		check(code != 0, "%s of a broken database is a success: %r", argv, out)
	finally:
		if k == 1:
			os.rmdir(path)
		elif k:
			os.unlink(path)
	s.label("broken database")

def op_usage(s, c):
	argv = s.of(([], ["foo"], ["lookup"], ["get-as"], ["list-networks-by-as"], ["list-networks-by-cc", "DE", "--family", "ipx"],
		["export", "--format", "foo", "DE"], ["update", "--cron", "yearly"], ["version", "x"], ["search-as"]))
	code, out, err = cli.run(program, ["--database", c.path] + argv)
	check("Traceback" not in err, "%s ends in a traceback", argv)
	check(code == 2, "%s exits with %s", argv, code)

OPS = ((op_lookup, 8), (op_get_as, 4), (op_search_as, 3), (op_list_countries, 3), (op_version, 1), (op_dump, 4), (op_list, 6), (op_bogons, 3),
	(op_export, 3), (op_export_stdout, 2), (op_verify, 1), (op_bad_database, 1), (op_usage, 1))

def prop(s):
	os.environ["TZ"] = s.of(("UTC", "XST+11", "XST-14"))
	time.tzset()
	distinct = s.chance(70)
	r = model.gen_records(s, 16, None, distinct)
	if s.chance(20):
		r.description = "\n".join("" if s.chance(20) else model.gen_name(s) for i in range(s.choose(4))) + "end"
	# Records of what is in use
	for e in r.entries:
		if e.cc and e.cc not in r.countries and s.chance(40):
			r.countries[e.cc] = (model.gen_name(s) if s.chance(80) else None, s.of(("EU", "AS")) if s.chance(80) else None)
	w = location.Writer()
	fill(w, r)
	with MemFile() as f:
		w.write(f.path)
		c = Case(f.path, location.Database(f.path), r, distinct)
		found = 0
		for i in range(1 + s.choose(4)):
			op = OPS[s.pick(*[x for _, x in OPS])][0]
			if op(s, c):
				found += 1
				s.label(op.__name__[3:])
		if found:
			s.nontrivial()
		s.say("%s %s %s", r.entries[:8], r.ases, r.countries)

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C20",
		"a database of 0-16 networks, ASes and countries with and without names and continents, texts of several lines; 1-4 invocations of lookup, get-as, search-as, list-countries, list-networks-by-*, list-bogons, version, dump, export or verify with valid, unknown, invalid and mixed arguments, in any timezone, standard output seekable or not; "
		"non-trivial: at least one invocation has to print or write something from the database", prop, setup)))
