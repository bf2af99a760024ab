"""
	The Lua and Perl bindings give the library's answers
"""
import json
import os
import subprocess

import model
import pbt
import testkeys
from pbt import check
from pyloc import damage, fill

location = None

class Server(object):
	"""
		An interpreter that runs what it is sent
	"""
	def __init__(self, name, argv, env, begin):
		self.name, self.argv, self.env, self.begin = name, argv, env, begin
		self.process = None
		self.cases, self.limit = 0, 100

	def case(self):
		"""
			Begins a case, from time to time with a new interpreter
		"""
		self.cases += 1
		if self.process and self.cases == self.limit:
			self.cases = 0
			self.process.stdin.close()
			self.process.wait()
			self.process = None
		if not self.process:
			self.start()
			self.get(self.begin)

	def start(self):
		self.process = subprocess.Popen(self.argv, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
			stderr=subprocess.DEVNULL, pass_fds=[f for f in FILES.values()])

	def run(self, code):
		"""
			Returns (False, message) or (True, values ...)
		"""
		try:
			self.process.stdin.write(code.encode("utf-8", "surrogateescape").hex().encode() + b"\n")
			self.process.stdin.flush()
			line = self.process.stdout.readline()
		except BrokenPipeError:
			line = b""
		if not line:
			status = self.process.wait()
			self.process = None
			raise pbt.Fail("%s ended with status %s on: %s" % (self.name, status, code))
		return unhex(json.loads(line))

	def get(self, code):
		r = self.run(code)
		check(r[0] is True, "%s: %s raised %s", self.name, code, r[1:])
		return r[1:]

def unhex(v):
	if isinstance(v, list):
		return [unhex(x) for x in v]
	if isinstance(v, str):
		return bytes.fromhex(v)
	return v

FILES = {}
lua = perl = None

def setup():
	global location, lua, perl
	import location as l
	location = l
	if not FILES:
		FILES["db"] = os.memfd_create("db")
		FILES["damaged"] = os.memfd_create("damaged")
		for name, key in (("EC1", testkeys.EC1_PUBLIC), ("EC2", testkeys.EC2_PUBLIC), ("bad", "x")):
			FILES[name] = os.memfd_create(name)
			os.write(FILES[name], key.encode())
		for name, key in (("key1", testkeys.EC1_PRIVATE), ("key2", testkeys.EC2_PRIVATE)):
			FILES[name] = os.memfd_create(name)
			os.write(FILES[name], key.encode())
	env = dict(os.environ)
	lib = os.path.dirname(os.path.abspath(pbt.__file__))
	lua = Server("Lua", ["lua5.4", os.path.join(lib, "server.lua")], dict(env, LUA_CPATH=os.environ["VERIF_LUA"] + "/?.so"),
		'location = require("location"); location.set_log_level(0); return 1')
	# Values that are still around when Perl ends are not interesting
	perl = Server("Perl", ["perl", "-I" + os.environ["VERIF_PERL"], os.path.join(lib, "server.pl")], env, "require Location; 1")

def path(name):
	return "/proc/self/fd/%d" % FILES[name]

def luastr(t):
	return '"' + "".join("\\x%02x" % b for b in t.encode("utf-8", "surrogateescape")) + '"'

def perlstr(t):
	return '"' + "".join("\\x%02x" % b for b in t.encode("utf-8", "surrogateescape")) + '"'

def text(t):
	return t.encode() if t is not None else None

def same(got, want):
	"""
		Nothing and nothing to say are the same
	"""
	return (got or None) == (text(want) or None)

NETWORK = "L(tostring(n), n:get_family(), n:get_country_code(), n:get_asn(), n:has_flag(1), n:has_flag(2), n:has_flag(4), n:has_flag(8))"

def entry_of(v):
	net = model.parse_net(v[0].decode())
	check(v[1] == net.family, "network %s has the family %s in Lua", v[0], v[1])
	check(str(net).encode() == v[0], "network %s prints as %s in Lua", net, v[0])
	check(all(type(b) is bool for b in v[4:8]), "the flags of %s are %s in Lua", net, v[4:8])
	check(v[3] is None or v[3] > 0, "the ASN of %s is %s in Lua", net, v[3])
	check(v[2] is None or len(v[2]) == 2, "the country of %s is %s in Lua", net, v[2])
	return model.Entry(net, (v[2] or b"").decode(), v[3] or 0, sum(f for f, b in zip(model.FLAGS, v[4:8]) if b))

FLAG_NAMES = { 1 : "ANONYMOUS_PROXY", 2 : "SATELLITE_PROVIDER", 4 : "ANYCAST", 8 : "DROP" }

def op_lookup(s, r, distinct):
	a = model.gen_probe(s, r.entries)
	addr = model.addr_str(a)
	want = model.lpm(r.entries, a)

	n, = lua.get("local n = db:lookup(%s); return n and %s" % (luastr(addr), NETWORK))
	if want is None:
		check(n is None, "Lua: %s was found in %s", addr, n)
	else:
		check(n is not None, "Lua: %s was not found", addr)
		got = entry_of(n)
		check(got.info == want.info, "Lua: %s is %r instead of %r", addr, got, want)
		check(not distinct or got.net == want.net, "Lua: %s is %r instead of %r", addr, got, want)

	p = perlstr(addr)
	cc, asn = perl.get("(Location::lookup_country_code($db, %s), Location::lookup_asn($db, %s))" % (p, p))
	check(same(cc, want.cc if want else None), "Perl: the country of %s is %s instead of %r", addr, cc, want)
	check((int(asn) if asn is not None else 0) == (want.asn if want else 0), "Perl: the ASN of %s is %s instead of %r", addr, asn, want)
	got = 0
	for flag, name in FLAG_NAMES.items():
		v, = perl.get("(Location::lookup_network_has_flag($db, %s, 'LOC_NETWORK_FLAG_%s') ? 1 : 0)" % (p, name))
		if v == b"1":
			got |= flag
	check(got == (want.flags if want else 0), "Perl: the flags of %s are %d instead of %r", addr, got, want)

BAD_ADDRESSES = ("", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::g", ":::", "1.2.3.4/33", "10.0.0.0/", "1.2.3.4 ", "\u00e4", "x" * 300)

def op_bad_lookup(s, r, distinct):
	a = s.of(BAD_ADDRESSES)
	v = lua.run("return db:lookup(%s)" % luastr(a))
	check(v[0] is False or v[1:] in ([], [None]), "Lua: looking up %r gives %s", a, v)
	for f in ("lookup_country_code($db, %s)", "lookup_asn($db, %s)", "lookup_network_has_flag($db, %s, 'LOC_NETWORK_FLAG_DROP')"):
		v = perl.run("Location::" + f % perlstr(a))
		check(v[0] is False or v[1:] in ([], [None], [b""], [b"0"]), "Perl: looking up %r gives %s", a, v)
	v = perl.run("Location::lookup_network_has_flag($db, '10.0.0.1', %s)" % perlstr(s.of(("", "LOC_NETWORK_FLAG", "x", "ANYCAST"))))
	check(v[0] is False, "Perl: asking for an unknown flag gives %s", v)

def op_as(s, r, distinct):
	known = sorted(r.ases)
	n = s.of(known) if known and s.chance(60) else model.gen_asn(s)
	if s.chance(20):
		# Not an AS number, but close to one
		n = s.of((-1, -5, 1 << 32, (1 << 32) + n, (1 << 63) - 1, n - (1 << 32)))
	v = lua.run("local a = db:get_as(%d); return a and L(a:get_number(), a:get_name(), tostring(a))" % n)
	p, = perl.get("scalar(Location::get_as_name($db, '%d'))" % n)
	if n in r.ases:
		name = r.ases[n]
		check(v[0] is True and v[1] is not None, "Lua: AS%d was not found: %s", n, v)
		check(v[1][0] == n, "Lua: AS%d has the number %s", n, v[1][0])
		check(same(v[1][1], name), "Lua: AS%d is named %s instead of %r", n, v[1][1], name)
		check(v[1][2].startswith(text("AS%d - %s" % (n, name) if name else "AS%d" % n)), "Lua: AS%d prints as %s", n, v[1][2])
		check(same(p, name), "Perl: AS%d is named %s instead of %r", n, p, name)
	else:
		check(v[0] is False or v[1:] in ([], [None]), "Lua: AS%d was found: %s", n, v)
		check(p is None, "Perl: AS%d was found: %s", n, p)

BAD_CODES = ("", "D", "DEU", "de", "dE", "X1", "XX", "D1", "\u00c4", "1E", "D" * 100)

def op_country(s, r, distinct):
	code = s.of(sorted(r.countries)) if r.countries and s.chance(60) else chr(65 + s.choose(23)) + chr(65 + s.choose(26))
	if s.chance(20):
		code = s.of(BAD_CODES)
	v = lua.run("local c = db:get_country(%s); return c and L(c:get_code(), c:get_name(), c:get_continent_code(), tostring(c))" % luastr(code))
	p = perlstr(code)
	name, continent = perl.get("(scalar(Location::get_country_name($db, %s)), scalar(Location::get_continent_code($db, %s)))" % (p, p))
	if code in r.countries:
		want = r.countries[code]
		check(v[0] is True and v[1] is not None, "Lua: %s was not found: %s", code, v)
		check(v[1][0] == v[1][3] == text(code), "Lua: %s has the code %s", code, v[1])
		check(same(v[1][1], want[0]) and same(v[1][2], want[1]), "Lua: %s is %s instead of %s", code, v[1], want)
		check(same(name, want[0]) and same(continent, want[1]), "Perl: %s is %s, %s instead of %s", code, name, continent, want)
	else:
		check(v[0] is False or v[1:] in ([], [None]), "Lua: %r was found: %s", code, v)
		check(name is None and continent is None, "Perl: %r was found: %s, %s", code, name, continent)

def op_metadata(s, r, distinct):
	v = lua.get("return db:get_vendor(), db:get_description(), db:get_license(), db:created_at()")
	check(same(v[0], r.vendor) and same(v[1], r.description) and same(v[2], r.license), "Lua: vendor, description and license are %s", v)
	check(v[3] == location.Database(path("db")).created_at, "Lua: created at %s", v[3])
	v = perl.get("(scalar(Location::get_vendor($db)), scalar(Location::get_description($db)), scalar(Location::get_license($db)))")
	check(same(v[0], r.vendor) and same(v[1], r.description) and same(v[2], r.license), "Perl: vendor, description and license are %s", v)
	v = perl.get("Location::database_countries($db)")
	check(v == [text(c) for c in sorted(r.countries)], "Perl: the countries are %s instead of %s", v, sorted(r.countries))

def op_networks(s, r, distinct):
	limit = s.choose(4)
	if limit:
		# Given up early
		v, = lua.get("local t, i = {}, 0; for n in db:list_networks() do i = i + 1; t[i] = %s; if i == %d then break end end return t" % (NETWORK, limit))
	else:
		v, = lua.get("local t = {}; for n in db:list_networks() do t[#t + 1] = %s end return t" % NETWORK)
	got = [(e.net, e.info) for e in map(entry_of, v)]
	check(got == sorted(got), "Lua: the networks are not in order: %s", got)
	if distinct:
		want = sorted((e.net, e.info) for e in r.entries)
		if limit:
			want = want[:limit]
		check(got == want, "Lua: the networks are %r instead of %r", got, want)
	for net, info in got:
		w = model.lpm(r.entries, net.first)
		check(w is not None, "Lua: the database does not contain %s", net)

def op_network_object(s, r, distinct):
	m = model.gen_net(s, [e.net for e in r.entries[:6]], model.Opts())
	v, rp, rps = lua.get("n = location.Network.new(%s); return %s, n:reverse_pointer(), n:reverse_pointer('example.org')" % (luastr(str(m)), NETWORK))
	e = entry_of(v)
	check(e.net == m and e.info == ("", 0, 0), "Lua: the network %s is %r", m, e)
	n = location.Network(str(m))
	check(rp == text(n.reverse_pointer()) and rps == text(n.reverse_pointer("example.org")), "Lua: the reverse pointer of %s is %s or %s", m, rp, rps)
	v = lua.run("local t = n:subnets(); local a, b = t[1], t[2]; n = a; local x = %s; n = b; return x, %s" % (NETWORK, NETWORK))
	if m.plen == 128:
		check(v[0] is False or v[1:] == [], "Lua: the subnets of %s are %s", m, v)
	else:
		check(v[0] is True, "Lua: %s has no subnets: %s", m, v)
		a, b = entry_of(v[1]).net, entry_of(v[2]).net
		check(a.first == m.first and a.last + 1 == b.first and b.last == m.last, "Lua: the subnets of %s are %s and %s", m, a, b)
	lua.get("n = nil")
	bad = s.of([a for a in BAD_ADDRESSES])
	v = lua.run("return tostring(location.Network.new(%s))" % luastr(bad))
	check(v[0] is False, "Lua: %r is the network %s", bad, v[1:])

def op_objects(s, r, distinct):
	x = model.gen_asn(s)
	num, name, t = lua.get("local a = location.AS.new(%d); return a:get_number(), a:get_name(), tostring(a)" % x)
	check(num == x and name is None and t == text("AS%d" % x), "Lua: AS%d is %s, %s, %s", x, num, name, t)
	a, b = s.of(("DE", "FR", "AA")), s.of(("DE", "FR", "AA"))
	v = lua.get("local a, b = location.Country.new('%s'), location.Country.new('%s'); return a == b, a ~= b, tostring(a), b:get_code(), a:get_name(), a:get_continent_code()" % (a, b))
	check(v[:4] == [a == b, a != b, text(a), text(b)] and v[4:] in ([], [None, None]), "Lua: %s and %s are %s", a, b, v)
	bad = s.of(BAD_CODES)
	v = lua.run("return tostring(location.Country.new(%s))" % luastr(bad))
	check(v[0] is False, "Lua: %r is the country %s", bad, v[1:])

JUNK = ("nil", "0", "-1", "1e100", "0/0", "1.5", "''", "'x'", "'DE'", "'10.0.0.0/8'", "{}", "true", "print", "db", "location", "location.AS.new(1)",
	"location.Network.new('::/0')", "location.Country.new('DE')", "io.stdout", "'\\0'", "('x'):rep(100000)", "2^31", "2^32", "-2^63")
METHODS = (
	("db", ("get_as", "get_country", "lookup", "verify", "list_networks", "get_vendor", "created_at", "get_description", "get_license", "nothing")),
	("location.Network.new('10.0.0.0/8')", ("get_asn", "get_country_code", "get_family", "has_flag", "reverse_pointer", "subnets", "nothing")),
	("location.AS.new(1)", ("get_name", "get_number", "nothing")),
	("location.Country.new('DE')", ("get_code", "get_continent_code", "get_name", "nothing")),
	("location.Database", ("open", "lookup", "get_as", "list_networks", "verify")),
	("location.Network", ("new", "get_asn", "subnets", "reverse_pointer", "has_flag")),
	("location.AS", ("new", "get_name", "get_number")),
	("location.Country", ("new", "get_name", "get_code")),
	("location", ("version", "nothing")),
)

def op_junk(s, r, distinct):
	"""
		Whatever is passed, the interpreters survive
	"""
	obj, methods = s.of(METHODS)
	args = ", ".join(s.of(JUNK) for i in range(s.choose(4)))
	lua.run("local x = %s; local r = x%s%s(%s); if type(r) == 'function' then return tostring(r()) end return tostring(r)"
		% (obj, s.of((":", ".")), s.of(methods), args))
	# The database still works
	lua.get("return db:get_vendor()")
	f = s.of(("get_as_name", "get_country_name", "get_continent_code", "lookup_asn", "lookup_country_code"))
	arg = s.of(("undef", "0", "-1", "1e100", "''", "'x'", "[]", "{}", "1.5", "'x' x 100000", "\"\\0\"", "18446744073709551615", "9**9**9", "-9**9**9"))
	perl.run("Location::%s($db, %s)" % (f, arg))
	perl.run("Location::%s(%s)" % (f, s.of(("", "undef", "1", "undef, 1", "$db", "$db, 1, 2"))))
	perl.get("Location::get_vendor($db)")
	s.label("junk")

def op_open(s, r, distinct):
	for p in ("/nonexistent/database.db", path("bad"), "", "/"):
		v = lua.run("return tostring(location.Database.open(%s))" % luastr(p))
		check(v[0] is False, "Lua: %r was opened as a database", p)
		v = perl.run("my $x = Location::init(%s); 1" % perlstr(p))
		check(v[0] is False, "Perl: %r was opened as a database", p)

def op_verify(s, r, distinct):
	for i, key in enumerate(("EC1", "EC2", "bad")):
		want = SIGNED[0] == i
		v = lua.run("return db:verify(%s)" % luastr(path(key)))
		check(v == [True, want], "Lua: signed with %s, verifying with key %d gives %s", SIGNED[0], i, v)
		v = perl.run("Location::verify($db, %s)" % perlstr(path(key)))
		check((v[0] is True and v[1:] == [b"1"]) if want else (v[0] is False or v[1:] in ([b""], [b"0"])), "Perl: signed with %s, verifying with key %d gives %s", SIGNED[0], i, v)
	# What is not a public key does not verify anything
	junk = s.of(("bad", "key1", "key2", "db"))
	v = lua.run("return db:verify(%s)" % luastr(path(junk)))
	check(v[0] is False or v[1] is False, "Lua: signed with %s, verified with %s: %s", SIGNED[0], junk, v)
	v = perl.run("Location::verify($db, %s)" % perlstr(path(junk)))
	check(v[0] is False or v[1:] in ([b""], [b"0"]), "Perl: signed with %s, verified with %s: %s", SIGNED[0], junk, v)
	v = lua.run("return db:verify('/nonexistent')")
	check(v[0] is False or v[1] is False, "Lua: verified with a key that does not exist: %s", v)
	v = perl.run("Location::verify($db, '/nonexistent')")
	check(v[0] is False or v[1:] in ([b""], [b"0"]), "Perl: verified with a key that does not exist: %s", v)

LOGGING = """
local m, old = {}, {}
local function listen(to, fail)
	local function f() location.set_log_callback(function(p, t) to[#to + 1] = L(p, t); %s end) end
	%s
end
%s
listen(m)
collectgarbage()
location.set_log_level(%d)
local r = L(pcall(location.Database.open, %s))
local n = %s
location.set_log_level(0)
return m, old, r, n
"""

def op_logging(s, r, distinct):
	level = s.of((0, 2, 3, 6, 7))
	fail = s.of(("", "", "error('x')", "error({})", "coroutine.yield()"))
	# A callback can be set from anywhere
	how = s.of(("f()", "coroutine.wrap(f)()", "local c = coroutine.create(function() f(); coroutine.yield() end); coroutine.resume(c)",
		"pcall(function() f(); error('x') end)", "coroutine.resume(coroutine.create(function() f(); error('x') end))"))
	use = s.of(("db:get_vendor()", "coroutine.wrap(function() return db:get_vendor() end)()"))
	m, old, v, n = lua.get(LOGGING % (fail, how, s.of(("", "listen(old)")), level, luastr(path("bad")), use))
	check(v[0] is False, "Lua: something that is not a database was opened: %s", v)
	check(old == [], "Lua: a callback that was replaced received %s", old)
	check((m != []) == (level >= 3), "Lua: at the level %d, opening something that is not a database is logged as %s", level, m)
	for x in m:
		check(x[0] in range(level + 1) and type(x[1]) is bytes and x[1].strip(), "Lua: at the level %d, this is logged: %s", level, x)
	check(n is None or type(n) is bytes, "Lua: the vendor is %s", n)
	s.label("logging")

def op_damaged(s, r, distinct):
	"""
		What cannot be read from a damaged database is an error, and not taken for the end
	"""
	r = model.gen_records(s, 8, None, True)
	for i, e in enumerate(r.entries):
		e.asn = 1000 + i
	w = location.Writer()
	fill(w, r)
	fd = FILES["damaged"]
	os.ftruncate(fd, 0)
	w.write(path("damaged"))
	data, kind, what = damage(s, os.pread(fd, os.fstat(fd).st_size, 0), r.entries, r.countries)
	if not kind:
		return
	s.say("(%s %s)", kind, what)
	s.label("damaged " + kind)
	os.pwrite(fd, data, 0)
	lua.get("bad = location.Database.open(%s)" % luastr(path("damaged")))
	perl.get("$main::bad = Location::init(%s); 1" % perlstr(path("damaged")))
	try:
		v = perl.run("join(',', Location::database_countries($main::bad))")
		if kind == "country":
			check(v[0] is False, "Perl: one country cannot be read, but they are listed as %s", v)
		else:
			check(v == [True, ",".join(sorted(r.countries)).encode()], "Perl: the countries are listed as %s", v)
		v = lua.run("local i = 0; for n in bad:list_networks() do i = i + 1 end return i")
		if kind == "country":
			check(v == [True, len(r.entries)], "Lua: %d networks are listed as %s", len(r.entries), v)
			return
		check(v[0] is False, "Lua: one network cannot be read, but %s are listed", v)
		for i in range(3):
			a = model.gen_probe(s, r.entries)
			e, addr = model.lpm(r.entries, a), model.addr_str(a)
			v = lua.run("local n = bad:lookup(%s); return n and n:get_asn()" % luastr(addr))
			p = perl.run("Location::lookup_asn($main::bad, %s)" % perlstr(addr))
			if e is what if kind == "network" else a >> 127 == what:
				check(v[0] is False, "Lua: %s cannot be read, but gives %s", addr, v)
				check(p[0] is False, "Perl: %s cannot be read, but gives %s", addr, p)
			else:
				check(v[0] is True and v[1:] in ([e.asn],) if e else v[1:] in ([], [None]), "Lua: %s gives %s instead of %s", addr, v, e)
				check(p[0] is True and (p[1:] == [str(e.asn).encode()] if e else p[1:] in ([], [None])), "Perl: %s gives %s instead of %s", addr, p, e)
	finally:
		lua.get("bad = nil; collectgarbage(); return 1")
		perl.get("undef $main::bad; 1")

def op_threads(s, r, distinct):
	"""
		Databases outlive the threads that are created while they are open
	"""
	v = perl.get("require threads; my @t = map { threads->create(sub { %s }) } 1..%d; map { join(',', $_->join) } @t" % (
		s.of(("1", "eval { Location::get_vendor($db); 1 } ? 1 : 1", "my $x = eval { Location::init(%s) }; 1" % perlstr(path("db")))), n := 1 + s.choose(2)))
	check(v == b"1" if n == 1 and type(v) is bytes else list(v) == [b"1"] * n, "Perl: %d threads return %s", n, v)
	vendor, = perl.get("scalar(Location::get_vendor($db))")
	check(vendor is None or type(vendor) is bytes, "Perl: the vendor is %s", vendor)
	s.label("threads")

def op_created(s, r, distinct):
	"""
		Times have 64 bits
	"""
	t = s.of((0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40)) + s.choose(2)
	fd = FILES["damaged"]
	os.ftruncate(fd, 0)
	location.Writer().write(path("damaged"))
	os.pwrite(fd, t.to_bytes(8, "big"), 8)
	v, = lua.get("return location.Database.open(%s):created_at()" % luastr(path("damaged")))
	check(v == t, "Lua: what was created at %s was created at %s", t, v)

SIGNED = [None]

OPS = ((op_created, 1), (op_threads, 1), (op_damaged, 2), (op_lookup, 10), (op_bad_lookup, 2), (op_as, 6), (op_country, 6), (op_metadata, 2), (op_networks, 3), (op_network_object, 3),
	(op_objects, 2), (op_junk, 4), (op_open, 1), (op_verify, 1), (op_logging, 1))

def prop(s):
	lua.case()
	perl.case()
	distinct = s.coin()
	r = model.gen_records(s, 16, None, distinct)
	SIGNED[0] = s.of((None, 0, 1))
	if SIGNED[0] is None:
		w = location.Writer()
	else:
		with open(path("key%d" % (SIGNED[0] + 1)), "rb") as f:
			w = location.Writer(f)
	fill(w, r)
	w.write(path("db"))
	lua.get("db = location.Database.open(%s)" % luastr(path("db")))
	perl.get("$db = Location::init(%s); 1" % perlstr(path("db")))
	s.say("%s; %s; %s;", r.entries[:8], r.ases, r.countries)
	for i in range(1 + s.size(12)):
		op = OPS[s.pick(*(x for _, x in OPS))][0]
		s.say("%s", op.__name__[3:])
		op(s, r, distinct)
	# What was found stays when the database is gone
	v = lua.get("local n = db:lookup('10.0.0.1'); db = nil; collectgarbage(); if n then return %s end" % NETWORK)
	if v and v[0]:
		entry_of(v[0])
	perl.get("undef $db; 1")
	if len(r.entries) > 2:
		s.nontrivial()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C17",
		"a database of 0-16 networks, ASes and countries is opened in a Lua and a Perl interpreter (with the address sanitizer in library and modules), and 1-13 operations are run in both: lookups, records, metadata, enumeration, objects, verification and threads against a model, invalid and arbitrary arguments; "
		"non-trivial: more than two networks", prop, setup, cpu=60)))
