"""
	The database that the importer writes says what its sources say, the more trusted ones first
"""
import itertools
import os
import tempfile

import pbt
import pg
import registry
import testkeys
from importer import Importer
from pbt import Discard, check

DIR = location = None

def setup():
	global DIR, location
	import location as l
	location = l
	DIR = tempfile.mkdtemp(prefix="C25-", dir=os.environ["VERIF_SCRATCH"])

FLAGS = ("is_anonymous_proxy", "is_satellite_provider", "is_anycast", "is_drop")
BITS = (1, 2, 4, 8)

class Tables(object):
	"""
		What is known
	"""
	def __init__(self):
		self.announcements = {}		# network -> asn
		self.networks = {}		# network -> country
		self.feeds = {}			# (network, source) -> (country, flags)
		self.as_feeds = {}		# asn -> (country, flags)
		self.overrides = {}		# network -> (country, flags)
		self.as_overrides = {}		# asn -> (name, country, flags)
		self.ases = {}			# asn -> name
		self.countries = {}		# code -> (continent, name)
		self.geofeeds = {}		# url -> (permitted networks, {network : country})

	def all(self):
		r = set(self.announcements) | set(self.networks) | set(n for n, s in self.feeds) | set(self.overrides)
		for permitted, nets in self.geofeeds.values():
			r.update(nets)
		return r

def covering(records, n):
	"""
		The most specific of them that cover n; several if they are the same network
	"""
	found = [r for r in records if registry.covers(r, n)]
	best = max((r[2] for r in found), default=None)
	return [r for r in found if r[2] == best]

def layer(values, country, flags):
	if values is None:
		return country, flags
	return values[0] if values[0] is not None else country, tuple(b if b is not None else a for a, b in zip(flags, values[1]))

def attributes(t, n):
	"""
		All that the attributes of a network may be
	"""
	asn = 0
	for a in covering(t.announcements, n):
		asn = t.announcements[a]
	country = None
	for a in covering(t.networks, n):
		country = t.networks[a]
	# Networks in geofeeds are believed only if the feed may talk about them
	geo = {}
	for permitted, nets in t.geofeeds.values():
		for g, cc in nets.items():
			if any(registry.covers(p, g) for p in permitted):
				geo.setdefault(g, []).append(cc)
	countries = [country]
	for g in covering(geo, n):
		countries = geo[g]
	feeds = [None]
	for g in covering(set(n for n, s in t.feeds), n):
		feeds = [v for (m, s), v in t.feeds.items() if m == g]
	overrides = [None]
	for g in covering(t.overrides, n):
		overrides = [t.overrides[g]]
	r = set()
	for cc, feed, override in itertools.product(countries, feeds, overrides):
		flags = (None,) * 4
		cc, flags = layer(feed, cc, flags)
		cc, flags = layer(t.as_feeds.get(asn), cc, flags)
		cc, flags = layer(override, cc, flags)
		x = t.as_overrides.get(asn)
		cc, flags = layer(x and x[1:], cc, flags)
		r.add((cc or "", asn, sum(b for b, f in zip(BITS, flags) if f)))
	return r

def gen_flags(s):
	return tuple((None, None, True, False)[s.choose(4)] for f in FLAGS)

def gen_cc(s):
	return s.of(registry.COUNTRIES)

def gen_tables(s):
	t = Tables()
	pool = []
	asns = [registry.gen_valid_asn(s) for i in range(1 + s.choose(5))]
	def net():
		n = registry.gen_net(s, pool)
		pool.append(n)
		return n
	def maybe(x):
		return x if s.chance(60) else None
	for i in range(s.size(6)):
		t.announcements[net()] = s.of(asns)
	for i in range(s.size(6)):
		t.networks[net()] = maybe(gen_cc(s)) if s.chance(30) else gen_cc(s)
	for i in range(s.size(4)):
		t.feeds[(net(), s.of(("AWS-IP-RANGES", "SPAMHAUS-DROP", "SPAMHAUS-DROPV6")))] = (maybe(gen_cc(s)), gen_flags(s))
	for i in range(s.size(2)):
		t.as_feeds[s.of(asns)] = (maybe(gen_cc(s)), gen_flags(s))
	for i in range(s.size(3)):
		t.overrides[net()] = (maybe(gen_cc(s)), gen_flags(s))
	for i in range(s.size(2)):
		t.as_overrides[s.of(asns)] = (maybe(s.of(("Override", "", "\u00dc"))), maybe(gen_cc(s)), gen_flags(s))
	for i in range(s.size(3)):
		permitted = [net() for i in range(1 + s.choose(2))] if s.chance(80) else [(4, 0, 0), (6, 0, 0)]
		t.geofeeds["https://example.com/%d" % i] = (permitted, { net() : gen_cc(s) for j in range(s.size(4)) })
	for a in asns:
		if s.chance(60):
			t.ases[a] = s.of(("Foo", "Bar Ltd.", "", "\u65e5\u672c", "x" * 300))
	for c in registry.COUNTRIES:
		if s.chance(50):
			t.countries[c] = (s.of(("EU", "NA", "AS")), "Country %s" % c)
	return t

def store(server, t):
	c = pg.Connection(server)
	c.autocommit = True
	def insert(table, columns, *values):
		c.run("INSERT INTO %s(%s) VALUES(%s)" % (table, ", ".join(columns), ", ".join(["%s"] * len(columns))), values)
	for n, asn in t.announcements.items():
		insert("announcements", ("network", "autnum"), registry.show(n), asn)
	for n, cc in t.networks.items():
		insert("networks", ("network", "country", "original_countries", "source"), registry.show(n), cc, [cc] if cc else [], "RIPE")
	for (n, source), (cc, flags) in t.feeds.items():
		insert("network_feeds", ("network", "source", "country") + FLAGS, registry.show(n), source, cc, *flags)
	for asn, (cc, flags) in t.as_feeds.items():
		insert("autnum_feeds", ("number", "source", "country") + FLAGS, asn, "SPAMHAUS-ASNDROP", cc, *flags)
	for n, (cc, flags) in t.overrides.items():
		insert("network_overrides", ("network", "country") + FLAGS, registry.show(n), cc, *flags)
	for asn, (name, cc, flags) in t.as_overrides.items():
		insert("autnum_overrides", ("number", "name", "country") + FLAGS, asn, name, cc, *flags)
	for asn, name in t.ases.items():
		insert("autnums", ("number", "name", "source"), asn, name, "RIPE")
	for cc, (continent, name) in t.countries.items():
		insert("countries", ("country_code", "continent_code", "name"), cc, continent, name)
	for i, (url, (permitted, nets)) in enumerate(t.geofeeds.items()):
		insert("geofeeds", ("id", "url"), i + 1, url)
		for n in set(permitted):
			insert("network_geofeeds", ("network", "url", "source"), registry.show(n), url, "RIPE")
		for n, cc in nets.items():
			insert("geofeed_networks", ("geofeed_id", "network", "country", "region", "city"), i + 1, registry.show(n), cc, "", "")

def dump(server):
	return { name : sorted(repr(sorted((k, str(v)) for k, v in r.items())) for r in t.rows) for name, t in server.tables.items() }

def run(s):
	imp = Importer()
	# Sets the tables up
	code, err = imp.run("import-countries", "/dev/null")
	check(code == 0, "import-countries fails: %s", err)
	t = gen_tables(s)
	store(imp.server, t)
	before = dump(imp.server)

	path = os.path.join(DIR, "db")
	if os.path.exists(path):
		os.unlink(path)
	argv = ["write", path]
	meta = {}
	for k in ("vendor", "description", "license"):
		if s.chance(50):
			meta[k] = s.of(("Foo", "A longer text, with \u00fcmlauts", "x" * 100))
			argv += ["--" + k, meta[k]]
	signed = s.chance(10)
	if signed:
		key = os.path.join(DIR, "key")
		with open(key, "w") as f:
			f.write(testkeys.EC1_PRIVATE)
		argv += ["--signing-key", key]
	code, err = imp.run(*argv)
	check(code == 0, "write fails with %s: %s", code, err[-3000:])
	check(dump(imp.server) == before, "writing a database changes what is known")

	db = location.Database(path)
	for k in ("vendor", "description", "license"):
		check((getattr(db, k) or None) == meta.get(k), "%s is %r instead of %r", k, getattr(db, k), meta.get(k))
	if signed:
		pub = os.path.join(DIR, "pub")
		with open(pub, "w") as f:
			f.write(testkeys.EC1_PUBLIC)
		with open(pub) as f:
			check(db.verify(f), "the signature is not valid")

	# AS
	names = {}
	for asn, name in t.ases.items():
		x = t.as_overrides.get(asn)
		name = x[0] if x and x[0] is not None else name
		if name:
			names[asn] = name
	got = { a.number : a.name for a in db.ases }
	check(got == names, "AS are %s instead of %s", got, names)

	# Countries
	got = { c.code : (c.continent_code, c.name) for c in db.countries }
	check(got == t.countries, "countries are %s instead of %s", got, t.countries)

	# Networks
	nets = t.all()
	kinds = set()
	for v, a in sorted(registry.candidates(nets)):
		n = registry.most_specific(nets, v, a)
		found = db.lookup(registry.address(v, a))
		if n is None:
			check(found is None, "%s is in no network that is known, but in %s in the database", registry.address(v, a), found)
			continue
		check(found is not None, "%s is in %s, but not in the database", registry.address(v, a), registry.show(n))
		flags = sum(b for b in BITS if found.has_flag(b))
		got = (found.country_code or "", found.asn or 0, flags)
		want = attributes(t, n)
		check(got in want, "%s (%s) is %s in the database, but should be %s", registry.address(v, a), registry.show(n), got, sorted(want))
		kinds |= want
	if len(kinds) > 1:
		s.nontrivial()
	for k in ("announcements", "networks", "feeds", "as_feeds", "overrides", "as_overrides", "geofeeds"):
		if getattr(t, k):
			s.label(k)
	s.say("announcements %s, networks %s, feeds %s, AS feeds %s, overrides %s, AS overrides %s, geofeeds %s",
		{ registry.show(n) : v for n, v in t.announcements.items() }, { registry.show(n) : v for n, v in t.networks.items() },
		{ registry.show(n) + " " + x : v for (n, x), v in t.feeds.items() }, t.as_feeds, { registry.show(n) : v for n, v in t.overrides.items() },
		t.as_overrides, { u : ([registry.show(n) for n in p], { registry.show(n) : v for n, v in m.items() }) for u, (p, m) in t.geofeeds.items() })

def prop(s):
	try:
		run(s)
	except pg.Unsupported:
		s.label("unsupported SQL")
		raise Discard()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C25",
		"networks with at least two different sets of attributes end up in the database", prop, setup)))
