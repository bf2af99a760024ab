"""
	The importer replaces what it knows from a source by exactly what the source says now, or not at all
"""
import datetime
import gzip
import http.client
import json
import os
import shutil
import tempfile
import urllib.error

import pbt
import pg
import registry
from importer import Bird, Importer, Page
from pbt import Discard, check

DIR = None

def setup():
	global DIR
	DIR = tempfile.mkdtemp(prefix="C26-", dir=os.environ["VERIF_SCRATCH"])

DAY = datetime.timedelta(days=1)
V4, V6 = (4, 0, 0), (6, 0, 0)

def inet(n):
	return n.version, n.address, n.prefix

def rows(server, table, *columns):
	r = []
	for row in server.rows(table, *columns):
		r.append(tuple(inet(v) if isinstance(v, pg.Inet) else v for v in row))
	return r

class State(object):
	def __init__(self):
		self.countries = {}
		self.announcements = {}		# network -> (asn, first seen, last seen)
		self.network_overrides = {}	# network -> (country, flags)
		self.as_overrides = {}		# asn -> (name, country, flags)
		self.links = set()		# (network, url), from overrides
		self.registered = set()		# the same, from registries
		self.geofeeds = {}		# url -> [updated at, {(network, country, region, city)}]
		self.network_feeds = {}		# source -> {(network, country, anycast, drop)}
		self.as_feeds = {}		# source -> {asn}

def compare(imp, st, what):
	server = imp.server
	def same(name, got, want):
		if got != want:
			more = [str(x) for x in got if not x in want][:5]
			less = [str(x) for x in want if not x in got][:5]
			raise pbt.Fail("after %s, there are %s that should not be, and are missing: %s (%s)" % (what, more, less, name))
	same("countries", sorted(rows(server, "countries", "country_code", "continent_code", "name")),
		sorted((c, k, n) for c, (k, n) in st.countries.items()))
	same("announcements", sorted(rows(server, "announcements", "network", "autnum", "first_seen_at", "last_seen_at")),
		sorted((n,) + v for n, v in st.announcements.items()))
	key = repr
	same("network overrides", sorted(rows(server, "network_overrides", "network", "country", "is_anonymous_proxy", "is_satellite_provider", "is_anycast", "is_drop"), key=key),
		sorted(((n, cc) + flags for n, (cc, flags) in st.network_overrides.items()), key=key))
	same("AS overrides", sorted(rows(server, "autnum_overrides", "number", "name", "country", "is_anonymous_proxy", "is_satellite_provider", "is_anycast", "is_drop"), key=key),
		sorted(((n, name, cc) + flags for n, (name, cc, flags) in st.as_overrides.items()), key=key))
	same("links to geofeeds", sorted(rows(server, "network_geofeeds", "network", "url")), sorted(st.links | st.registered))
	same("feeds of networks", sorted(rows(server, "network_feeds", "source", "network", "country", "is_anycast", "is_drop"), key=key),
		sorted(((source,) + x for source, v in st.network_feeds.items() for x in v), key=key))
	same("feeds of AS", sorted(rows(server, "autnum_feeds", "source", "number", "is_drop")),
		sorted((source, x, True) for source, v in st.as_feeds.items() for x in v))
	same("geofeeds", sorted(rows(server, "geofeeds", "url", "updated_at"), key=key), sorted(((u, v[0]) for u, v in st.geofeeds.items()), key=key))
	ids = dict(rows(server, "geofeeds", "id", "url"))
	same("networks in geofeeds", sorted((ids[i],) + tuple(r) for i, *r in rows(server, "geofeed_networks", "geofeed_id", "network", "country", "region", "city")),
		sorted((u,) + x for u, v in st.geofeeds.items() for x in v[1]))

# Countries

def do_countries(s, imp, st):
	path = os.path.join(DIR, "countries")
	new, lines = {}, []
	for i in range(s.size(6)):
		k = s.pick(8, 1, 1)
		if k == 0:
			code, continent = s.of(registry.COUNTRIES), s.of(("EU", "NA"))
			name = s.of(("Germany", "United States of America", "C\u00f4te d'Ivoire", "x"))
			lines.append("%s%s%s%s%s" % (code, s.of((" ", "\t", "   ")), continent, s.of((" ", "\t")), name))
			new.setdefault(code, (continent, name))
		elif k == 1:
			lines.append("# " + s.of(("comment", "DE EU Germany")))
		else:
			lines.append(s.of(("", "DE", "DE EU")))
	with open(path, "w") as f:
		f.write("".join(l + "\n" for l in lines))
	code, err = imp.run("import-countries", path)
	check(code == 0, "import-countries fails: %s", err[-2000:])
	st.countries = new
	return "import-countries of %r" % lines

# Announcements

def announced(n, asn):
	"""
		Is this public?
	"""
	v, a, p = n
	if v == 6:
		if not registry.covers(registry.net("2000::/3"), n) or p > 48 or registry.covers(registry.net("2002::/16"), n):
			return False
	else:
		if p == 0 or p > 24:
			return False
		for x in registry.SPECIAL + [registry.net("192.0.0.0/24"), registry.net("192.88.99.0/24"), registry.net("224.0.0.0/4")]:
			if registry.covers(x, n):
				return False
	return registry.valid_asn(asn)

def gen_announced(s, pool):
	k = s.pick(8, 3, 1)
	if k == 1:
		n = registry.gen_special(s)
	elif k == 2:
		n = registry.net(s.of(("0.0.0.0/0", "::/0", "224.0.0.0/8", "2002:100::/24", "192.88.99.0/24", "192.0.0.0/24", "2001:db8::/48", "2000::/3", "1.1.1.0/25", "1.1.1.1/32",
			"2a00::/48", "2a00::/49", "1000::/16", "4000::/16")))
	else:
		n = registry.gen_net(s, pool)
	pool.append(n)
	return n

def do_announcements(s, imp, st):
	path = os.path.join(DIR, "bird")
	if os.path.exists(path):
		os.unlink(path)
	bird = Bird(path)
	try:
		pool = list(st.announcements)
		routes, aggregates = {}, {}
		lines, table = [], None
		for i in range(s.size(10)):
			n = gen_announced(s, pool)
			asn = registry.gen_asn(s)
			if n in routes or n in aggregates:
				continue
			if table != n[0]:
				table = n[0]
				lines.append("1007-Table master%s:" % n[0])
			net = registry.show(n)
			if s.chance(12):
				# The origin is a set, so the path has to be looked at
				aggregates[n] = asn
				lines.append(" %-20s unicast [bgp%s 2024-01-01 from 10.1.1.1] * (100) [%s]" % (net, n[0], s.of("ie?")))
			else:
				routes[n] = asn
				lines.append(" %-20s unicast [bgp%s 2024-01-01 from 10.1.1.1] * (100) [AS%s%s]" % (net, n[0], asn, s.of("ie?")))
			if s.coin():
				lines.append(" \tvia 10.1.1.1 on eth0")
			if s.chance(15):
				# Another path to the same network
				lines.append(" %-20s unicast [bgp%s 2024-01-01 from 10.1.1.2] (100) [AS%s%s]" % ("", n[0], registry.gen_asn(s), s.of("ie?")))
				lines.append(" \tvia 10.1.1.2 on eth0")
			if s.chance(5):
				lines.append(" %-20s blackhole [static1 2024-01-01] * (200)" % "192.0.2.0/24")
		answer = "".join(l + "\n" for l in lines) + "0000 \n"
		broken = None
		gone = set()
		for n in aggregates:
			path_ = " ".join(str(registry.gen_valid_asn(s)) for i in range(1 + s.choose(3)))
			a = "1007-Table master%s:\n %-20s unicast [bgp1 2024-01-01] * (100) [i]\n" % (n[0], registry.show(n))
			a += "1008-\tType: BGP univ\n1012-\tBGP.origin: IGP\n \tBGP.as_path: %s %s {%s}\n \tBGP.next_hop: 10.1.1.1\n0000 \n" % (path_, aggregates[n], registry.gen_valid_asn(s))
			if s.chance(15):
				# It has been withdrawn in the meantime
				a = "8001 Network not found\n"
				gone.add(n)
			bird.answers["show route %s all" % registry.show(n)] = a.encode()
		k = s.pick(10, 1, 1)
		if k == 1:
			# The daemon goes away
			answer = answer[:s.choose(len(answer) - 5)]
			bird.linger = False
			broken = "the connection breaks"
		elif k == 2:
			answer = s.of(("9001 syntax error, unexpected CF_SYM_UNDEFINED\n", "8002 Access denied\n", "8003 Protocol is down\n"))
			broken = "it is answered %s" % answer.strip()
		bird.answers["show route"] = answer.encode()
		bird.pieces = [s.of((1, 3, 7, 100, 4096, 100000)) if s.chance(50) else 1 + s.choose(200) for i in range(3)]
		code, err = imp.run("update-announcements", path)
	finally:
		bird.close()
	what = "update-announcements of %r" % answer
	if broken:
		check(code != 0, "update-announcements ends with 0 although %s", broken)
		s.label("routing daemon fails")
		return what
	check(code == 0, "update-announcements fails: %s", err[-2000:])
	now = imp.server.now
	seen = dict(routes)
	seen.update((n, a) for n, a in aggregates.items() if not n in gone)
	for n, asn in seen.items():
		first = st.announcements[n][1] if n in st.announcements else now
		st.announcements[n] = (asn, first, now)
	for n, (asn, first, last) in list(st.announcements.items()):
		if not announced(n, asn) or last <= now - 14 * DAY:
			del st.announcements[n]
	return what

# Overrides

def gen_bool(s):
	v = s.of((None, "yes", "no", "1", "0", "YES", "No", "maybe", ""))
	return v, { "yes" : True, "1" : True, "no" : False, "0" : False }.get((v or "").lower())

FLAGS = ("is-anonymous-proxy", "is-satellite-provider", "is-anycast", "drop")

def do_overrides(s, imp, st):
	nets, ases, links = {}, {}, set()
	urls = set()
	pool = []
	paths, broken, text = [], None, []
	for i in range(1 + s.pick(3, 1)):
		out = []
		for j in range(s.size(5)):
			k = s.pick(6, 4, 4, 1)
			lines = []
			if k < 2:
				flags = []
				for f in FLAGS:
					v, b = gen_bool(s)
					if v is not None:
						lines.append("%s: %s" % (f, v))
					flags.append(b)
				flags = tuple(flags)
				cc = s.of(registry.COUNTRIES) if s.chance(60) else None
				if cc:
					lines.append("country:%s%s" % (s.of((" ", "       ", "\t", "")), cc))
				if s.chance(30):
					lines.append(s.of(("descr: foo", "remarks: x: y", "# comment", "  # indented")))
				s.shuffle(lines)
			if k == 0:
				kind = s.pick(8, 1, 1)
				if kind == 0:
					n = registry.gen_net(s, pool)
					pool.append(n)
					a = n[1] | (s.choose(1 << 8) & (1 << registry.BITS[n[0]] - n[2]) - 1 if s.chance(20) else 0)
					lines.insert(0, "net: %s/%s" % (registry.address(n[0], a), n[2]))
					nets.setdefault(n, (cc, flags))
				elif kind == 1:
					lines.insert(0, "net: %s" % s.of(("0.0.0.0/0", "::/0")))
				else:
					lines.insert(0, "net: %s" % s.of(("nonsense", "1.2.3.4/33", "", "1.2.3", "::/129")))
			elif k == 1:
				asn = registry.gen_asn(s)
				name = s.of((None, "Foo", "M\u00fcller", "a: b"))
				if name:
					lines.append("name: %s" % name)
				if s.chance(10):
					lines.insert(0, "aut-num: %d" % asn)
				else:
					lines.insert(0, "aut-num: AS%d" % asn)
					ases.setdefault(asn, (name, cc, flags))
			elif k == 2:
				url = s.of(("https://example.com/%d" % s.choose(4), "http://insecure.example/", "nonsense"))
				permitted = []
				for l in range(s.choose(3)):
					if s.chance(15):
						lines.append("network: %s" % s.of(("nonsense", "1.2.3.4/24", "")))
					else:
						n = registry.gen_net(s, pool)
						pool.append(n)
						permitted.append(n)
						lines.append("network: %s" % registry.show(n))
				lines.insert(0, "geofeed: %s" % url)
				if url.startswith("https"):
					urls.add(url)
					links.update((n, url) for n in permitted or (V4, V6))
			else:
				lines = [s.of(("route: 1.2.3.0/24", "person: foo"))]
			out += lines + [""] * (1 + s.pick(4, 1))
		if s.chance(8):
			broken = s.of(("a line without what separates key and value", "aut-num: ASfoo", "aut-num: AS99999999999999999999"))
			out.append(broken)
		path = os.path.join(DIR, "overrides.%d" % i)
		data = "".join(l + "\n" for l in out).encode()
		text.append(data)
		with open(path, "wb") as f:
			f.write(data)
		paths.append(path)
	if s.chance(4):
		broken = "a file that does not exist"
		paths.append(os.path.join(DIR, "missing"))
	what = "update-overrides of %s" % text
	code, err = imp.run("update-overrides", *paths)
	if broken:
		check(code != 0, "update-overrides ends with 0 although there is %s", broken)
		s.label("broken overrides")
		return what
	check(code == 0, "update-overrides fails: %s", err[-2000:])
	st.network_overrides, st.as_overrides, st.links = nets, ases, links
	for u in urls:
		st.geofeeds.setdefault(u, [None, set()])
	return what

# Feeds

REGIONS = { "eu-central-1" : "DE", "eu-west-1" : "IE", "eu-west-2" : "GB", "us-east-1" : "US", "us-gov-west-1" : "US", "cn-north-1" : "CN",
	"ap-northeast-1" : "JP", "sa-east-1" : "BR", "af-south-1" : "ZA", "GLOBAL" : None }
DROP = { "SPAMHAUS-DROP" : "https://www.spamhaus.org/drop/drop.txt", "SPAMHAUS-DROPV6" : "https://www.spamhaus.org/drop/dropv6.txt" }
AWS = "https://ip-ranges.amazonaws.com/ip-ranges.json"
ASNDROP = "https://www.spamhaus.org/drop/asndrop.json"
FEEDS = ("AWS-IP-RANGES", "SPAMHAUS-DROP", "SPAMHAUS-DROPV6", "SPAMHAUS-ASNDROP")

def gen_aws(s):
	v4, v6, want = [], [], {}
	pool = []
	for i in range(s.size(6)):
		region = s.of(sorted(REGIONS) + ["xx-nowhere-1"])
		k = s.pick(8, 1, 1)
		if k == 0:
			n = registry.gen_net(s, pool)
			pool.append(n)
			net = registry.show(n)
			if region in REGIONS:
				want.setdefault(n, (REGIONS[region], region == "GLOBAL", None))
		elif k == 1:
			n = registry.gen_special(s)
			net = registry.show(n)
		else:
			net = s.of(("nonsense", "1.2.3.4/24", "1.2.3.4/33"))
			n = (4,)
		(v4 if n[0] == 4 else v6).append({ "ip_prefix" if n[0] == 4 else "ipv6_prefix" : net, "region" : region, "service" : "AMAZON" })
	# Those of IPv6 come first, and the first one counts
	feed = { "syncToken" : "1", "prefixes" : v4, "ipv6_prefixes" : v6 }
	if not v6 and s.coin():
		del feed["ipv6_prefixes"]
	return json.dumps(feed).encode(), set((n,) + v for n, v in want.items())

def gen_drop(s, version):
	lines, want = [], set()
	for i in range(s.size(6)):
		k = s.pick(8, 1, 1, 1)
		if k == 0:
			n = registry.gen_net(s, [x[0] for x in want], version)
			if any(x[0] == n for x in want):
				continue
			want.add((n, None, None, True))
			lines.append(registry.show(n) + s.of((" ; SBL1", "", " ", ";x")))
		elif k == 1:
			lines.append("; " + s.of(("comment", "Spamhaus DROP List 2024")))
		elif k == 2:
			lines.append(registry.show(registry.gen_special(s)))
		else:
			lines.append(s.of(("nonsense", "1.2.3.4/33", "<html>", "")))
	return "".join(l + "\n" for l in lines).encode(), want

def gen_asndrop(s):
	lines, want = [], set()
	for i in range(s.size(6)):
		k = s.pick(8, 1, 1)
		if k == 0:
			asn = registry.gen_asn(s)
			if asn in want:
				continue
			lines.append(json.dumps({ "asn" : asn, "rir" : "ripencc", "cc" : "DE", "asname" : "FOO" }))
			if registry.valid_asn(asn):
				want.add(asn)
		elif k == 1:
			lines.append(json.dumps({ "type" : "metadata", "timestamp" : 1 }))
		else:
			lines.append(s.of(("nonsense", "", "{", json.dumps({ "cc" : "DE" }))))
	return "".join(l + "\n" for l in lines).encode(), want

def failures(s, body):
	"""
		A page that cannot be downloaded
	"""
	return s.of((Page(error=urllib.error.URLError("connection refused")), Page(status=500, body=b"oops"), Page(status=403), Page(error=TimeoutError("timed out")),
		Page(error=http.client.RemoteDisconnected("closed")), Page(body[:len(body) // 2], cut=ConnectionResetError("reset")),
		Page(gzip.compress(body + b"x" * 200)[:-10], type="application/gzip"), Page(b"\x1f\x8bnonsense"), Page(error=http.client.BadStatusLine("x")),
		Page(error=UnicodeError("label empty or too long")), Page(b"nonsense", type="application/gzip")))

def do_feeds(s, imp, st):
	chosen = [f for f in FEEDS if s.chance(60)]
	failed = set()
	pages = {}
	new_networks, new_as = {}, {}
	for name in FEEDS:
		if name == "AWS-IP-RANGES":
			url = AWS
			body, want = gen_aws(s)
			new_networks[name] = want
		elif name == "SPAMHAUS-ASNDROP":
			url = ASNDROP
			body, want = gen_asndrop(s)
			new_as[name] = want
		else:
			url = DROP[name]
			body, want = gen_drop(s, 6 if name.endswith("V6") else 4)
			new_networks[name] = want
			if not want:
				# Not a list: what is known remains
				failed.add(name)
		pages[url] = Page(gzip.compress(body), type="application/gzip") if s.chance(10) else Page(body, type=s.of(("text/plain", None)))
		if s.chance(10):
			pages[url] = failures(s, body)
			failed.add(name)
			s.label("broken feed")
		elif name == "AWS-IP-RANGES" and s.chance(5):
			pages[url] = Page(body[:-3])
			failed.add(name)
	imp.web.pages = pages
	# Something nobody knows about (any more)
	if s.chance(20):
		c = pg.Connection(imp.server)
		c.run("INSERT INTO network_feeds(network, source) VALUES(%s, %s)", ("1.2.3.0/24", "GONE"))
		c.run("INSERT INTO autnum_feeds(number, source) VALUES(%s, %s)", (1, "GONE"))
	fault = None
	hit = []
	if len(chosen) == 1 and s.chance(20):
		fault = s.choose(12)
		count = [0]
		def inject(query):
			q = query.upper()
			if not "CREATE TABLE IF NOT EXISTS" in q and not " ANY(" in q and ("INSERT" in q or "DELETE" in q):
				count[0] += 1
				if count[0] == fault + 1:
					hit.append(query)
					raise pg.Error("the server ran out of space")
		imp.server.fault = inject
	code, err = imp.run("update-feeds", *chosen)
	imp.server.fault = None
	if hit:
		s.label("database fault")
		failed.update(chosen)
	updated = [f for f in (chosen or FEEDS) if not f in failed]
	expect = any(f in failed for f in (chosen or FEEDS))
	what = "update-feeds %s with %s" % (chosen, { u : p.body for u, p in pages.items() })
	check((code != 0) == expect, "update-feeds %s ends with %s, but %s failed: %s", chosen, code, sorted(failed), err[-2000:])
	for f in updated:
		if f in new_networks:
			st.network_feeds[f] = new_networks[f]
		else:
			st.as_feeds[f] = new_as[f]
	return what

# Geofeeds

def gen_geofeed(s):
	lines, want = [], []
	pool = []
	for i in range(s.size(6)):
		k = s.pick(8, 2, 2, 1)
		tail = s.of((",R1,City,", ",,,", ",R,C", ",R,C,12345,extra", ",r,\u00fc,"))
		if k == 0:
			n = registry.gen_net(s, pool)
			pool.append(n)
			a = n[1] | (s.choose(1 << 8) & (1 << registry.BITS[n[0]] - n[2]) - 1 if s.chance(20) else 0)
			net = "%s/%s" % (registry.address(n[0], a), n[2])
			if n[2] == registry.BITS[n[0]] and s.coin():
				net = registry.address(n[0], a)
			cc = s.of(registry.COUNTRIES)
			shown = s.of((cc, cc, " " + cc + " ", cc.lower()))
			lines.append(net + "," + shown + tail)
			f = (net + "," + shown + tail).rstrip().split(",", 5)
			want.append((n, cc, f[2], f[3]))
		elif k == 1:
			lines.append(s.of(("# comment", "", "1.2.3.0/24", "1.2.3.0/24,DE", "1.2.3.0/24,DE,", "   ", "#1.2.3.0/24,DE,,,")))
		elif k == 2:
			lines.append(s.of(("nonsense,DE,,,", "1.2.3.0/24,,,,", "1.2.3.0/24,DEU,,,", "1.2.3.0/24,D,,,", "1.2.3.0/33,DE,,,", "1.2.3.0/24,??,,,", ",,,,", "1.2.3.0/24, ,,,", "1.2.3.0/24,D1,,,")))
		else:
			lines.append(registry.show(registry.gen_special(s)) + ",DE,,,")
	data = (s.of(("\n", "\r\n"))).join(lines).encode()
	if s.coin():
		data += b"\n"
	if s.chance(10):
		data = b"5.5.5.0/24,DE,\xff,x,\n" + data
	return data, want

def do_geofeeds(s, imp, st):
	now = imp.server.now
	linked = set(u for n, u in st.links | st.registered)
	for u in list(st.geofeeds):
		if not u in linked:
			del st.geofeeds[u]
	for u in linked:
		st.geofeeds.setdefault(u, [None, set()])
	pages = {}
	due = set()
	outcome = {}
	for u in sorted(st.geofeeds):
		body, want = gen_geofeed(s)
		# Entries that are the same are of no use for comparisons
		want = set(want)
		k = s.pick(8, 2, 1)
		if k == 0:
			pages[u] = Page(gzip.compress(body), type="application/gzip") if s.chance(15) else Page(body, type=s.of(("text/csv", "text/plain", None)))
			outcome[u] = want
		elif k == 1:
			pages[u] = failures(s, body)
			outcome[u] = None
			s.label("broken geofeed")
		else:
			outcome[u] = 404
		if st.geofeeds[u][0] is None or st.geofeeds[u][0] <= now - 7 * DAY:
			due.add(u)
	imp.web.pages, imp.web.requests = pages, []
	code, err = imp.run("update-geofeeds")
	what = "update-geofeeds with %s" % { u : (p.body, p) for u, p in pages.items() }
	check(code == 0, "update-geofeeds fails with %s: %s\n%s", code, what, err[-2000:])
	check(sorted(imp.web.requests) == sorted(due), "update-geofeeds downloads %s instead of %s", imp.web.requests, due)
	# Duplicates do not matter
	for u in due:
		if outcome[u] == 404:
			st.geofeeds[u][1] = set()
		elif outcome[u] is not None:
			st.geofeeds[u] = [now, outcome[u]]
	for u, v in st.geofeeds.items():
		if v[0] is None or v[0] <= now - 14 * DAY:
			v[1] = set()
	# Which of several equal lines there are is of no interest
	t = imp.server.tables.get("geofeed_networks")
	if t:
		seen, kept = set(), []
		for r in t.rows:
			k = (r["geofeed_id"], r["network"], r["country"], r["region"], r["city"])
			if not k in seen:
				seen.add(k)
				kept.append(r)
		t.rows[:] = kept
	return what

ACTIONS = (do_countries, do_announcements, do_overrides, do_feeds, do_geofeeds)

def run(s):
	imp = Importer()
	st = State()
	code, err = imp.run("import-countries", "/dev/null")
	check(code == 0, "import-countries fails: %s", err)
	if s.chance(70):
		c = pg.Connection(imp.server)
		for i in range(1 + s.choose(5)):
			n = registry.gen_net(s, [])
			url = "https://ripe.example/%d" % i
			st.registered.add((n, url))
			c.run("INSERT INTO network_geofeeds(network, url, source) VALUES(%s, %s, %s)", (registry.show(n), url, "RIPE"))
	done = set()
	for i in range(1 + s.size(7)):
		k = s.pick(1, 3, 4, 3, 4)
		what = ACTIONS[k](s, imp, st)
		done.add(k)
		s.say("%s;", what[:300])
		compare(imp, st, what)
		s.label(ACTIONS[k].__name__[3:])
		if st.announcements or st.network_overrides or st.as_overrides or any(v[1] for v in st.geofeeds.values()) or any(st.network_feeds.values()):
			s.nontrivial()
		# Time passes
		imp.server.now += s.of((datetime.timedelta(hours=1), DAY, 7 * DAY, 3 * DAY, 14 * DAY, 6 * DAY, 13 * DAY + datetime.timedelta(hours=23), 20 * DAY))

def prop(s):
	try:
		run(s)
	except pg.Unsupported:
		s.label("unsupported SQL")
		raise Discard()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C26",
		"a history of imports that leaves at least one network or AS behind", prop, setup, cpu=20)))
