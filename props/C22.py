"""
	The importer takes exactly what the registries say about public networks and AS numbers
"""
import gzip
import os
import re
import tempfile
import urllib.error

import pbt
import pg
import registry
from importer import Importer, Page
from pbt import Discard, check

DIR = None

def setup():
	global DIR
	DIR = tempfile.mkdtemp(prefix="C22-", dir=os.environ["VERIF_SCRATCH"])

# What a registry publishes: blocks, extended statistics, the list of AS names
SOURCES = {
	"AFRINIC" : (("b", "https://ftp.afrinic.net/pub/pub/dbase/afrinic.db.gz"),),
	"APNIC" : tuple(("b", "https://ftp.apnic.net/apnic/whois/apnic.db.%s.gz" % k) for k in ("inet6num", "inetnum", "aut-num", "organisation")),
	"ARIN" : (("e", "https://ftp.arin.net/pub/stats/arin/delegated-arin-extended-latest"),
		("n", "https://ftp.arin.net/pub/resource_registry_service/asns.csv")),
	"JPNIC" : (("b", "https://ftp.nic.ad.jp/jpirr/jpirr.db.gz"),),
	"LACNIC" : (("b", "https://ftp.lacnic.net/lacnic/dbase/lacnic.db.gz"),
		("e", "https://ftp.lacnic.net/pub/stats/lacnic/delegated-lacnic-extended-latest")),
	"RIPE" : tuple(("b", "https://ftp.ripe.net/ripe/dbase/split/ripe.db.%s.gz" % k) for k in ("inet6num", "inetnum", "aut-num", "organisation")),
}

class Expected(object):
	"""
		What one source should leave behind
	"""
	def __init__(self):
		self.blocks = {}	# network -> country or None
		self.lines = {}		# network -> country
		self.geofeeds = set()	# (network, url)
		self.asns = {}		# number -> names that it may have
		self.orgs = {}
		self.pending = []	# (number, handle)

	def finish(self):
		handles = {}
		for number, handle in self.pending:
			handles.setdefault(number, []).append(handle)
		for number, l in handles.items():
			# The last one counts
			name = self.orgs.get(l[-1])
			if name is not None:
				self.asns[number] = { name }

	def networks(self):
		r = dict(self.blocks)
		r.update(self.lines)
		return r

def block(s, lines, comments=True):
	"""
		A block, in one of the layouts registries use
	"""
	r = []
	for key, value in lines:
		k = s.pick(6, 2, 1, 1)
		line = "%s:%s%s" % (key, (" " * 8, " ", "", "\t")[k], value)
		if s.chance(10):
			line += s.of(("  ", " # filtered", "\t# x: y", "#"))
		r.append(line)
		if comments and s.chance(6):
			r.append(s.of(("# comment", "% remark", "  # indented", "%", "#country: XX")))
	return r

def gen_inet(s, x, pool):
	"""
		Returns the lines, the expected networks (None if the block must be left out)
	"""
	k = s.pick(8, 6, 4, 3, 3)
	if k == 4:
		# Malformed
		key, value = s.of((("inetnum", "not an address"), ("inetnum", ""), ("inetnum", "1.2.3.4 -"), ("inetnum", "- 1.2.3.4"),
			("inetnum", "41.0.0.255 - 41.0.0.0"), ("inetnum", "41.0.0.0 - 2a00::1"), ("inetnum", "41.0.0.0 - 41.0.0.256"),
			("inetnum", "41.5"), ("inetnum", "41.5.6"), ("inetnum", "41/8x"), ("inetnum", "41.5/x"), ("inetnum", "41.5.6.7.8/24"), ("inetnum", "41.5.6/33"),
			("inetnum", "41.0.0.0/33"), ("inetnum", "41.0.0.0 - 41.0.0.9 - 41.0.0.11"),
			("inet6num", "2a00::/129"), ("inet6num", "2a00:::/32"), ("inet6num", "nonsense"), ("inet6num", ""), ("inet6num", "2a00::/x")))
		return key, value, []
	if k == 3:
		n = registry.gen_special(s)
		nets = []
		key = "inetnum" if n[0] == 4 else "inet6num"
		if n[0] == 4 and s.coin():
			return key, "%s - %s" % (registry.address(4, n[1]), registry.address(4, registry.last(n))), nets
		return key, registry.show(n), nets
	if k == 2:
		n = registry.gen_net(s, pool, 6)
		pool.append(n)
		a = n[1] | (s.choose(1 << 30) & (1 << 128 - n[2]) - 1 if s.chance(20) else 0)
		return "inet6num", "%s/%s" % (registry.address(6, a), n[2]), [n]
	n = registry.gen_net(s, pool, 4)
	pool.append(n)
	if k == 1:
		# A prefix, maybe without the zeroes at its end
		v = registry.address(4, n[1])
		if s.coin():
			parts = v.split(".")
			if n[2] <= 16 and s.coin():
				return "inetnum", "%s.%s/%s" % (parts[0], parts[1], n[2]), [n]
			if n[2] <= 24:
				return "inetnum", "%s.%s.%s/%s" % (parts[0], parts[1], parts[2], n[2]), [n]
		return "inetnum", "%s/%s" % (v, n[2]), [n]
	first, end = n[1], registry.last(n)
	if s.chance(50):
		# Not a single network
		end = min(end + s.choose(end - first + 2), (1 << 32) - 1)
	if s.chance(30):
		first += s.choose(end - first + 1)
	nets = []
	for m in registry.split(4, first, end):
		p = registry.plausible(m)
		if p is None:
			return gen_inet(s, x, pool) if s.choose(4) else ("inetnum", "bad", [])
		if p:
			nets.append(m)
			pool.append(m)
	return "inetnum", "%s%s%s" % (registry.address(4, first), s.of((" - ", "-", " -", "- ")), registry.address(4, end)), nets

def gen_countries(s):
	"""
		Lines and the country that is expected
	"""
	lines, cc = [], None
	for i in range(s.pick(2, 10, 2, 1)):
		k = s.pick(12, 2, 2, 2)
		if k == 0:
			c = s.of(registry.COUNTRIES)
			valid = c
		elif k == 1:
			c, valid = "UK", "GB"
		elif k == 2:
			c, valid = s.of(("ZZ", "YU")), None
		else:
			c, valid = s.of(("QQ", "EU # Country is really world wide", "XXX", "", "D", "Germany")), None
		if s.chance(20):
			c = c.lower()
		lines.append(("country", c))
		cc = cc or valid
	return lines, cc

NAMES = ("Foo", "ACME Inc.", "M\u00fcller & S\u00f6hne", "\u65e5\u672c", "a: b", "x" * 200, "Caf\u00e9", "\"quoted\", Ltd", "O'Reilly", "100%")

def gen_block(s, x, pool, handles):
	k = s.pick(10, 4, 4, 1)
	if k == 0:
		key, value, nets = gen_inet(s, x, pool)
		lines = [(key, value)]
		extra, cc = gen_countries(s)
		url = None
		historic = False
		if s.chance(30):
			name = s.of(("FOO-NET", "ERX-NETBLOCK", "ARIN-CIDR-BLOCK", "IANA-NETBLOCK-24", "NON-RIPE-NCC-MANAGED-ADDRESS-BLOCK", "STUB-41-0-0SLASH8",
				"RIPE-CIDR-BLOCK-5", "A-ERX-NETBLOCK", "RIPE-NCC"))
			historic = name.startswith(("ERX", "ARIN-C", "IANA", "NON-", "STUB", "RIPE-C"))
			extra.append(("netname", name))
		if s.chance(15):
			u = s.of(("https://example.com/geo.csv", "https://a.example/f?x=1", "http://insecure.example/x", "ftp://x", "nonsense", "https://[bad"))
			how = s.choose(2)
			extra.append((("geofeed", u), ("remarks", "Geofeed " + u))[how])
			if u in ("https://example.com/geo.csv", "https://a.example/f?x=1"):
				url = u
		if s.chance(15):
			extra.append(("descr", s.of(NAMES)))
		if s.chance(10):
			extra.append(("status", "ASSIGNED PA"))
		s.shuffle(extra)
		# The first country that is known
		if not historic:
			found = []
			for key, value in extra:
				if key == "country":
					c = { "UK" : "GB" }.get(value.upper(), value.upper())
					if c in registry.COUNTRIES:
						found.append(c)
			for n in nets:
				x.blocks[n] = found[0] if found else None
				if url:
					x.geofeeds.add((n, url))
		if s.chance(5):
			extra.insert(s.choose(len(extra) + 1), (None, s.of(("no colon here", "+ continued", ":"))))
		return lines + extra
	if k == 1:
		n = registry.gen_asn(s)
		lines = [("aut-num", s.of(("AS%d", "as%d")) % n)]
		if s.chance(8):
			lines = [("aut-num", s.of(("ASX", "", "12", "AS", "AS99999999999999999999999")))]
			n = None
		extra = []
		handle = name = None
		if s.chance(70):
			handle = s.of(handles)
			extra.append(("org", handle if s.coin() else handle.lower()))
		if s.chance(50):
			name = s.of(NAMES)
			extra.append(("descr", name))
			if s.chance(30):
				extra.append(("descr", "second line"))
		if s.chance(20):
			extra.append(("as-name", "FOO"))
		if s.chance(20):
			extra.append(("country", s.of(registry.COUNTRIES)))
		if n is not None and registry.valid_asn(n):
			if n in x.seen:
				# Which of two entries counts can be argued about
				return gen_block(s, x, pool, handles)
			x.seen.add(n)
			if handle:
				x.pending.append((n, handle))
			elif name:
				x.asns[n] = { name }
		return lines + extra
	if k == 2:
		handle = s.of(handles)
		lines = [("organisation", handle if s.chance(80) else handle.lower())]
		if s.chance(90):
			name = s.of(NAMES)
			lines.append(("org-name", name))
			x.orgs[handle] = name
		if s.chance(20):
			lines.append(("country", "DE"))
		if s.chance(20):
			lines.append(("address", s.of(NAMES)))
		return lines
	return [(s.of(("person", "route", "mntner", "role")), "whatever"), ("country", "DE"), ("org", handles[0]), ("inetnum", "41.0.0.0 - 41.255.255.255")]

def render_blocks(s, blocks):
	nl = "\r\n" if s.chance(10) else "\n"
	out = []
	if s.chance(30):
		out += [b"# header", b"% copyright", b""]
	for b in blocks:
		lines = []
		for key, value in b:
			if key is None:
				lines.append(value)
			else:
				lines += block(s, [(key, value)])
		for line in lines:
			charset = "utf-8"
			if s.chance(30):
				try:
					line.encode("latin1")
					charset = "latin1"
				except UnicodeEncodeError:
					pass
			out.append(line.encode(charset))
		for i in range(1 + (s.choose(3) if s.chance(20) else 0)):
			out.append(b"" if s.chance(90) else b"   ")
	data = nl.encode().join(out)
	if s.chance(70):
		data += nl.encode()
	return data

def gen_lines(s, x, source, pool):
	out = []
	reg = source.lower()
	if s.chance(70):
		out += ["2|%s|1700000000|3|19700101|20240101|+0000" % reg, "%s|*|ipv4|*|5|summary" % reg, "%s|*|asn|*|5|summary" % reg]
	for i in range(s.size(10)):
		k = s.pick(10, 4, 3, 2, 2)
		tail = s.of(("", "|0a1b2c", "|"))
		status = s.of(("allocated", "assigned"))
		if k == 0:
			cc = s.of(registry.COUNTRIES)
			n = registry.gen_net(s, pool, 4)
			first, count = n[1], 1 << (32 - n[2])
			if s.chance(30):
				count = max(1, count * (1 + s.choose(7)) // s.of((1, 2, 4)))
			if s.chance(15):
				first += s.choose(count)
			end = first + count - 1
			if end >= 1 << 32:
				continue
			nets = registry.split(4, first, end)
			if any(registry.plausible(m) is None for m in nets):
				continue
			if len(nets) > 20:
				continue
			for m in nets:
				if registry.plausible(m):
					x.lines[m] = cc
					pool.append(m)
			out.append("%s|%s|ipv4|%s|%s|20200101|%s%s" % (reg, cc, registry.address(4, first), count, status, tail))
		elif k == 1:
			cc = s.of(registry.COUNTRIES)
			n = registry.gen_net(s, pool, 6)
			pool.append(n)
			x.lines[n] = cc
			out.append("%s|%s|ipv6|%s|%s|20200101|%s%s" % (reg, cc, registry.address(6, n[1]), n[2], status, tail))
		elif k == 2:
			n = registry.gen_special(s)
			out.append("%s|DE|ipv%s|%s|%s|20200101|%s%s" % (reg, n[0], registry.address(n[0], n[1]), n[2] if n[0] == 6 else 1 << (32 - n[2]), status, tail))
		elif k == 3:
			n = registry.gen_net(s, pool)
			count = n[2] if n[0] == 6 else 1 << (32 - n[2])
			out.append(s.of((
				"%s||ipv%s|%s|%s||available|",
				"%s|DE|ipv%s|%s|%s|20200101|reserved|",
				"%s|QQ|ipv%s|%s|%s|20200101|allocated|",
				"%s|ZZ|ipv%s|%s|%s|20200101|assigned",
				"%s|DE|ipx%s|%s|%s|20200101|assigned",
				"#%s|DE|ipv%s|%s|%s|20200101|assigned",
			)) % (reg, n[0], registry.address(n[0], n[1]), count))
		else:
			out.append(s.of((
				"", "nonsense", "%s|DE|asn|1000|1|20200101|assigned|x" % reg, "%s|DE|ipv4|41.0.0.0|x|20200101|assigned" % reg,
				"%s|DE|ipv4|41.0.0.0|0|20200101|assigned" % reg, "%s|DE|ipv4|41.0.0.0|-256|20200101|assigned" % reg, "%s|DE|ipv4|41.0.0|256|20200101|assigned" % reg,
				"%s|DE|ipv4|41.0.0.0|256" % reg, "%s|DE|ipv6|2a00::|129|20200101|assigned" % reg, "%s|DE|ipv6|2a00:::|32|20200101|assigned" % reg,
				"%s|DE|ipv4|255.0.0.0|99999999999|20200101|assigned" % reg, "%s|DE|ipv4|||20200101|assigned" % reg, "%s|DE|ipv6|41.0.0.0|24|20200101|assigned" % reg,
				"%s|DE" % reg, "|||||||")))
	return "\n".join(out).encode() + (b"\n" if s.coin() else b"")

def csv_quote(v):
	return '"%s"' % v.replace('"', '""')

def gen_names(s, x):
	rows = [("Org Handle", "Org Name", "Start AS Handle", "Start AS Number", "End AS Handle", "End AS Number", "Status")]
	for i in range(s.size(8)):
		first = registry.gen_asn(s)
		end = min(first + (s.choose(4) if s.chance(40) else 0), (1 << 32) - 1)
		name = s.of(NAMES)
		status = s.of(("Full Registry Services", "Full Registry Services", "Full Registry Services", "Limited", ""))
		a, b = str(first), str(end)
		k = s.pick(12, 1, 1, 1)
		if k == 1:
			a = s.of(("x", "", "1.5", "AS1"))
		elif k == 2:
			b = s.of(("x", ""))
		elif k == 3:
			a, b = str(end + 1), str(first)
		rows.append(("ORG-%d" % i, name, "AS" + a, a, "AS" + b, b, status))
		if k == 0 and status.startswith("Full"):
			for n in range(first, end + 1):
				if registry.valid_asn(n) and not n in x.asns:
					x.asns[n] = { name }
	lines = [",".join(csv_quote(v) for v in r) for r in rows]
	if s.chance(20):
		lines.insert(1 + s.choose(len(lines)), "")
	if s.chance(10):
		# A line that ends too early
		lines.insert(1 + s.choose(len(lines)), s.of(('"ORG-9","Foo"', '"ORG-9"', '"ORG-9","Foo","AS7","7","AS7","7"')))
	return "\r\n".join(lines).encode() + b"\r\n"

def gen_source(s, source, pool, asns=True):
	"""
		What is published: pages and what to expect
	"""
	x = Expected()
	x.seen = set()
	pages = {}
	handles = ["ORG-%s-%d" % (source, i) for i in range(1 + s.choose(4))]
	urls = SOURCES[source]
	nblocks = sum(1 for k, u in urls if k == "b")
	blocks = []
	if nblocks:
		blocks = [gen_block(s, x, pool, handles) for i in range(s.size(14))]
		if not asns:
			blocks = [b for b in blocks if b[0][0] != "aut-num"]
			x.asns, x.pending = {}, []
	# What statistics say must not meet what blocks say: which one counts can be argued about
	apart = [] if nblocks else pool
	for kind, url in urls:
		if kind == "b":
			if nblocks == 1:
				mine = blocks
			else:
				t = url.rsplit(".", 2)[1]
				mine = [b for b in blocks if b[0][0] == t or (t == "inetnum" and not b[0][0] in ("inet6num", "inetnum", "aut-num", "organisation"))]
			data = render_blocks(s, mine)
			compressed = s.chance(80)
		elif kind == "e":
			data = gen_lines(s, x, source, apart)
			compressed = s.chance(10)
		else:
			data = gen_names(s, x) if asns else b'"Org Name"\r\n'
			compressed = s.chance(10)
		if compressed:
			data = gzip.compress(data, 1)
			pages[url] = Page(data, type=s.of(("application/gzip", "application/x-gzip", "application/octet-stream", None)))
		else:
			pages[url] = Page(data, type=s.of(("text/plain", "application/octet-stream", None)))
	if nblocks and x.lines and any(registry.overlap(a, b) for a in x.lines for b in x.blocks):
		raise Discard()
	x.finish()
	return pages, x

def inet(n):
	"""
		The network in a row
	"""
	return n.version, n.address, n.prefix

def compare(server, source, x):
	networks = x.networks()
	rows = {}
	for n, cc, src in server.rows("networks", "network", "country", "source"):
		if src == source:
			rows[inet(n)] = cc
	for n, cc in rows.items():
		check(n in networks, "%s says nothing about %s, but it is in the database for %s", source, registry.show(n), cc)
		check(cc == networks[n], "%s is said to be in %s by %s, but it is in the database for %s", registry.show(n), networks[n], source, cc)
	located = { n : c for n, c in networks.items() if c }
	for v, a in registry.candidates(networks):
		best = registry.most_specific(located, v, a)
		want = located[best] if best else None
		found = registry.most_specific(rows, v, a)
		got = rows[found] if found else None
		check(got == want, "%s is in %s according to %s (%s), but the database says %s (%s)", registry.address(v, a), want, source,
			best and registry.show(best), got, found and registry.show(found))
	for n in networks:
		check(registry.most_specific(rows, n[0], n[1]) is not None, "%s got lost", registry.show(n))
	got = set((inet(n), url) for n, url, src in server.rows("network_geofeeds", "network", "url", "source") if src == source)
	check(got == x.geofeeds, "%s has geofeeds %s instead of %s", source, sorted(got), sorted(x.geofeeds))
	asns = { number : name for number, name, src in server.rows("autnums", "number", "name", "source") if src == source }
	for number, name in asns.items():
		check(number in x.asns, "%s has no AS%s, but it is in the database as %r", source, number, name)
		check(name in x.asns[number], "AS%s is called %s by %s, but %r in the database", number, sorted(x.asns[number]), source, name)
	for number in x.asns:
		check(number in asns, "AS%s (%s) of %s got lost", number, sorted(x.asns[number]), source)

def snapshot(server, source):
	return tuple(sorted(map(repr, ((str(n),) + tuple(r) if isinstance(n, pg.Inet) else (n,) + tuple(r)
		for table, cols in (("networks", ("network", "country", "source")), ("autnums", ("number", "name", "source")),
			("network_geofeeds", ("network", "url", "source")))
		for n, *r in server.rows(table, *cols) if r[-1] == source))))

def run(s):
	imp = Importer()
	path = os.path.join(DIR, "countries")
	if s.chance(5):
		code, err = imp.run("update-whois")
		check(code == 1, "update-whois without countries ends with %s", code)
		check(not imp.web.requests, "update-whois without countries downloads %s", imp.web.requests)
	with open(path, "w") as f:
		f.write("# Countries\n")
		for c in registry.COUNTRIES:
			f.write("%s%sEU%sCountry of %s\n" % (c, " " if s.coin() else "\t", " ", c))
	code, err = imp.run("import-countries", path)
	check(code == 0, "import-countries fails: %s", err)
	check(set(imp.server.rows("countries", "country_code", "continent_code", "name")) == set((c, "EU", "Country of %s" % c) for c in registry.COUNTRIES),
		"countries: %s", imp.server.rows("countries", "country_code", "continent_code", "name"))

	# Sources that do not meet each other, as that could be argued about
	names = sorted(SOURCES)
	k = s.choose(len(names))
	names = names[k:] + names[:k]
	s.shuffle(names)
	names = names[:1 + s.pick(6, 2, 1)]
	state = { name : Expected() for name in names }
	for step in range(1 + s.pick(6, 3, 1)):
		pages, broken, expected = {}, set(), {}
		chosen = [n for n in names if s.chance(70)] or names[:1]
		for source in chosen:
			p, x = expected[source] = gen_source(s, source, [], source == names[0])
			if s.chance(12):
				broken.add(source)
				url = s.of(sorted(p))
				how = s.choose(4)
				if how == 0:
					p[url] = Page(error=urllib.error.URLError("connection refused"))
				elif how == 1:
					p[url] = Page(status=s.of((404, 500)))
				elif how == 2:
					p[url] = Page(gzip.compress(p[url].body + b"x" * 100)[:-12], type="application/gzip")
				else:
					p[url] = Page(p[url].body, cut=ConnectionResetError("reset"), type="application/gzip")
				s.label("broken source")
			pages.update(p)
		known = [(n, x) for n, x in state.items()] + [(n, x) for n, (p, x) in expected.items()]
		for n, a in known:
			for m, b in known:
				if n != m and any(registry.overlap(i, j) for i in a.networks() for j in b.networks()):
					raise Discard()
		imp.web.pages = pages
		imp.web.requests = []
		everything = len(chosen) == len(names) and s.chance(10)
		argv = chosen if not everything else [] if s.coin() else sorted(SOURCES)
		fault = s.choose(40) if len(argv) == 1 and s.chance(15) else None
		hit = []
		if fault is not None:
			count = [0]
			def inject(query):
				# Not while the tables are set up
				if not "CREATE TABLE IF NOT EXISTS" in query and re.search(r"\b(INSERT|DELETE|UPDATE|SELECT)\b", query):
					count[0] += 1
					# The first statement asks for the countries
					if count[0] == fault + 2:
						hit.append(query)
						raise pg.Error("the server ran out of space")
			imp.server.fault = inject
		before = { n : snapshot(imp.server, n) for n in names }
		code, err = imp.run("update-whois", *argv)
		imp.server.fault = None
		for n in chosen:
			if not n in broken and not all(u in imp.web.requests for k, u in SOURCES[n]) and not hit:
				check(False, "%s has not been downloaded: %s", n, imp.web.requests)
		if hit:
			s.label("database fault")
			broken.update(chosen)
		for n in names:
			if n in broken or not n in chosen:
				now = snapshot(imp.server, n)
				check(now == before[n], "%s %s, but what was there is gone: %s instead of %s", n,
					"could not be imported (%s)" % (hit or err) if n in broken else "was not to be imported", now, before[n])
		check((code != 0) == bool(broken) or everything, "the import of %s ends with %s although %s failed: %s", chosen, code, sorted(broken), err[-3000:])
		for n in chosen:
			if not n in broken:
				check(code == 0 or broken or everything, "the import of %s ends with %s: %s", n, code, err[-3000:])
				p, x = expected[n]
				try:
					compare(imp.server, n, x)
				except pbt.Fail as e:
					raise pbt.Fail("%s\nexit code %s: %s" % (e, code, err[-3000:]))
				state[n] = x
				if x.networks() or x.asns:
					s.nontrivial()
				s.label("%s: %s" % (n, "empty" if not x.networks() else "networks"))
				s.say("%s: %d networks, %d AS, %d geofeeds: %s", n, len(x.networks()), len(x.asns), len(x.geofeeds),
					b" / ".join(p[u].body[:300] for u in sorted(p) if not p[u].body.startswith(b"\x1f\x8b")).decode(errors="replace"))
		if len(names) > 1:
			s.label("several sources")

def prop(s):
	try:
		run(s)
	except pg.Unsupported:
		s.label("unsupported SQL")
		raise Discard()

pbt_property = pbt.Property("C22",
	"a registry publishes at least one public network or AS; at least one import of it succeeds and is compared", prop, setup)

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt_property))
