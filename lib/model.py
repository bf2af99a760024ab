"""
	The reference model in Python: addresses are integers (IPv4 mapped into IPv6), networks
	are pairs of address and prefix, a database is a list searched linearly.
"""
import ipaddress
import socket

V4BASE = 0xffff << 32
ALL = (1 << 128) - 1

FLAGS = (1, 2, 4, 8)
SPECIAL = { "A1" : 1, "A2" : 2, "A3" : 4, "XD" : 8 }

def mask(plen):
	return ALL ^ (ALL >> plen) if plen else 0

def is_v4(a):
	return a >> 32 == 0xffff

def addr_str(a):
	if is_v4(a):
		return str(ipaddress.IPv4Address(a & 0xffffffff))
	return socket.inet_ntop(socket.AF_INET6, a.to_bytes(16, "big"))

def parse_addr(s):
	if ":" in s:
		return int.from_bytes(socket.inet_pton(socket.AF_INET6, s), "big")
	return V4BASE | int.from_bytes(socket.inet_pton(socket.AF_INET, s), "big")

class Net(object):
	__slots__ = ("addr", "plen")

	def __init__(self, addr, plen):
		self.addr, self.plen = addr & mask(plen), plen

	@property
	def v4(self):
		return self.plen >= 96 and is_v4(self.addr)

	@property
	def family(self):
		return socket.AF_INET if self.v4 else socket.AF_INET6

	@property
	def prefix(self):
		return self.plen - 96 if self.v4 else self.plen

	@property
	def minplen(self):
		return 96 if self.v4 else 0

	@property
	def first(self):
		return self.addr

	@property
	def last(self):
		return self.addr | (ALL >> self.plen)

	def has(self, a):
		return a & mask(self.plen) == self.addr

	def covers(self, o):
		return self.plen <= o.plen and self.has(o.addr)

	@property
	def encloses_v4(self):
		return not self.v4 and self.has(V4BASE)

	def key(self):
		return (self.addr, self.plen)

	def __eq__(self, o):
		return self.key() == o.key()

	def __lt__(self, o):
		return self.key() < o.key()

	def __hash__(self):
		return hash(self.key())

	def __str__(self):
		return "%s/%d" % (addr_str(self.addr), self.prefix)

	__repr__ = __str__

def parse_net(s):
	a, p = s.split("/")
	addr = parse_addr(a)
	return Net(addr, int(p) + (96 if ":" not in a else 0))

class Entry(object):
	__slots__ = ("net", "cc", "asn", "flags")

	def __init__(self, net, cc="", asn=0, flags=0):
		self.net, self.cc, self.asn, self.flags = net, cc, asn, flags

	@property
	def info(self):
		return (self.cc, self.asn, self.flags)

	def __repr__(self):
		return "%s[%s AS%d f%x]" % (self.net, self.cc, self.asn, self.flags)

def lpm(entries, a):
	best = None
	for e in entries:
		if e.net.has(a) and (best is None or e.net.plen > best.net.plen):
			best = e
	return best

def intervals(nets):
	"""
		The elementary intervals within which no attribution changes
	"""
	b = { 0, V4BASE, V4BASE + (1 << 32) }
	for n in nets:
		b.add(n.first)
		if n.last != ALL:
			b.add(n.last + 1)
	b = sorted(b)
	return [(x, (b[i + 1] - 1) if i + 1 < len(b) else ALL) for i, x in enumerate(b)]

# Generators

class Opts(object):
	def __init__(self, v4=True, v6=True, v6low=True):
		self.v4, self.v6, self.v6low = v4, v6, v6low

def gen_bits(s):
	k = s.pick(3, 2, 2, 3, 2)
	if k == 0:
		return 0
	if k == 1:
		return ALL
	if k == 2:
		return 1 << s.choose(128)
	if k == 3:
		return s.big(128)
	r, i, bit = 0, 0, s.coin()
	while i < 128:
		n = 1 + s.choose(40)
		if bit:
			r |= ((1 << n) - 1) << i
		i += n
		bit = not bit
	return r & ALL

def gen_addr4(s):
	if s.pick(5, 1) == 0:
		return V4BASE | (10 + s.choose(3)) << 24 | (gen_bits(s) & 0xffffff)
	return V4BASE | (gen_bits(s) & 0xffffffff)

def gen_addr6(s, o):
	k = s.pick(5, 2, 1)
	if k == 0:
		a = 0x20010db8 << 96 | (gen_bits(s) & (ALL >> 32))
	elif k == 1:
		a = gen_bits(s)
	else:
		a = gen_bits(s) & (ALL >> (64 + s.choose(64))) if o.v6low else 0xfe80 << 112
	if is_v4(a):
		a ^= 1 << 33
	return a

def gen_addr(s, o):
	if o.v4 and (not o.v6 or not s.coin()):
		return gen_addr4(s)
	return gen_addr6(s, o)

def allowed(n, o):
	if n.v4:
		return o.v4
	if not o.v6 or n.encloses_v4:
		return False
	return o.v6low or not (n.plen > 64 and n.addr >> 64 == 0)

def gen_fresh(s, o):
	for i in range(8):
		if o.v4 and (not o.v6 or not s.coin()):
			a = gen_addr4(s)
			k = s.pick(4, 2, 1, 1)
			n = Net(a, 96 + (8 + s.choose(25) if k == 0 else 24 if k == 1 else 32 if k == 2 else s.choose(33)))
		else:
			a = gen_addr6(s, o)
			k = s.pick(4, 2, 1, 1)
			n = Net(a, 16 + s.choose(49) if k == 0 else 128 - s.choose(9) if k == 1 else 128 if k == 2 else s.choose(129))
		if allowed(n, o):
			return n
	return Net(V4BASE | 10 << 24, 104) if o.v4 else Net(0x20010db8 << 96, 32)

def gen_related(s, b, o):
	n = b
	k = s.pick(4, 3, 3, 2, 2)
	if k == 0:
		room = 128 - b.plen
		if room:
			x = 1 + s.choose(room if s.coin() else min(room, 3))
			n = Net(b.addr | (gen_bits(s) & (ALL >> b.plen)), b.plen + x)
	elif k == 1:
		if b.plen > b.minplen:
			n = Net(b.addr ^ (1 << (128 - b.plen)), b.plen)
	elif k == 2:
		room = b.plen - b.minplen
		if room:
			n = Net(b.addr, b.plen - 1 - s.choose(min(room, 6)))
	elif k == 3:
		if b.last != ALL:
			n = Net(b.last + 1, b.plen)
	elif b.first:
		n = Net(b.first - 1, b.plen)
	if n.v4 != b.v4 or not allowed(n, o):
		return b
	return n

def gen_net(s, seen, o):
	if not seen or s.chance(30):
		return gen_fresh(s, o)
	return gen_related(s, s.of(seen), o)

CODES = ("DE", "", "FR", "US", "GB", "AA", "ZZ", "WX")

def gen_asn(s):
	k = s.pick(4, 3, 1, 1, 1)
	return (0, 1 + s.choose(3), 0xffffffff, 0x80000000, s.choose(1 << 32))[k] if k < 4 else s.choose(1 << 32)

def gen_code(s):
	if s.chance(20):
		return s.of("ABCDEFGHIJKLMNOPQRSTUVWYZ") + chr(65 + s.choose(26))
	return s.of(CODES)

def gen_info(s):
	return gen_code(s), gen_asn(s), s.choose(16) if s.chance(30) else 0

def gen_entries(s, limit, o=None, distinct=False):
	"""
		Distinct networks with attributes; distinct=True gives every one an attribution of its own,
		so that the writer may not merge any
	"""
	o = o or Opts()
	n = s.size(limit)
	infos = [gen_info(s) for i in range(1 + s.choose(4))]
	seen = []
	if n and s.chance(25):
		base = gen_fresh(s, o)
		depth = min(1 + s.choose(4), 128 - base.plen)
		for d in range(depth + 1):
			if d < depth and s.coin():
				continue
			for i in range(1 << d):
				if s.chance(70):
					seen.append(Net(base.addr | i << (128 - base.plen - d), base.plen + d))
	for i in range(n):
		seen.append(gen_net(s, seen, o))
	s.shuffle(seen)
	r, known = [], set()
	for net in seen:
		if net in known or not allowed(net, o):
			continue
		known.add(net)
		if distinct:
			r.append(Entry(net, gen_code(s), 1000 + len(r), s.choose(16)))
		else:
			r.append(Entry(net, *s.of(infos)))
	return r

NAMES = ("IPFire Project", "Lightning Wire Labs GmbH", "A", "DTAG", "\u00c5land", "abc", "Some Network Operator Ltd.", "x-y_z")

def gen_name(s):
	if s.chance(70):
		return s.of(NAMES)
	return "".join(chr(33 + s.choose(94)) for i in range(1 + s.choose(30)))

class Records(object):
	"""
		entries; ases: number -> name or None; countries: code -> (name or None, continent or None);
		vendor, description, license: text or None
	"""
	def __init__(self):
		self.entries, self.ases, self.countries = [], {}, {}
		self.vendor = self.description = self.license = None

def gen_records(s, limit, o=None, distinct=False):
	r = Records()
	r.entries = gen_entries(s, limit, o, distinct)
	for i in range(s.size(12)):
		n = 1 + s.choose(20) if s.chance(70) else s.choose(1 << 32)
		if n not in r.ases:
			r.ases[n] = gen_name(s) if s.chance(85) else None
	# ASes that are in use
	for e in r.entries:
		if e.asn and e.asn not in r.ases and s.chance(30):
			r.ases[e.asn] = gen_name(s) if s.chance(85) else None
	for i in range(s.size(8)):
		code = s.of(("DE", "FR", "US", "GB", "AA", "ZZ", "WX")) if s.coin() else chr(65 + s.choose(23)) + chr(65 + s.choose(26))
		if code not in r.countries:
			r.countries[code] = (gen_name(s) if s.chance(80) else None, s.of(("EU", "AS", "AF", "NA", "SA", "OC", "AN")) if s.chance(80) else None)
	r.vendor = gen_name(s) if s.coin() else None
	r.description = gen_name(s) if s.coin() else None
	r.license = gen_name(s) if s.coin() else None
	return r

def gen_probe(s, entries, o=None):
	o = o or Opts()
	if not entries or s.chance(10):
		return gen_addr(s, o)
	n = s.of(entries).net
	k = s.pick(2, 2, 2, 2, 4, 3)
	if k == 0:
		return n.first
	if k == 1:
		return n.last
	if k == 2:
		return n.first - 1 if n.first else 0
	if k == 3:
		return n.last + 1 if n.last != ALL else ALL
	if k == 4:
		return n.addr | (gen_bits(s) & (ALL >> n.plen))
	return n.addr ^ (1 << s.choose(32 if n.v4 else 128))
