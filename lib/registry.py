"""
	Networks, AS numbers and countries as registries hand them out, for checks of the importer.
	A network is a triple (version, address, prefix).
"""
import ipaddress

BITS = { 4 : 32, 6 : 128 }

def net(s):
	n = ipaddress.ip_network(s)
	return n.version, int(n.network_address), n.prefixlen

# Nobody on the Internet has these
SPECIAL = [net(s) for s in ("0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.2.0/24",
	"192.168.0.0/16", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "240.0.0.0/4",
	"fc00::/7", "fe80::/10", "2001:db8::/32")]

# Where networks are taken from, apart from those; everything else is left alone, because one can
# argue about it (multicast, transition mechanisms, what encloses special networks)
UNICAST = [net(s) for s in ("1.0.0.0/8", "2.0.0.0/8", "4.0.0.0/6", "8.0.0.0/7", "11.0.0.0/8", "12.0.0.0/6", "16.0.0.0/4", "32.0.0.0/3", "64.0.0.0/3",
	"96.0.0.0/6", "101.0.0.0/8", "128.0.0.0/3", "160.0.0.0/5", "173.0.0.0/8", "174.0.0.0/7", "176.0.0.0/4", "193.0.0.0/8", "194.0.0.0/7",
	"196.0.0.0/7", "199.0.0.0/8", "200.0.0.0/7", "204.0.0.0/6", "208.0.0.0/4",
	"2400::/6", "2800::/5", "2600::/8", "2a00::/8")]

COUNTRIES = ("DE", "US", "GB", "FR", "BR", "JP", "ZA", "AU", "IN", "CN")

def last(n):
	v, a, p = n
	return a | (1 << (BITS[v] - p)) - 1

def covers(a, b):
	return a[0] == b[0] and a[2] <= b[2] and b[1] >> (BITS[a[0]] - a[2]) == a[1] >> (BITS[a[0]] - a[2])

def overlap(a, b):
	return covers(a, b) or covers(b, a)

def cut(v, a, p):
	"""
		The network that contains the address
	"""
	shift = BITS[v] - p
	return v, a >> shift << shift, p

def address(v, a):
	return str((ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(a))

def show(n):
	return "%s/%s" % (address(n[0], n[1]), n[2])

def plausible(n):
	"""
		True, False or None if that can be argued about
	"""
	v, a, p = n
	if p < (7 if v == 4 else 10):
		return False
	if any(covers(s, n) for s in SPECIAL):
		return False
	if any(covers(u, n) for u in UNICAST):
		return True
	return None

def split(v, first, end):
	"""
		The networks that make up a range of addresses
	"""
	r = []
	while first <= end:
		size = (first & -first) or (1 << BITS[v])
		while first + size - 1 > end:
			size >>= 1
		r.append((v, first, BITS[v] - size.bit_length() + 1))
		first += size
	return r

def valid_asn(n):
	return 1 <= n <= 23455 or 23457 <= n <= 64495 or 131072 <= n <= 4199999999

def gen_asn(s):
	k = s.pick(10, 3, 2, 2, 2)
	if k == 0:
		return 1 + s.choose(60)
	if k == 1:
		return s.of((1, 23455, 23457, 64495, 131072, 4199999999, 2147483647, 2147483648, 65536 * 3))
	if k == 2:
		return 131072 + s.choose(4199999999 - 131072 + 1)
	if k == 3:
		return s.of((0, 23456, 64496, 64512, 65534, 65535, 65536, 131071, 4200000000, 4294967295))
	return 64496 + s.choose(131072 - 64496)

def gen_valid_asn(s):
	while True:
		n = gen_asn(s)
		if valid_asn(n):
			return n

def gen_special(s):
	"""
		A network that must be rejected
	"""
	b = s.of(SPECIAL)
	if s.chance(20):
		# Far too large
		v = 4 if s.coin() else 6
		p = s.choose(7 if v == 4 else 10)
		return cut(v, s.of(UNICAST_OF[v])[1], p)
	v, a, p = b
	q = min(p + s.choose(17), BITS[v])
	return cut(v, a | s.choose(1 << min(BITS[v] - p, 60)) << max(0, BITS[v] - p - 60), q)

UNICAST_OF = { v : [u for u in UNICAST if u[0] == v] for v in BITS }

def gen_net(s, pool, version=None):
	"""
		A network that must be accepted. pool is a list of those there are so far, to make them overlap
	"""
	mine = [n for n in pool if version is None or n[0] == version]
	if mine and s.chance(60):
		v, a, p = s.of(mine)
		k = s.pick(4, 3, 2, 1)
		if k == 0:
			# Within it
			q = min(p + 1 + s.choose(6), BITS[v])
			n = cut(v, a | s.choose(1 << min(q - p, 30)) << (BITS[v] - q), q)
		elif k == 1:
			# Around it
			n = cut(v, a, max(p - 1 - s.choose(4), 7 if v == 4 else 10))
		elif k == 2:
			# Next to it
			n = cut(v, min(a + (1 << BITS[v] - p), (1 << BITS[v]) - 1), p)
		else:
			n = (v, a, p)
		if plausible(n):
			return n
	v = version or (4 if s.chance(65) else 6)
	u, a, p = s.of(UNICAST_OF[v])
	q = max(p, (7 if v == 4 else 10)) + s.choose(18 if v == 4 else 40)
	if s.chance(10):
		q = s.of((max(p, 7), 31, 32) if v == 4 else (max(p, 10), 127, 128))
	q = min(q, BITS[v])
	return cut(v, a | (s.choose(1 << 24) << (BITS[v] - p) >> 24), q)

def candidates(nets):
	"""
		Addresses at which something may change
	"""
	r = set()
	for n in nets:
		v, a, p = n
		e = last(n)
		for x in (a, e, a - 1, e + 1, (a + e) // 2):
			if 0 <= x < 1 << BITS[v]:
				r.add((v, x))
	return r

def most_specific(records, v, a):
	"""
		records: network -> anything. The most specific one that contains the address
	"""
	best = None
	for n in records:
		if n[0] == v and n[1] <= a <= last(n) and (best is None or n[2] > best[2]):
			best = n
	return best
