"""
	Building databases through the Python binding and comparing what comes out with the model
"""
import os

import model
import testkeys
from pbt import Fail, check

class MemFile(object):
	"""
		A file in memory that has a path
	"""
	def __init__(self, data=b""):
		if isinstance(data, str):
			data = data.encode()
		self.fd = os.memfd_create("loc")
		if data:
			os.write(self.fd, data)
			os.lseek(self.fd, 0, os.SEEK_SET)
		self.path = "/proc/self/fd/%d" % self.fd

	def read(self):
		return os.pread(self.fd, os.fstat(self.fd).st_size, 0)

	def __enter__(self):
		return self

	def __exit__(self, *args):
		os.close(self.fd)

	def fileno(self):
		return self.fd

def fill(writer, r):
	"""
		Adds the records to the writer
	"""
	if r.vendor is not None:
		writer.vendor = r.vendor
	if r.description is not None:
		writer.description = r.description
	if r.license is not None:
		writer.license = r.license
	for number, name in r.ases.items():
		a = writer.add_as(number)
		if name is not None:
			a.name = name
	for code, (name, continent) in r.countries.items():
		c = writer.add_country(code)
		if name is not None:
			c.name = name
		if continent is not None:
			c.continent_code = continent
	for e in r.entries:
		n = writer.add_network(str(e.net))
		if e.cc:
			n.country_code = e.cc
		if e.asn:
			n.asn = e.asn
		if e.flags:
			n.set_flag(e.flags)

def entry_of(n):
	"""
		Reads a network object, checking that it is sane in itself
	"""
	net = model.parse_net(str(n))
	check(str(net) == str(n), "network %s prints as %s", net, n)
	check(n.family == net.family, "network %s has family %s", n, n.family)
	check(n.first_address == model.addr_str(net.first), "network %s begins with %s", n, n.first_address)
	check(n.last_address == model.addr_str(net.last), "network %s ends with %s", n, n.last_address)
	size = 4 if net.v4 else 16
	for a, b in ((n._first_address, net.first), (n._last_address, net.last)):
		# An IPv6 network may begin or end with an address that looks like one of IPv4
		if model.is_v4(b) and not net.v4:
			continue
		check(a == b.to_bytes(16, "big")[16 - size:], "network %s has the bytes %s", n, a)
	flags = 0
	for f in model.FLAGS:
		if n.has_flag(f):
			flags |= f
	asn = n.asn
	check(asn is None or (isinstance(asn, int) and 0 < asn < 1 << 32), "network %s has the ASN %s", n, asn)
	return model.Entry(net, n.country_code or "", asn or 0, flags)

def damage(s, data, entries, countries):
	"""
		Damages a database whose networks have different ASNs in one place, and returns it with the kind
		of what is damaged, and what that is: an entry or a country whose code is none, or one half of
		the address space that leads to a node that does not exist
	"""
	import struct
	data = bytearray(data)
	h = dict(zip(("ao", "al", "do", "dl", "to", "tl", "co", "cl"), struct.unpack(">8I", data[28:60])))
	kinds = [k for k, ok in (("network", entries), ("country", countries), ("node", entries)) if ok]
	if not kinds:
		return None, None, None
	kind = s.of(kinds)
	bad = s.of((b"x1", b"de", b"\xff\xff", b"D\0", b"D1"))
	if kind == "network":
		e = s.of(entries)
		where = [i for i in range(h["do"], h["do"] + h["dl"], 12) if struct.unpack(">I", data[i + 4:i + 8])[0] == e.asn]
		check(len(where) == 1, "there are %d networks with the ASN %d", len(where), e.asn)
		data[where[0]:where[0] + 2] = bad
		return bytes(data), kind, e
	if kind == "country":
		i = s.choose(h["cl"] // 8)
		code = bytes(data[h["co"] + i * 8:h["co"] + i * 8 + 2]).decode()
		data[h["co"] + i * 8:h["co"] + i * 8 + 2] = bad
		return bytes(data), kind, code
	# The root leads to a node that does not exist, on a side where there is something
	side = s.of([b for b in (0, 1) if struct.unpack(">I", data[h["to"] + b * 4:h["to"] + b * 4 + 4])[0]] or [0])
	data[h["to"] + side * 4:h["to"] + side * 4 + 4] = struct.pack(">I", h["tl"] // 12 + s.choose(3))
	return bytes(data), kind, side
