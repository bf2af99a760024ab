"""
	Parsers of the formats for export, and what has to be in there
"""
import re
import socket

import model
import pbt
from pbt import check

FAMILIES = { socket.AF_INET : "4", socket.AF_INET6 : "6" }

def parse_list(data, name, family):
	return [net(l, family) for l in lines(data)]

def lines(data):
	text = data.decode("ascii")
	check(text == "" or text.endswith("\n"), "the last line is not complete: %r", text[-80:])
	return text.splitlines()

def net(text, family):
	n = model.parse_net(text)
	check(str(n) == text, "%r is not how %s is written", text, n)
	check(n.family == family, "%s is of the wrong family", n)
	return n

def parse_ipset(data, name, family):
	tag = "%sv%s" % (name, FAMILIES[family])
	l = lines(data)
	check(len(l) >= 2, "a set has %d lines", len(l))
	m = re.match(r"^create (\S+) hash:net family (\S+) hashsize\s+(\d+) maxelem (\d+) -exist$", l[0])
	check(m, "a set begins with %r", l[0])
	check(m.group(1) == tag, "the set is called %r instead of %r", m.group(1), tag)
	check(m.group(2) == ("inet6" if family == socket.AF_INET6 else "inet"), "the set has the family %s", m.group(2))
	size = int(m.group(3))
	# A power of two, and three quarters of it are enough (but it is not much more)
	n = len(l) - 2
	check(size >= 64 and not size & (size - 1), "the set has the hash size %d", size)
	check(4 * n <= 3 * size and (size <= 64 or size <= 4 * n / 0.75), "the set has the hash size %d for %d networks", size, n)
	check(int(m.group(4)) >= len(l) - 2, "the set takes up to %s networks, but has %d", m.group(4), len(l) - 2)
	check(l[1] == "flush %s" % tag, "a set goes on with %r", l[1])
	r = []
	for x in l[2:]:
		check(x.startswith("add %s " % tag), "a network is added by %r", x)
		r.append(net(x[len("add %s " % tag):], family))
	return r

def parse_nftables(data, name, family):
	tag = "%sv%s" % (name, FAMILIES[family])
	l = lines(data)
	check(l[0] == "define %s = {" % tag, "a set begins with %r", l[0])
	check(l[-1] == "}", "a set ends with %r", l[-1])
	r = []
	for x in l[1:-1]:
		check(x.startswith("\t") and x.endswith(","), "a network is written as %r", x)
		r.append(net(x[1:-1], family))
	return r

def parse_xt_geoip(data, name, family):
	size = 4 if family == socket.AF_INET else 16
	base = model.V4BASE if family == socket.AF_INET else 0
	check(len(data) % (2 * size) == 0, "the file has %d bytes", len(data))
	r = []
	for i in range(0, len(data), 2 * size):
		r.append((base + int.from_bytes(data[i:i + size], "big"), base + int.from_bytes(data[i + size:i + 2 * size], "big")))
	# The kernel searches the file
	check(r == sorted(r), "the ranges are not in order")
	return r

FORMATS = {
	"list"     : (parse_list,     lambda name, f: "%sv%s.networks" % (name, FAMILIES[f])),
	"ipset"    : (parse_ipset,    lambda name, f: "%sv%s.ipset" % (name, FAMILIES[f])),
	"nftables" : (parse_nftables, lambda name, f: "%sv%s.set" % (name, FAMILIES[f])),
	"xt_geoip" : (parse_xt_geoip, lambda name, f: "%s.iv%s" % (name, FAMILIES[f])),
}

def join(ranges):
	r = []
	for a, b in sorted(ranges):
		check(a <= b, "a range ends before it begins")
		check(not r or r[-1][1] < a, "%s is exported twice", model.addr_str(a))
		if r and r[-1][1] + 1 == a:
			r[-1][1] = b
		else:
			r.append([a, b])
	return r

def selects(obj, e):
	if isinstance(obj, int):
		return bool(obj) and e.asn == obj
	if obj in model.SPECIAL:
		return bool(e.flags & model.SPECIAL[obj])
	return e.cc == obj

def want(entries, obj, family):
	r = []
	for first, last in model.intervals([e.net for e in entries]):
		e = model.lpm(entries, first)
		if model.is_v4(first) == (family == socket.AF_INET) and e is not None and selects(obj, e):
			r.append((first, last))
	return join(r)

def show(ranges):
	return ", ".join("%s-%s" % (model.addr_str(a), model.addr_str(b)) for a, b in ranges[:8])

def verify(entries, name, obj, family, fmt, data):
	try:
		got = join((n.first, n.last) if isinstance(n, model.Net) else n for n in FORMATS[fmt][0](data, name, family))
	except pbt.Fail as e:
		raise pbt.Fail("%s of %s in IPv%s: %s" % (fmt, name, FAMILIES[family], e))
	w = want(entries, obj, family)
	check(got == w, "%s of %s in IPv%s has %s instead of %s", fmt, name, FAMILIES[family], show(got), show(w))
	return bool(w)
