"""
	Exported files denote exactly the selected addresses
"""
import contextlib
import io
import os
import shutil
import socket
import tempfile

import model
import pbt
from formats import FAMILIES, FORMATS, verify
from pbt import check
from pyloc import MemFile, fill

location = export = None
DIR = None

def setup():
	global location, export, DIR
	import location as l
	import location.export as e
	location, export = l, e
	DIR = tempfile.mkdtemp(prefix="C18-", dir=os.environ["VERIF_SCRATCH"])

def gen_objects(s, entries):
	countries, asns = [], []
	for i in range(s.choose(5)):
		k = s.pick(4, 3, 3)
		if k == 0:
			c = s.of([c for c in model.CODES if c])
			if c not in countries:
				countries.append(c)
		elif k == 1:
			c = s.of(sorted(model.SPECIAL))
			if c not in countries:
				countries.append(c)
		else:
			a = s.of(entries).asn if entries and s.chance(70) else model.gen_asn(s)
			if a not in asns:
				asns.append(a)
	return countries, asns

def many(s, r):
	known = { e.net for e in r.entries }
	info = model.gen_info(s)
	base, step = s.of(((model.V4BASE | 13 << 24, 1 << 8), (0x20010db9 << 96, 1 << 64), (0xffff << 112, 1)))
	for i in range(30 + s.choose(120)):
		n = model.Net(base + 2 * i * step, 128)
		if n not in known:
			r.entries.append(model.Entry(n, *info))
	s.label("large set")

def prop(s):
	r = model.gen_records(s, 24, None, s.chance(30))
	if s.chance(3):
		# A large set
		many(s, r)
	w = location.Writer()
	fill(w, r)
	with MemFile() as f:
		w.write(f.path)
		db = location.Database(f.path)
		found = False
		for i in range(1 + s.choose(3)):
			fmt = s.of(sorted(FORMATS))
			countries, asns = gen_objects(s, r.entries)
			families = s.of(([socket.AF_INET6, socket.AF_INET], [socket.AF_INET], [socket.AF_INET6]))
			objects = [(c, c) for c in countries] + [("AS%d" % a, a) for a in asns]
			s.say("%s of %s and %s in %s; ", fmt, countries, asns, families)
			exporter = export.Exporter(db, export.formats[fmt])
			if fmt == "xt_geoip" or s.chance(70):
				d = os.path.join(DIR, "out")
				os.mkdir(d)
				try:
					exporter.export(d, countries=countries, asns=asns, families=families)
					names = set(os.listdir(d))
					expected = { FORMATS[fmt][1](name, family) for name, _ in objects for family in families }
					check(names == expected, "%s of %s wrote %s instead of %s", fmt, objects, sorted(names), sorted(expected))
					for name, obj in objects:
						for family in families:
							with open(os.path.join(d, FORMATS[fmt][1](name, family)), "rb") as x:
								found |= verify(r.entries, name, obj, family, fmt, x.read())
				finally:
					shutil.rmtree(d)
			else:
				# To standard output, one object at a time
				if not objects:
					continue
				name, obj = s.of(objects)
				family = s.of(families)
				out = io.StringIO()
				with contextlib.redirect_stdout(out):
					exporter.export(None, countries=[] if isinstance(obj, int) else [obj], asns=[obj] if isinstance(obj, int) else [], families=[family])
				found |= verify(r.entries, name, obj, family, fmt, out.getvalue().encode())
				s.label("to standard output")
			s.label(fmt)
		if found:
			s.nontrivial()
		s.say("%s", r.entries[:10])

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C18",
		"a database of 0-24 networks is exported 1-3 times: 0-4 countries, special codes and ASNs, any families, any of the four formats, to a directory or to standard output; the files are parsed and compared with the sets of addresses a model attributes to each object; "
		"non-trivial: at least one of the expected sets is not empty", prop, setup)))
