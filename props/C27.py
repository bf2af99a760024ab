"""
	The copy tool preserves everything that is in a database
"""
import os
import tempfile

import cli
import model
import pbt
from pbt import check
from pyloc import MemFile, entry_of, fill

location = PROGRAM = DIR = None

def setup():
	global location, PROGRAM, DIR
	import location as l
	location = l
	PROGRAM = compile(open(os.path.join(os.environ["VERIF_REPO"], "tools/copy.py")).read(), "copy.py", "exec")
	DIR = tempfile.mkdtemp(prefix="C27-", dir=os.environ["VERIF_SCRATCH"])

def verify(path, r):
	"""
		Does the database say what the records say?
	"""
	db = location.Database(path)
	for k in ("vendor", "description", "license"):
		check((getattr(db, k) or None) == getattr(r, k), "the %s of the copy is %r instead of %r", k, getattr(db, k), getattr(r, k))
	got = [(a.number, a.name or None) for a in db.ases]
	check(got == sorted(r.ases.items()), "the ASes of the copy are %s instead of %s", got, sorted(r.ases.items()))
	got = [(c.code, (c.name or None, c.continent_code or None)) for c in db.countries]
	check(got == sorted(r.countries.items()), "the countries of the copy are %s instead of %s", got, sorted(r.countries.items()))
	for first, last in model.intervals([e.net for e in r.entries]):
		for a in (first, last):
			e = model.lpm(r.entries, a)
			n = db.lookup(model.addr_str(a))
			if e is None:
				check(n is None, "%s is %s in the copy, but not in the database", model.addr_str(a), n)
			else:
				check(n is not None, "%s is %s in the database, but not in the copy", model.addr_str(a), e)
				g = entry_of(n)
				check(g.info == e.info, "%s is %s in the database and %s in the copy", model.addr_str(a), e, g)

def prop(s):
	r = model.gen_records(s, 30, None, s.chance(30))
	s.say("%s", r.entries)
	s.say("%s %s %r %r %r", r.ases, r.countries, r.vendor, r.description, r.license)
	w = location.Writer()
	fill(w, r)
	with MemFile() as f:
		w.write(f.path)
		data = f.read()
		out = os.path.join(DIR, "out")
		if s.chance(20):
			# The file may be there
			with open(out, "wb") as o:
				o.write(b"x" * s.choose(100000))
			s.label("file exists")
		elif os.path.exists(out):
			os.unlink(out)
		for i in range(1 + s.pick(6, 1)):
			# A copy of the copy is as good
			code, o, err = cli.run(PROGRAM, [f.path if not i else out, out + (".1" if i else "")])
			check(code == 0, "the copy fails with %s: %s", code, err)
			verify(out + (".1" if i else ""), r)
		check(f.read() == data, "the database has been modified")
	if s.chance(5):
		# What cannot be copied
		with MemFile(data[:s.choose(len(data))] if s.coin() else b"nonsense") as f:
			bad = os.path.join(DIR, "bad")
			code, o, err = cli.run(PROGRAM, [s.of((f.path, os.path.join(DIR, "missing"))), bad])
			check(code != 0, "something that is not a database was copied")
		s.label("no database")
	if len(r.entries) > 2 and r.ases and r.countries:
		s.nontrivial()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C27",
		"generated records (0-30 networks, ASes, countries, metadata, with names and codes missing) are written and copied with tools/copy.py, sometimes twice, and the copy is compared with the records by all enumerations and by lookups of the ends of every elementary interval; "
		"non-trivial: more than two networks, and ASes and countries", prop, setup)))
