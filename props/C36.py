"""
	Commands survive full disks and crashes
"""
import errno
import json
import lzma
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time

import mirror
import pbt
import testkeys
from pbt import check

NONE, KILL_BEFORE, KILL_DURING, KILL_AFTER, FAIL_ONCE, FULL, BROKEN = range(7)
MODES = ("nothing", "killed before", "killed during", "killed after", "fails once", "disk full", "disk broken")
SCRATCH = os.environ["VERIF_SCRATCH"]

mirrors = server = None
DIR = KEY = POOL = None

class Stored(object):
	def __init__(self, data, created_at):
		self.data, self.created_at = data, created_at

def make_pool():
	"""
		Signed databases of several sizes, old and new ones
	"""
	import location
	old, new = [], []
	for pool in (old, new):
		if pool is new:
			time.sleep(2.1)
		for size in (0, 3, 500, 4000):
			key = tempfile.TemporaryFile("w+", dir=SCRATCH)
			key.write(testkeys.EC1_PRIVATE)
			key.seek(0)
			w = location.Writer(key)
			w.vendor = "%s %d" % ("old" if pool is old else "new", size)
			w.description = "\n".join("Line %d" % i for i in range(size))
			for code in ("DE", "FR"):
				w.add_country(code)
			for i in range(size):
				n = w.add_network("10.%d.%d.0/25" % (i // 200, i % 200))
				n.asn = i * 7 + 1
				n.country_code = ("DE", "FR")[i * i // 3 % 2]
			with tempfile.NamedTemporaryFile(dir=SCRATCH) as out:
				w.write(out.name)
				pool.append(Stored(out.read(), location.Database(out.name).created_at))
	return old, new

class Server(object):
	"""
		Something that runs the tool
	"""
	def __init__(self):
		self.process = None

	def run(self, **request):
		if not self.process:
			self.process = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(pbt.__file__), "forked.py")],
				stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
				# Streams that are not buffered do not even notice that less was written than they were given
				env=dict({ k : v for k, v in os.environ.items() if k != "PYTHONUNBUFFERED" }, LD_PRELOAD=os.path.join(os.environ["VERIF_FAULTS"], "faults.so")))
		try:
			self.process.stdin.write(json.dumps(request) + "\n")
			self.process.stdin.flush()
			answer = self.process.stdout.readline()
		except BrokenPipeError:
			answer = ""
		if not answer:
			raise RuntimeError("The tool cannot be run")
		return int(answer)

def setup():
	global mirrors, server, DIR, KEY, POOL
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]
	with open(os.path.join(SCRATCH, "pool"), "rb") as f:
		POOL = pickle.load(f)
	DIR = tempfile.mkdtemp(prefix="C36-", dir=SCRATCH)
	KEY = os.path.join(DIR, "key.pem")
	with open(KEY, "w") as f:
		f.write(testkeys.EC1_PUBLIC)
	mirrors = mirror.Mirrors()
	server = Server()

def read(path):
	with open(path, "rb") as f:
		return f.read()

def contents(d):
	return { name : read(os.path.join(d, name)) for name in sorted(os.listdir(d)) }

class Run(object):
	def __init__(self, argv, cwd, stdout, fault=None, **kwargs):
		err, self.report = os.path.join(DIR, "stderr"), os.path.join(DIR, "report")
		for p in (err, self.report):
			if os.path.exists(p):
				os.unlink(p)
		if fault:
			fault = dict(zip(("dir", "mode", "at", "errno"), fault), report=self.report)
		self.code = server.run(argv=argv, cwd=cwd, stdout=stdout, stderr=err, fault=fault, mirrors=kwargs.get("mirrors", ()), timestamp=kwargs.get("timestamp"))
		self.err = read(err).decode(errors="replace")
		self.reached = os.path.exists(self.report) and read(self.report).decode().splitlines()

def gen_fault(s, watched, kill):
	mode = s.of((FULL, FAIL_ONCE, BROKEN) + ((KILL_BEFORE, KILL_DURING, KILL_AFTER) if kill else ()))
	at = 1 + s.size(60) if s.chance(35) else 1 + s.choose(12)
	if mode == FULL:
		e = s.of((errno.ENOSPC, errno.EDQUOT))
	else:
		e = s.of((errno.EIO, errno.EROFS, errno.EACCES, errno.ENOSPC, errno.EXDEV, errno.EPERM))
	return watched, mode, at, e

def said(run, what):
	check("Traceback" not in run.err, "%s ends in a traceback: %s", what, run.err)
	check(run.err.strip(), "%s fails without any message", what)

def op_update(s):
	d = os.path.join(DIR, "var")
	os.mkdir(d)
	path = os.path.join(d, "database.db")
	out = os.path.join(DIR, "out")
	reader = None
	try:
		local = s.of(POOL[0] + [None])
		if local:
			with open(path, "wb") as f:
				f.write(local.data)
			os.chmod(path, s.of((0o444, 0o644)))
			reader = open(path, "rb")
		new = s.of(POOL[1])
		xz = lzma.compress(new.data, preset=0)
		answers = [mirror.Answer(200, xz)]
		# Mirrors that do not work are tried before or after that
		for i in range(s.size(2)):
			answers.insert(s.choose(len(answers) + 1), s.of((mirror.Answer(404, b""), mirror.Answer(200, b"garbage"), mirror.Answer(200, xz[:len(xz) // 2], "cut"), None,
				mirror.Answer(200, lzma.compress(new.data[:-1], preset=0)))))
		mirrors.behaviours = answers
		relative = s.chance(20)
		args = dict(argv=["--database", "database.db" if relative else path, "--public-key", KEY, "update"], cwd=d, stdout=out,
			mirrors=[mirrors.url(i) for i in range(len(answers))], timestamp=s.of((None, POOL[1][0].created_at - 1)))
		before = local.data if local else None
		fault = gen_fault(s, d, True)
		s.say("update of %s bytes to %d bytes; %s at %d (%s), mirrors %s", len(before) if before else "no", len(new.data), MODES[fault[1]], fault[2], errno.errorcode[fault[3]], answers)
		run = Run(fault=fault, **args)
		reached = run.reached
		s.say("exits with %s, %s", run.code, reached)
		after = read(path) if os.path.exists(path) else None
		check(after in (before, new.data), "after an update that %s, the database has %s bytes and is neither the old nor the new one", "was killed" if run.code < 0 else "exits with %d" % run.code, len(after) if after is not None else "no")
		if reader:
			check(reader.read() == before, "the database has changed for those who are still using the previous one")
		if reached:
			s.label(MODES[fault[1]] + " " + reached[0].split()[0])
			s.nontrivial()
		else:
			s.label("no fault")
			check(run.code == 0, "an update without any fault exits with %s: %s", run.code, run.err)
		if run.code >= 0:
			if run.code == 0:
				check(after == new.data, "an update that did not install anything exits with status 0")
				check(os.stat(path).st_mode & 0o777 == 0o444, "the database was installed with mode %o", os.stat(path).st_mode)
			else:
				check(after == before, "an update that has installed the new database exits with status %d", run.code)
				said(run, "an update")
			# There is nothing left, unless that could not be removed
			left = [x for x in os.listdir(d) if x != "database.db"]
			if not any(r.startswith("unlink") for r in reached or ()):
				check(not left, "files are left behind: %s", left)
		else:
			check(run.code == -9 and reached, "an update is ended by signal %d: %s", -run.code, run.err)
		# When everything is fine again, the next update works
		if run.code:
			again = Run(**args)
			if after == new.data:
				return
			check(again.code == 0 and read(path) == new.data, "the next update exits with %s: %s", again.code, again.err)
	finally:
		if reader:
			reader.close()
		if os.path.exists(out):
			os.unlink(out)
		shutil.rmtree(d)

def op_output(s):
	"""
		Commands that write something: with status 0, everything was written
	"""
	stored = s.of(POOL[0])
	path = os.path.join(DIR, "read.db")
	with open(path, "wb") as f:
		f.write(stored.data)
	command = s.of((
		["dump", "result"],
		["dump"],
		["list-countries"],
		["list-networks-by-cc", "DE"],
		["list-networks-by-as", "8", "--format", "ipset"],
		["list-bogons", "--format", "nftables"],
		["export", "--directory", ".", "--format", s.of(("list", "ipset", "nftables", "xt_geoip"))],
		["export", "DE", "FR", "--format", s.of(("list", "ipset", "nftables"))],
		["lookup", "10.0.0.1"],
		["version"],
		["search-as", "x"],
	))
	dirs = [os.path.join(DIR, x) for x in ("expected", "actual")]
	try:
		for d in dirs:
			os.mkdir(d)
		argv = ["--database", path] + command
		first = Run(argv, cwd=dirs[0], stdout=os.path.join(dirs[0], "stdout"))
		check(first.code >= 0 and "Traceback" not in first.err, "%s exits with %s: %s", command, first.code, first.err)
		fault = gen_fault(s, dirs[1], False)
		s.say("%s with %d bytes of database; %s at %d (%s)", " ".join(command), len(stored.data), MODES[fault[1]], fault[2], errno.errorcode[fault[3]])
		run = Run(argv, cwd=dirs[1], stdout=os.path.join(dirs[1], "stdout"), fault=fault)
		s.say("exits with %s, %s", run.code, run.reached)
		check(run.code >= 0, "%s is ended by signal %d", command, -run.code)
		if run.reached:
			s.label(" ".join(command[:1]) + " " + run.reached[0].split()[0])
			s.nontrivial()
		if run.code == first.code:
			check(contents(dirs[1]) == contents(dirs[0]), "%s exits with status %d although not everything was written", command, run.code)
		else:
			check(run.reached, "%s exits with %s once and with %s another time: %s", command, first.code, run.code, run.err)
			check(run.code, "%s exits with status 0, but usually with %d", command, first.code)
			said(run, " ".join(command))
	finally:
		for d in dirs:
			shutil.rmtree(d)
		os.unlink(path)

def prop(s):
	random.seed(s.choose(1 << 16))
	(op_update, op_output)[s.pick(3, 2)](s)

if __name__ == "__main__":
	with open(os.path.join(SCRATCH, "pool"), "wb") as f:
		pickle.dump(make_pool(), f)
	raise SystemExit(pbt.main(pbt.Property("C36",
		"updates (with and without a database, 1-3 mirrors) and commands that print, dump or export, run in processes of their own, in which the n-th change to the file system fails once, all from then on fail (disk full or broken), or the process is killed before, during or after it; "
		"non-trivial: a fault was reached", prop, setup)))
