"""
	Updates install only a verified, recent database, and try all mirrors
"""
import contextlib
import io
import lzma
import os
import pickle
import random
import shutil
import sys
import tempfile
import time
import unittest.mock

import cli
import mirror
import model
import pbt
import testkeys
from pbt import check

location = downloader = mirrors = program = None
DIR = KEY = None
POOL = None

class Stored(object):
	"""
		A database: signed with the right key or not, created at some time
	"""
	def __init__(self, data, good, created_at):
		self.data, self.good, self.created_at = data, good, created_at

def make_pool():
	"""
		Databases that were created at two different times
	"""
	import location
	pool = []
	keys = { "right" : testkeys.EC1_PRIVATE, "wrong" : testkeys.EC2_PRIVATE }
	for age in range(2):
		if age:
			# Wait for the next second, and one more
			time.sleep(2.1)
		for size in (0, 3, 300):
			for slots in (("right", None), (None, "right"), ("wrong", "right"), (None, None), ("wrong", None)):
				files = []
				for k in slots:
					f = None
					if k:
						f = tempfile.TemporaryFile("w+", dir=os.environ["VERIF_SCRATCH"])
						f.write(keys[k])
						f.seek(0)
					files.append(f)
				w = location.Writer(*files)
				w.vendor = "%d %d %s" % (age, size, slots)
				for i in range(size):
					n = w.add_network("10.%d.%d.0/24" % (i // 200, i % 200))
					n.asn = i * 7 + 1
				with tempfile.NamedTemporaryFile(dir=os.environ["VERIF_SCRATCH"]) as out:
					w.write(out.name)
					data = out.read()
					pool.append(Stored(data, "right" in slots, location.Database(out.name).created_at))
	return pool

def setup():
	global location, downloader, mirrors, DIR, KEY, POOL, program
	import location as l
	import location.downloader as d
	location, downloader = l, d
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]
	with open(os.path.join(os.environ["VERIF_SCRATCH"], "pool"), "rb") as f:
		POOL = pickle.load(f)
	DIR = tempfile.mkdtemp(prefix="C19-", dir=os.environ["VERIF_SCRATCH"])
	KEY = os.path.join(DIR, "key.pem")
	with open(KEY, "w") as f:
		f.write(testkeys.EC1_PUBLIC)
	mirrors = mirror.Mirrors()
	program = cli.load()

# What a mirror has

class Offer(object):
	"""
		answer: what the mirror sends; content: the good database that can be got out of it, if any;
		clean: nothing is wrong with how it is sent
	"""
	def __init__(self, what, answer, stored=None, clean=False):
		self.what, self.answer, self.stored, self.clean = what, answer, stored, clean

	def __repr__(self):
		return self.what

# Signatures are stored in here, which may change without anybody noticing
SIGNATURES = (8, 8 + 8192)

def gen_offer(s, stalling=False):
	stored = s.of(POOL)
	if stalling and s.chance(50):
		# It stops at some point, but keeps the connection open
		xz = lzma.compress(stored.data, preset=0)
		body = None if s.chance(30) else xz[:s.choose(len(xz) + 1)]
		return Offer("stalls after %s bytes" % (len(body) if body is not None else "no"), mirror.Answer(200, body, "stall"), stored if body == xz else None)
	xz = lzma.compress(stored.data, preset=0)
	k = s.pick(12, 4, 3, 2, 2, 2, 2, 2, 2, 2)
	what = "good" if stored.good else "not signed"
	what += ", %d bytes, created at +%d" % (len(stored.data), stored.created_at - POOL[0].created_at)
	if k == 0:
		how = s.of(("length", "chunked", "none", "redirect"))
		# Some mirrors know that they do not need to send what has not changed; files arrive there after they were created
		mtime = stored.created_at + 1 + s.choose(2) * 100 if s.chance(50) else None
		return Offer("%s (%s%s)" % (what, how, ", knows that it has changed at +%d" % (mtime - POOL[0].created_at) if mtime else ""),
			mirror.Answer(200, xz, how, mtime=mtime), stored, True)
	if k == 1:
		status = s.of((404, 304, 403, 500, 503, 410, 429, 401, 204))
		body = s.of((b"", xz, b"Not found", xz[:2000]))
		if status == 204:
			body = b""
		return Offer("status %d with %d bytes" % (status, len(body)), mirror.Answer(status, body))
	if k == 2:
		# Not compressed at all, or nothing at all
		body = s.of((stored.data, b"", b"<html>", b"\0" * 5000, xz[:5], b"\xfd7zXZ\0", b"LOCDBXX\x01"))
		return Offer("%d bytes that are not compressed" % len(body), mirror.Answer(200, body))
	if k == 3:
		# The connection breaks, at any point
		n = s.choose(len(xz) + 1)
		how = s.of(("cut", "reset", "cut chunk", "none"))
		return Offer("%s, %s after %d of %d bytes" % (what, how, n, len(xz)), mirror.Answer(200, xz[:n], how), stored)
	if k == 4:
		# Bad bytes in the compressed data
		x = bytearray(xz)
		for i in range(1 + s.choose(3)):
			x[s.choose(len(x))] ^= 1 << s.choose(8)
		return Offer("%s, damaged compression" % what, mirror.Answer(200, bytes(x)), stored)
	if k == 5:
		# Something follows the compressed data
		junk = s.of((b"x", b"\0\0\0\0", b"y" * 3000, xz))
		return Offer("%s, followed by %d bytes" % (what, len(junk)), mirror.Answer(200, xz + junk), stored)
	if k == 6:
		# A bad database, properly compressed
		d = stored.data
		t = s.choose(4)
		if t == 0:
			d = d[:s.choose(len(d))]
		elif t == 1:
			d = d + s.of((b"\0", b"x" * 5000))
		elif t == 2:
			i = SIGNATURES[1] + s.choose(len(d) - SIGNATURES[1]) if len(d) > SIGNATURES[1] and s.chance(80) else s.choose(8)
			d = d[:i] + bytes([d[i] ^ (1 << s.choose(8))]) + d[i + 1:]
		else:
			d = s.of((b"", b"x", b"LOCDBXX\x01", bytes(20000)))
		return Offer("%s, made a bad database of %d bytes" % (what, len(d)), mirror.Answer(200, lzma.compress(d, preset=0)))
	if k == 7:
		return Offer("no HTTP", mirror.Answer(how="raw", body=s.of((b"", b"hello\r\n\r\n", b"HTTP/1.1 abc\r\n\r\n", b"HTTP/1.1 200 OK\r\n", xz))))
	if k == 8:
		return Offer("nobody there", None)
	# Concatenated streams are one file, which not everybody knows
	n = s.choose(len(stored.data))
	return Offer("%s, in two streams" % what, mirror.Answer(200, lzma.compress(stored.data[:n]) + lzma.compress(stored.data[n:])), stored)

def recent(stored, timestamp):
	return timestamp is None or stored.created_at >= timestamp

def outcome(offers, timestamp):
	"""
		(the contents that may be returned, whether there must be one)
	"""
	good = [o for o in offers if o.stored and o.stored.good and recent(o.stored, timestamp)]
	return [o.stored.data for o in good], any(o.clean for o in good)

DAY = 86400
CRON = { "daily" : DAY, "weekly" : 7 * DAY, "monthly" : 30 * DAY }

def listing(d):
	return sorted(os.listdir(d))

def op_download(s, offers, timestamp):
	tmpdir = os.path.join(DIR, "tmp")
	os.mkdir(tmpdir)
	try:
		contents, must = outcome(offers, timestamp)
		d = downloader.Downloader(mirrors=[mirrors.url(i) for i in range(len(offers))])
		try:
			t = d.download(public_key=KEY, timestamp=timestamp, tmpdir=tmpdir)
		except FileNotFoundError:
			check(not must, "nothing was downloaded")
			check(listing(tmpdir) == [], "temporary files are left behind: %s", listing(tmpdir))
			return False
		except Exception as e:
			raise pbt.Fail("download raised %r" % e)
		with open(t.name, "rb") as f:
			data = f.read()
		check(os.stat(t.name).st_mode & 0o777 == 0o444, "the downloaded file has mode %o", os.stat(t.name).st_mode)
		check(data in contents, "a file of %d bytes was downloaded that should not have been", len(data))
		check(listing(tmpdir) == [os.path.basename(t.name)], "temporary files are left behind: %s", listing(tmpdir))
		return True
	finally:
		shutil.rmtree(tmpdir)

def op_update(s, offers, timestamp):
	"""
		The entire update, as "location update" does it
	"""
	d = os.path.join(DIR, "var")
	os.mkdir(d)
	path = os.path.join(d, "database.db")
	try:
		local = s.of([None] + POOL)
		if local:
			with open(path, "wb") as f:
				f.write(local.data)
		cron = s.of((None, None, "daily", "weekly", "monthly"))
		# How long ago all databases were created
		age = s.of((0, DAY - 60, DAY + 60, 7 * DAY - 60, 7 * DAY + 60, 30 * DAY - 60, 30 * DAY + 60))
		downloader.MIRRORS = tuple(mirrors.url(i) for i in range(len(offers)))
		location.discover_latest_version = lambda *args: timestamp
		now = POOL[0].created_at + age + s.choose(3)
		with unittest.mock.patch("time.time", lambda: now):
			code, out, err = cli.run(program, ["--database", path, "--public-key", KEY, "update"] + (["--cron", cron] if cron else []))
		s.say("update of %s %d seconds ago (cron %s) exits with %s", local.created_at - POOL[0].created_at if local else None, age, cron, code)
		check("Traceback" not in err, "update ends in a traceback: %s", err)
		data = None
		if os.path.exists(path):
			with open(path, "rb") as f:
				data = f.read()
		before = local.data if local else None
		check(listing(d) == (["database.db"] if data is not None else []), "files are left behind: %s", listing(d))
		skipped = (local and cron and age < CRON[cron]) or (local and timestamp and local.created_at >= timestamp)
		if skipped:
			check(data == before, "the database was changed although there was nothing to do")
			check(not mirrors.requests, "something was downloaded although there was nothing to do")
			s.label("nothing to do")
			return False
		contents, must = outcome(offers, timestamp)
		if code == 0:
			check(data in contents, "update installed a database that it should not have installed")
			return True
		check(not must, "update fails with status %s: %s", code, err)
		check(data == before, "a failing update changed the database")
		return False
	finally:
		shutil.rmtree(d)

def prop(s):
	random.seed(s.choose(1 << 16))
	os.environ["TZ"] = s.of(("UTC", "XST+11", "XST-14"))
	time.tzset()
	# Waiting takes time, even if all timeouts are a lot shorter
	stalling = s.choose(100) == 99
	mirror.impatient(30 if stalling else 1)
	offers = [gen_offer(s, stalling) for i in range(1 + s.size(2 if stalling else 5))]
	times = sorted({ p.created_at for p in POOL })
	timestamp = s.of((None, times[0] - 1, times[0], times[0] + 1, times[-1], times[-1] + 1))
	mirrors.behaviours = [o.answer for o in offers]
	mirrors.requests.clear()
	s.say("mirrors: %s; newer than +%s;", offers, timestamp - times[0] if timestamp is not None else None)
	op = (op_download, op_update)[s.pick(3, 2)]
	try:
		with mirror.Deadline(40):
			success = op(s, offers, timestamp)
	except mirror.Hang:
		raise pbt.Fail("nobody gives up waiting for the mirrors")
	if stalling: s.label("stalling mirrors")
	for method, path in mirrors.requests:
		i, _, rest = path[1:].partition("/")
		check(method == "GET" and (rest == "1/location.db.xz" or rest == "redirected" and offers[int(i)].answer.how == "redirect"), "a mirror is asked to %s %s", method, rest)
	if success:
		s.label("success")
	else:
		s.label("failure")
	if len(offers) > 1 and any(not o.clean for o in offers):
		s.nontrivial()

if __name__ == "__main__":
	path = os.path.join(os.environ["VERIF_SCRATCH"], "pool")
	with open(path, "wb") as f:
		pickle.dump(make_pool(), f)
	raise SystemExit(pbt.main(pbt.Property("C19",
		"1-6 mirrors on the loopback interface, each with its own way to misbehave (HTTP errors, broken connections, connections that stall, no HTTP, nobody there, garbage, truncated, damaged or extended compression, truncated, extended or modified databases, unsigned or wrongly signed ones of two ages), any requested age, and either the downloader or the entire update; "
		"non-trivial: more than one mirror, of which at least one misbehaves", prop, setup)))
