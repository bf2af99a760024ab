"""
	Sources are retrieved completely, or not at all
"""
import gzip
import http.client
import os
import zlib

import mirror
import pbt
from pbt import check

downloader = mirrors = None

def setup():
	global downloader, mirrors
	import location.downloader as d
	downloader = d
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]
	mirrors = mirror.Mirrors()

LINES = (b"", b"inetnum: 10.0.0.0 - 10.0.0.255", b"# comment", b"ripencc|DE|ipv4|1.2.3.0|256|", b"x" * 1000, b"\xff\xfe\0", "Düsseldorf".encode())

def gen_content(s):
	k = s.pick(4, 2, 1, 1)
	if k == 0:
		return b"".join(s.of(LINES) + b"\n" for i in range(s.size(20)))
	if k == 1:
		# Around the size of buffers
		n = s.of((1, 2, 3, 1024, 8192, 65536, 131072)) + s.choose(5) - 2
		return (b"0123456789abcde\n" * (n // 16 + 1))[:max(0, n)]
	if k == 2:
		return (b"%08x\n" % s.choose(1 << 32)) * (1 + s.choose(40000))
	return bytes(s.choose(256) for i in range(s.size(12)))

def compress(s, content):
	"""
		A gzip file, in one or two members, the size of the first one, and of what is in it
	"""
	n = s.choose(len(content) + 1) if s.chance(25) else len(content)
	r = gzip.compress(content[:n], compresslevel=s.choose(10))
	first = len(r)
	if n < len(content):
		r += gzip.compress(content[n:])
	return r, first, n

class Source(object):
	def __init__(self, s, stalling=False):
		self.content = gen_content(s)
		self.gzip = s.chance(50)
		# This is how gzip files begin
		if not self.gzip and self.content.startswith(b"\x1f\x8b"):
			self.content = b" " + self.content
		body, first, split = compress(s, self.content) if self.gzip else (self.content, 0, 0)
		self.type = s.of((None, "text/plain", "application/octet-stream", "text/csv; charset=utf-8", "application/json") +
			(("application/gzip", "application/x-gzip") * 3 if self.gzip else ()))
		headers = [("Content-Type", self.type)] if self.type else []
		# What it promises, whether it has to be retrieved (or may)
		self.must = self.may = False
		k = s.pick(6, 2, 3, 1, 1)
		if stalling:
			body = None if s.chance(30) else body[:s.choose(len(body) + 1)]
			self.what = "stalls after %s bytes" % (len(body) if body is not None else "no")
			self.answer = mirror.Answer(200, body, "stall", headers)
		elif k == 0:
			how = s.of(("length", "chunked", "none", "redirect"))
			self.what = how
			self.must = self.may = True
			self.answer = mirror.Answer(200, body, how, headers)
		elif k == 1:
			status = s.of((400, 401, 403, 404, 410, 429, 500, 502, 503))
			self.what = "status %d" % status
			self.answer = mirror.Answer(status, body, "length", headers)
		elif k == 2:
			n = s.choose(len(body) + 1)
			how = s.of(("cut", "reset", "cut chunk", "none"))
			self.what = "%s after %d bytes" % (how, n)
			self.answer = mirror.Answer(200, body[:n], how, headers)
			# Without any length, nobody can tell whether this was everything
			if how == "none":
				if not self.gzip or n < 2:
					self.content = body[:n]
					self.may = True
				elif n == len(body):
					self.may = True
				# ... or whether another member was about to follow
				elif n == first:
					self.content = self.content[:split]
					self.may = True
		elif k == 3:
			self.what = "no HTTP"
			self.answer = mirror.Answer(how="raw", body=s.of((b"", b"hello\r\n\r\n", b"HTTP/1.1 abc\r\n\r\n", b"SSH-2.0-OpenSSH_9.6\r\n")))
		else:
			self.what = "nobody there"
			self.answer = None

	def __repr__(self):
		return "%d bytes (%s, %s, %s)" % (len(self.content), "gzip" if self.gzip else "plain", self.type, self.what)

def read(s, f):
	"""
		Reads a file in one of many ways
	"""
	k = s.choose(5)
	if k == 0:
		return f.read()
	if k == 1:
		return b"".join(f)
	if k == 2:
		return b"".join(f.readlines())
	if k == 3:
		r = b""
		n = 1 + s.choose(100000)
		while True:
			x = f.read(max(n, 1000))
			if not x:
				return r
			r += x
	f.read(s.choose(10))
	f.seek(0)
	return f.read()

ERRORS = (OSError, http.client.HTTPException, EOFError, zlib.error)

def prop(s):
	# Waiting takes time, even if all timeouts are a lot shorter
	stalling = s.choose(300) == 299
	mirror.impatient(30 if stalling else 1)
	sources = [Source(s) for i in range(1 + s.size(4))]
	if stalling:
		sources[-1:] = [Source(s, True)]
	mirrors.behaviours = [x.answer for x in sources]
	s.say("%s", sources)
	d = downloader.Downloader(mirrors=[])
	failed = got = 0
	for i, x in enumerate(sources):
		kwargs = {}
		if s.chance(30):
			kwargs["timeout"] = 30
		if s.chance(30):
			kwargs["headers"] = { "Accept" : "text/csv" }
		base = s.chance(20)
		url = mirrors.url(i)
		if base:
			kwargs["baseurl"] = url
			url = "feed"
		else:
			url += "feed"
		mirrors.requests.clear()
		mirrors.raw.clear()
		try:
			with mirror.Deadline(40):
				with d.retrieve(url, **kwargs) as f:
					data = read(s, f)
		except mirror.Hang:
			raise pbt.Fail("nobody gives up waiting for %s" % x)
		except ERRORS as e:
			check(not x.must, "%s could not be retrieved: %r", x, e)
			failed += 1
			continue
		except Exception as e:
			raise pbt.Fail("retrieving %s raised %r" % (x, e))
		check(x.may, "%s was retrieved as %d bytes", x, len(data))
		check(data == x.content, "%s was retrieved as %d bytes: %r", x, len(data), data[:100])
		got += 1
		check(mirrors.requests and mirrors.requests[0] == ("GET", "/%d/feed" % i), "%s was requested with %s", url, mirrors.requests)
		for raw in mirrors.raw:
			check((b"\r\nAccept: text/csv\r\n" in raw) == ("headers" in kwargs), "the header is %s", "missing" if "headers" in kwargs else "sent again")
			check(b"\r\nUser-Agent: location/" in raw, "no user agent")
	if stalling: s.label("stalling server")
	if failed: s.label("failed")
	if got: s.label("retrieved")
	if any(not x.must for x in sources) or any(x.gzip for x in sources):
		s.nontrivial()

if __name__ == "__main__":
	raise SystemExit(pbt.main(pbt.Property("C30",
		"1-5 files of 0 to 360,000 bytes, plain or gzip in one or two members, of any content type, are retrieved by one downloader from a server on the loopback interface that sends them with a length, in chunks, until the connection ends or after a redirection, or fails (HTTP errors, connections cut, reset or stalled at any point, no HTTP, nobody there), and read in different ways; "
		"non-trivial: some source is compressed or not good", prop, setup)))
