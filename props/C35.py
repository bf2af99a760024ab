"""
	Downloads go through the proxies that are set for them, and nowhere else
"""
import base64
import gzip
import http.client
import lzma
import os
import pickle
import random
import shutil
import socket
import ssl
import subprocess
import tempfile
import threading

import pbt
import testkeys
from pbt import check

downloader = None
DIR = KEY = None
DATABASE = None
SCRATCH = os.environ["VERIF_SCRATCH"]
CERT, CERTKEY = os.path.join(SCRATCH, "cert.pem"), os.path.join(SCRATCH, "cert.key")

class Servers(object):
	"""
		Web servers and proxies on the loopback interface, which note what they are asked.

		A proxy does not connect to anything, but answers itself.
	"""
	def __init__(self):
		self.context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
		self.context.load_cert_chain(CERT, CERTKEY)
		self.requests = []
		self.ports = {}
		# What is answered for every path, and which servers do not answer
		self.contents, self.broken = {}, set()
		for name in ("http", "https", "A", "B"):
			s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
			s.bind(("127.0.0.1", 0))
			s.listen(64)
			self.ports[name] = s.getsockname()[1]
			threading.Thread(target=self.serve, args=(name, s), daemon=True).start()

	def serve(self, name, sock):
		while True:
			conn, _ = sock.accept()
			conn.settimeout(10)
			try:
				if name == "https":
					conn = self.context.wrap_socket(conn, server_side=True)
				self.handle(name, conn)
			except OSError:
				pass
			finally:
				conn.close()

	def handle(self, where, conn):
		data = b""
		while not b"\r\n\r\n" in data:
			x = conn.recv(65536)
			if not x:
				return
			data += x
		lines = data.decode("latin-1").split("\r\n")
		method, target, _ = lines[0].split(" ", 2)
		headers = { k.strip().lower() : v.strip() for k, v in (l.split(":", 1) for l in lines[1:] if ":" in l) }
		self.requests.append((where, method, target, headers))
		if where in self.broken:
			conn.sendall(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			return
		if method == "CONNECT" and len(where) == 1:
			conn.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
			# Is this encrypted?
			first = conn.recv(1, socket.MSG_PEEK)
			if first == b"\x16":
				with self.context.wrap_socket(conn, server_side=True) as c:
					self.handle("tunnel through " + where, c)
			elif first:
				self.handle("plain text through a tunnel through " + where, conn)
			return
		path = target
		if "://" in target:
			path = "/" + target.split("://", 1)[1].partition("/")[2]
		answer = self.contents.get(path)
		if answer is None:
			conn.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		elif isinstance(answer, str):
			conn.sendall(("HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % answer).encode())
		else:
			conn.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(answer) + answer)

servers = None

def clean():
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]

def setup():
	global downloader, servers, DIR, KEY, DATABASE
	os.environ["SSL_CERT_FILE"] = CERT
	os.environ["SSL_CERT_DIR"] = "/nowhere"
	os.environ.pop("REQUEST_METHOD", None)
	import location.downloader as d
	downloader = d
	clean()
	servers = Servers()
	with open(os.path.join(SCRATCH, "database"), "rb") as f:
		DATABASE = f.read()
	DIR = tempfile.mkdtemp(prefix="C35-", dir=SCRATCH)
	KEY = os.path.join(DIR, "key.pem")
	with open(KEY, "w") as f:
		f.write(testkeys.EC1_PUBLIC)

class Proxy(object):
	"""
		What a variable says
	"""
	def __init__(self, s):
		self.name = s.of("AB")
		self.user = s.of((None, None, None, "user:secret"))
		self.text = "%s127.0.0.1:%d" % (self.user + "@" if self.user else "", servers.ports[self.name])
		if self.user or s.chance(70):
			self.text = "http://" + self.text + s.of(("", "/"))

class Site(object):
	"""
		A server (which only exists behind a proxy unless it is this computer), and how it is called
	"""
	def __init__(self, s, direct):
		self.scheme = s.of(("http", "https"))
		self.host = "127.0.0.1" if direct(self.scheme) else s.of(("127.0.0.1", "origin.test", "sub.origin.test"))
		if self.host == "127.0.0.1" or s.chance(30):
			self.port = servers.ports[self.scheme]
		else:
			self.port = None
		self.base = "%s://%s%s" % (self.scheme, self.host, ":%d" % self.port if self.port else "")
		# For CONNECT, there is always a port
		self.authority = "%s:%d" % (self.host, self.port or (443 if self.scheme == "https" else 80))

def prop(s):
	clean()
	servers.requests.clear()
	servers.contents.clear()
	servers.broken.clear()
	random.seed(s.choose(1 << 16))
	proxies = {}
	env = {}
	for scheme in ("http", "https"):
		if s.chance(70):
			p = proxies[scheme] = Proxy(s)
			name = scheme + "_proxy"
			if s.chance(15):
				name = name.upper()
			elif s.chance(15):
				# The other one does not count
				env[name.upper()] = "http://127.0.0.1:1"
			env[name] = p.text
	no = None
	if s.chance(25):
		no = s.of(("127.0.0.1", "origin.test", "localhost", "somewhere.test,127.0.0.1", "10.0.0.1, other.test"))
		env["no_proxy"] = no
	os.environ.update(env)
	if s.chance(20):
		servers.broken.add(s.of("AB"))
	s.say("%s%s", ", ".join("%s=%s" % (k, env[k]) for k in sorted(env)), ", %s broken" % sorted(servers.broken) if servers.broken else "")

	def bypassed(host):
		for x in (no or "").split(","):
			x = x.strip()
			if x and (host == x or host.endswith("." + x)):
				return True

	def proxy(site):
		return None if bypassed(site.host) else proxies.get(site.scheme)

	def site():
		# Names that only proxies know are not asked for without one
		x = Site(s, lambda scheme: scheme not in proxies)
		while not proxy(x) and x.host != "127.0.0.1":
			x = Site(s, lambda scheme: True)
		return x

	def expected(site, path):
		"""
			All requests that are made, in order, and if they are answered
		"""
		p = proxy(site)
		if not p:
			return [(site.scheme, ("GET", path), None)], True
		if site.scheme == "http":
			return [(p.name, ("GET", site.base + path), p.user)], p.name not in servers.broken
		if p.name in servers.broken:
			return [(p.name, ("CONNECT", site.authority), p.user)], False
		return [(p.name, ("CONNECT", site.authority), p.user), ("tunnel through " + p.name, ("GET", path), None)], True

	def compare(want, what, redirected=False):
		got = list(servers.requests)
		check(len(got) == len(want), "%s caused the requests %s instead of %s", what, [(w, m, t) for w, m, t, h in got], want)
		for (where, method, target, headers), (w, (m, t), user) in zip(got, want):
			# A server may be given the entire URL
			if "://" in target and not "://" in t:
				target = "/" + target.split("://", 1)[1].partition("/")[2]
			check((where, method, target) == (w, m, t), "%s: %s is asked for %s %s, instead of %s for %s %s", what, where, method, target, w, m, t)
			# urllib repeats the credentials of the first request when it is redirected
			auth = headers.get("proxy-authorization")
			check(redirected or auth == ("Basic " + base64.b64encode(user.encode()).decode() if user else None), "%s: the credentials for %s are %s", what, where, auth)
		servers.requests.clear()

	for i in range(1 + s.size(3)):
		d = downloader.Downloader(mirrors=[])
		if s.chance(60):
			a = site()
			path = "/file%d" % i
			want, ok = expected(a, path)
			content = s.of((b"hello", b"", b"x" * 100000))
			servers.contents[path] = content
			if s.chance(25):
				# It is somewhere else
				b = site()
				servers.contents[path] = b.base + "/other%d" % i
				servers.contents["/other%d" % i] = content
				if ok:
					more, ok = expected(b, "/other%d" % i)
					want += more
					s.label("redirected")
			if s.chance(30):
				servers.contents[path if isinstance(servers.contents[path], bytes) else "/other%d" % i] = gzip.compress(content)
			what = "retrieving %s" % a.base
			try:
				with d.retrieve(a.base + path, timeout=s.of((None, 20))) as f:
					data = f.read()
			except (OSError, http.client.HTTPException) as e:
				check(not ok, "%s fails with %r", what, e)
				s.label("failed")
			else:
				check(ok, "%s succeeds, although the proxy does not work", what)
				check(data == content, "%s gives %d other bytes", what, len(data))
				s.label("retrieved")
			compare(want, what, isinstance(servers.contents[path], str))
			if want[0][0] not in ("http", "https"):
				s.nontrivial()
			continue

		# The database, from one of some mirrors
		sites = [(site(), "/%d-%d" % (i, k), s.chance(60)) for k in range(1 + s.size(3))]
		what = "downloading from %s" % [x.base for x, path, good in sites]
		for x, path, good in sites:
			servers.contents["%s/1/location.db.xz" % path] = lzma.compress(DATABASE if good else b"garbage", preset=0)
		d = downloader.Downloader(mirrors=["%s%s/" % (x.base, path) for x, path, good in sites])
		tmpdir = os.path.join(DIR, "tmp")
		os.mkdir(tmpdir)
		try:
			try:
				f = d.download(public_key=KEY, tmpdir=tmpdir)
			except FileNotFoundError:
				f = None
				s.label("failed")
			else:
				with open(f.name, "rb") as g:
					check(g.read() == DATABASE, "%s gives something else", what)
				s.label("downloaded")
		finally:
			shutil.rmtree(tmpdir)
		want, ok = [], False
		# They come in any order
		left = list(sites)
		while left and not ok:
			got = servers.requests[len(want):]
			for j, (x, path, good) in enumerate(left):
				w, through = expected(x, path + "/1/location.db.xz")
				if len(got) >= len(w) and all(g[0] == e[0] and g[1] == e[1][0] and (g[2] == e[1][1] or "/" in e[1][1] and g[2].endswith(e[1][1])) for g, e in zip(got, w)):
					break
			want += w
			ok = through and good
			del left[j]
			if proxy(x):
				s.nontrivial()
		check(ok == (f is not None), "%s %s", what, "fails" if ok else "succeeds")
		compare(want, what)

def prepare():
	subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes", "-keyout", CERTKEY, "-out", CERT, "-days", "1000",
		"-subj", "/CN=origin.test", "-addext", "subjectAltName=DNS:origin.test,DNS:sub.origin.test,IP:127.0.0.1"], env={ "PATH" : os.environ["PATH"] },
		check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
	import location
	with tempfile.TemporaryFile("w+", dir=SCRATCH) as f:
		f.write(testkeys.EC1_PRIVATE)
		f.seek(0)
		w = location.Writer(f)
		w.add_network("10.0.0.0/8").asn = 5
		w.write(os.path.join(SCRATCH, "database"))

if __name__ == "__main__":
	prepare()
	raise SystemExit(pbt.main(pbt.Property("C35",
		"1-4 files are retrieved, or databases downloaded from 1-4 mirrors, by http or https, from servers on the loopback interface or such that only proxies know, with any combination of http_proxy and https_proxy (two proxies, with or without a scheme and credentials, in either case) and no_proxy, redirections, and proxies that do not work; every server notes what it is asked; "
		"non-trivial: some request has to go through a proxy", prop, setup)))
