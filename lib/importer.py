"""
	Runs the importer within this process, against a stand-in for the database server (pg.py), the
	web and the routing daemon
"""
import http.client
import io
import os
import socket
import threading
import urllib.error
import urllib.request

import cli
import pg

class FakeSocket(object):
	def __init__(self, data, error=None):
		self.data, self.error = data, error

	def makefile(self, *args, **kwargs):
		return Reader(self.data, self.error)

	def close(self):
		pass

class Reader(io.BytesIO):
	"""
		Breaks the connection after everything has been read
	"""
	def __init__(self, data, error):
		io.BytesIO.__init__(self, data)
		self.error = error
		self.length = len(data)

	def check(self, r):
		if self.error and not r and self.tell() >= self.length:
			raise self.error
		return r

	def read(self, *args):
		return self.check(io.BytesIO.read(self, *args))

	def read1(self, *args):
		return self.check(io.BytesIO.read1(self, *args))

	def readinto(self, *args):
		n = io.BytesIO.readinto(self, *args)
		if self.error and not n:
			raise self.error
		return n

class Page(object):
	"""
		body, status, content type; error: raised instead of an answer, cut: raised after the body
	"""
	def __init__(self, body=b"", status=200, type="application/octet-stream", error=None, cut=None):
		self.body, self.status, self.type, self.error, self.cut = body, status, type, error, cut

	def __repr__(self):
		if self.error:
			return repr(self.error)
		return "%s %s %s%s" % (self.status, self.type, len(self.body), " then %r" % self.cut if self.cut else "")

class Web(object):
	def __init__(self):
		self.pages = {}
		self.requests = []

	def open(self, opener, req, data=None, timeout=None):
		url = req if isinstance(req, str) else req.full_url
		self.requests.append(url)
		page = self.pages.get(url)
		if page is None:
			page = Page(status=404)
		if page.error:
			raise page.error
		head = "HTTP/1.1 %d Whatever\r\nConnection: close\r\n%s" % (page.status, "Content-Type: %s\r\n" % page.type if page.type else "")
		if not page.cut:
			head += "Content-Length: %d\r\n" % len(page.body)
		res = http.client.HTTPResponse(FakeSocket(head.encode() + b"\r\n" + page.body, page.cut), method="GET", url=url)
		res.begin()
		res.url = url
		res.msg = res.reason
		if not 200 <= res.status < 300:
			raise urllib.error.HTTPError(url, res.status, res.reason, res.headers, res)
		return res

	def install(self):
		urllib.request.OpenerDirector.open = lambda opener, *args, **kwargs: self.open(opener, *args, **kwargs)

class Bird(object):
	"""
		A routing daemon: answers maps a command to the bytes that are sent after the greeting. The
		answer is sent in pieces of the given sizes; the connection stays open if told so
	"""
	def __init__(self, path):
		self.path = path
		self.answers, self.pieces, self.linger = {}, [4096], True
		self.commands = []
		self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
		self.sock.bind(path)
		self.sock.listen(16)
		threading.Thread(target=self.serve, daemon=True).start()

	def serve(self):
		while True:
			try:
				conn, _ = self.sock.accept()
			except OSError:
				return
			threading.Thread(target=self.handle, args=(conn,), daemon=True).start()

	def handle(self, conn):
		try:
			conn.settimeout(2)
			data = b"0001 BIRD 2.0.8 ready.\n"
			conn.sendall(data)
			cmd = b""
			while not b"\n" in cmd:
				x = conn.recv(4096)
				if not x:
					return
				cmd += x
			cmd = cmd.decode().strip()
			self.commands.append(cmd)
			answer = self.answers.get(cmd, b"9001 syntax error\n")
			i = 0
			while answer:
				n = self.pieces[i % len(self.pieces)]
				i += 1
				conn.sendall(answer[:n])
				answer = answer[n:]
			if self.linger:
				# The other side closes the connection when it has seen the end
				while conn.recv(4096):
					pass
		except OSError:
			pass
		finally:
			conn.close()

	def close(self):
		self.sock.close()
		os.unlink(self.path)

class Importer(object):
	program = None

	def __init__(self):
		if Importer.program is None:
			pg.install()
			Importer.program = cli.load("location-importer.in")
		self.server = pg.Server()
		self.web = Web()

	def run(self, *argv):
		"""
			Returns the exit status and what was printed
		"""
		pg.Pool.server = self.server
		saved = urllib.request.OpenerDirector.open
		self.web.install()
		try:
			code, out, err = cli.run(Importer.program, ["--database-host", "h", "--database-name", "n",
				"--database-username", "u", "--database-password", "p"] + list(argv))
		finally:
			urllib.request.OpenerDirector.open = saved
		if "pg.Unsupported" in err or "Unsupported:" in err:
			raise pg.Unsupported(err[-2000:])
		return code, err
