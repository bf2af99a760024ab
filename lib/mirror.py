"""
	Web servers that misbehave, on the loopback interface
"""
import calendar
import _socket
import signal
import socket
import threading
import time

def impatient(scale):
	"""
		Lets all timeouts (except those of the servers in here) end earlier
	"""
	socket.socket.settimeout = lambda self, timeout: _socket.socket.settimeout(self, timeout / scale if timeout else timeout)

class Hang(BaseException):
	pass

class Deadline(object):
	"""
		Raises Hang if something takes longer than it may
	"""
	def __init__(self, seconds):
		self.seconds = seconds

	def __enter__(self):
		def hang(*args):
			raise Hang()
		signal.signal(signal.SIGALRM, hang)
		signal.alarm(self.seconds)

	def __exit__(self, *args):
		signal.alarm(0)

class Mirrors(object):
	"""
		One server that plays all mirrors: /N/... is answered by behaviours[N]
	"""
	def __init__(self):
		self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
		self.sock.bind(("127.0.0.1", 0))
		self.sock.listen(64)
		self.port = self.sock.getsockname()[1]
		self.behaviours = []
		self.requests = []
		self.raw = []
		threading.Thread(target=self.serve, daemon=True).start()

		# A port nobody listens on: it is taken, but not listened to
		self.closed = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		self.closed.bind(("127.0.0.1", 0))

	def url(self, i):
		port = self.closed.getsockname()[1] if self.behaviours[i] is None else self.port
		return "http://127.0.0.1:%d/%d/" % (port, i)

	def serve(self):
		while True:
			conn, _ = self.sock.accept()
			try:
				_socket.socket.settimeout(conn, 10)
				self.handle(conn)
			except OSError:
				pass
			finally:
				conn.close()

	def handle(self, conn):
		data = b""
		while not b"\r\n\r\n" in data:
			x = conn.recv(65536)
			if not x:
				return
			data += x
		method, path, _ = data.split(b"\r\n", 1)[0].decode().split(" ", 2)
		self.requests.append((method, path))
		self.raw.append(data)
		self.since = None
		for line in data.decode("latin-1").split("\r\n"):
			if line.lower().startswith("if-modified-since:"):
				try:
					self.since = calendar.timegm(time.strptime(line.split(":", 1)[1].strip(), "%a, %d %b %Y %H:%M:%S GMT"))
				except ValueError:
					pass
		try:
			b = self.behaviours[int(path.split("/")[1])]
		except (ValueError, IndexError):
			b = Answer(404)
		reset = b.send(conn, path, self)
		if reset:
			# Closing sends a reset
			conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
		else:
			# Give the other side the chance to read everything
			conn.shutdown(socket.SHUT_WR)
			try:
				while conn.recv(65536):
					pass
			except OSError:
				pass

class Answer(object):
	"""
		status, body and how it is sent: length (right, none, long, short), chunked, reset, raw (no HTTP at all), redirect
	"""
	def __init__(self, status=200, body=b"", how="length", headers=(), mtime=None):
		self.status, self.body, self.how, self.headers, self.mtime = status, body, how, headers, mtime

	def __repr__(self):
		return "%s %s %d bytes" % (self.status, self.how, len(self.body or b""))

	def stall(self, conn):
		"""
			Waits until the other side has lost patience
		"""
		_socket.socket.settimeout(conn, 60)
		while conn.recv(65536):
			pass
		return False

	def send(self, conn, path, mirrors):
		if self.how == "raw":
			conn.sendall(self.body)
			return False
		if self.how == "stall" and self.body is None:
			return self.stall(conn)
		if self.how == "silent":
			return False
		if self.how == "redirect" and not path.endswith("/redirected"):
			conn.sendall(("HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:%d/%s/redirected\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
				% (mirrors.port, path.split("/")[1])).encode())
			return False
		if self.mtime is not None and mirrors.since is not None and self.mtime <= mirrors.since:
			conn.sendall(b"HTTP/1.1 304 Not Modified\r\nConnection: close\r\n\r\n")
			return False
		head = "HTTP/1.1 %d Whatever\r\nConnection: close\r\n" % self.status
		for k, v in self.headers:
			head += "%s: %s\r\n" % (k, v)
		body = self.body if self.status != 304 else b""
		if self.how in ("length", "redirect"):
			head += "Content-Length: %d\r\n" % len(body)
		elif self.how in ("cut", "reset", "stall"):
			# Promises more than it sends
			head += "Content-Length: %d\r\n" % (len(body) + 1000)
		elif self.how in ("chunked", "cut chunk"):
			head += "Transfer-Encoding: chunked\r\n"
			chunks = b""
			for i in range(0, len(body), 700):
				x = body[i:i + 700]
				chunks += b"%x\r\n%s\r\n" % (len(x), x)
			body = chunks + (b"0\r\n\r\n" if self.how == "chunked" else b"ffff\r\nabc")
		conn.sendall(head.encode() + b"\r\n" + body)
		if self.how == "stall":
			return self.stall(conn)
		return self.how == "reset"
