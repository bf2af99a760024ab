"""
	Runs the command line tool within this process
"""
import contextlib
import fcntl
import importlib.util
import io
import logging
import os
import sys
import tempfile
import traceback
import types

import pbt

def load(name="location.in"):
	"""
		Compiles the script as it would be installed
	"""
	path = os.path.join(os.environ["VERIF_REPO"], "src/scripts", name)
	with open(path) as f:
		source = f.read()
	for a, b in (("@VERSION@", "0"), ("@databasedir@", "/nonexistent")):
		source = source.replace(a, b)
	return compile(source, path, "exec")

class Appended(io.FileIO):
	"""
		A file which something is appended to, as the shell does it
	"""
	CONTENT = b"This was there before\n"

	def __init__(self):
		self.temp = tempfile.TemporaryFile()
		self.temp.write(self.CONTENT)
		self.temp.seek(0)
		fcntl.fcntl(self.temp, fcntl.F_SETFL, fcntl.fcntl(self.temp, fcntl.F_GETFL) | os.O_APPEND)
		io.FileIO.__init__(self, self.temp.fileno(), "w", closefd=False)

	def getvalue(self):
		self.temp.seek(0)
		data = self.temp.read()
		pbt.check(data.startswith(self.CONTENT), "what was there before is gone: %r", data[:100])
		return data[len(self.CONTENT):]

class Pipe(io.BytesIO):
	"""
		A stream that has no beginning to return to
	"""
	def seekable(self):
		return False

	def seek(self, *args):
		raise io.UnsupportedOperation("seek")

	def tell(self):
		raise io.UnsupportedOperation("tell")

def run(program, argv, seekable=True):
	"""
		Returns exit status, standard output and standard error; a traceback is what anything but SystemExit ends in
	"""
	import location
	raw = Appended() if seekable == "append" else io.BytesIO() if seekable else Pipe()
	out = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
	err = io.StringIO()
	# Messages of the logger go to what was standard error when it was set up
	logger = logging.getLogger("location")
	handler = logging.StreamHandler(err)
	old, logger.handlers = logger.handlers, [handler]
	level = logger.level
	saved = sys.argv
	sys.argv = ["location"] + argv
	code = 0
	try:
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
			try:
				exec(program, { "__name__" : "__main__", "__builtins__" : __builtins__ })
			except SystemExit as e:
				code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
			except BaseException:
				traceback.print_exc(file=err)
				code = 1
			out.flush()
	finally:
		sys.argv = saved
		logger.handlers = old
		logger.setLevel(level)
	return code, raw.getvalue(), err.getvalue()
