"""
	Runs the command line tool in processes of their own, in which changes to the file system fail or kill

	Requests are read from standard input, one per line; each is run by a child, which ends like any other
	interpreter does.
"""
import ctypes
import gc
import json
import os
import sys

import cli
import location
import location.downloader
import location.export

# Modules that are only imported when they are needed
import encodings.idna
import http.client
import locale
import logging
import logging.handlers
import lzma
import shutil
import traceback

# There is no syslog daemon
logger = logging.getLogger("location")
logger.handlers = [h for h in logger.handlers if not isinstance(h, logging.handlers.SysLogHandler)]
for h in logger.handlers:
	h.stream = sys.stderr

program = cli.load()
faults = ctypes.CDLL(None)
requests, answers = sys.stdin, sys.stdout

while True:
	line = requests.readline()
	if not line:
		os._exit(0)
	request = json.loads(line)
	pid = os.fork()
	if not pid:
		break
	pid, status = os.waitpid(pid, 0)
	answers.write("%d\n" % (os.waitstatus_to_exitcode(status)))
	answers.flush()

for number, name in ((1, "stdout"), (2, "stderr")):
	fd = os.open(request[name], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
	os.dup2(fd, number)
	os.close(fd)
os.dup2(os.open("/dev/null", os.O_RDONLY), 0)
sys.argv = ["location"] + request["argv"]
location.downloader.MIRRORS = tuple(request["mirrors"])
location.discover_latest_version = lambda *args: request["timestamp"]
os.chdir(request["cwd"])
fault = request["fault"]
if fault:
	faults.faults_arm(fault["dir"].encode(), fault["mode"], ctypes.c_long(fault["at"]), fault["errno"], os.open(fault["report"], os.O_WRONLY | os.O_CREAT | os.O_APPEND))
# Nothing of this script is left to be cleaned up
sys.stdin = open(0)
exec(program, { "__name__" : "__main__", "__builtins__" : __builtins__ })
