"""
Builds what the checks need from the sources in /repo, as they are now.

Everything goes to /verif/build (ignored by git), in directories named after a hash of all inputs.
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIB = os.path.join(VERIF, "lib")

class BuildError(Exception):
	pass

# Undefined behaviour that is an error in itself. (No alignment: the on-disk format maps integers in place.)
UBSAN = "bounds,null,builtin,shift,integer-divide-by-zero,signed-integer-overflow,unreachable,return,vla-bound"

VARIANTS = {
	"asan" : dict(
		cc = "clang", cxx = "clang++",
		flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address," + UBSAN,
			"-fno-sanitize-recover=all"],
	),
	"fuzz" : dict(
		cc = "clang", cxx = "clang++",
		flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address," + UBSAN,
			"-fno-sanitize-recover=all"],
		link = ["-fsanitize=fuzzer"],
	),
	# As with --enable-debug
	"asan-debug" : dict(
		cc = "clang", cxx = "clang++",
		flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address," + UBSAN,
			"-fno-sanitize-recover=all", "-DENABLE_DEBUG"],
	),
	"tsan" : dict(
		cc = "clang", cxx = "clang++",
		flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
	),
	"plain" : dict(
		cc = "gcc", cxx = "g++",
		flags = ["-g", "-O2"],
	),
	"shared" : dict(
		cc = "gcc", cxx = "g++",
		flags = ["-g", "-O1", "-fPIC"],
	),
	# For the language bindings, with the runtime of the sanitizer preloaded into the interpreter
	"shared-asan" : dict(
		cc = "gcc", cxx = "g++",
		flags = ["-g", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address"],
	),
}

LIBS = ["-lcrypto", "-lresolv"]

def lib_sources():
	return sorted(f for f in glob.glob(os.path.join(REPO, "src", "*.c"))
		if not os.path.basename(f).startswith("test-"))

def lib_headers():
	return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.h"), recursive=True))

def digest(*items):
	h = hashlib.sha256()
	for i in items:
		if isinstance(i, (list, tuple)):
			for j in i:
				h.update(j.encode() if isinstance(j, str) else j)
				h.update(b"\0")
		else:
			h.update(i.encode() if isinstance(i, str) else i)
		h.update(b"\1")
	return h.hexdigest()[:20]

def contents(paths):
	r = []
	for p in paths:
		with open(p, "rb") as f:
			r.append(p.encode() + b"\0" + f.read())
	return r

def run(cmd, **kwargs):
	p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kwargs)
	if p.returncode:
		raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")))
	return p.stdout.decode(errors="replace")

def run_all(cmds):
	with concurrent.futures.ThreadPoolExecutor(8) as ex:
		list(ex.map(run, cmds))

def atomically(target, make):
	"""
		Calls make(directory) and moves the result to target
	"""
	if os.path.isdir(target):
		return target
	os.makedirs(BUILD, exist_ok=True)
	tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
	try:
		make(tmp)
		try:
			os.rename(tmp, target)
		except OSError:
			if not os.path.isdir(target):
				raise
	finally:
		shutil.rmtree(tmp, ignore_errors=True)
	return target

def cflags():
	return ["-include", os.path.join(LIB, "config.h"), '-DSYSCONFDIR="/etc"', "-I" + os.path.join(REPO, "src")]

def build_lib(variant):
	"""
		Compiles the library; returns the list of object files
	"""
	v = VARIANTS[variant]
	sources = lib_sources()
	key = digest(variant, v["cc"], v["flags"], contents(sources + lib_headers() + [os.path.join(LIB, "config.h")]))
	target = os.path.join(BUILD, "lib-%s-%s" % (variant, key))

	def make(d):
		run_all([[v["cc"], "-std=gnu11", "-w"] + v["flags"] + cflags()
			+ ["-DLIBLOC_PRIVATE", "-c", s, "-o", os.path.join(d, os.path.basename(s)[:-2] + ".o")]
			for s in sources])
	atomically(target, make)
	return sorted(glob.glob(os.path.join(target, "*.o"))), key

def build_prop(name, variant="asan", extra=()):
	"""
		Compiles props/<name>.cpp against the library; returns the path of the program
	"""
	v = VARIANTS[variant]
	src = os.path.join(VERIF, "props", name + ".cpp")
	objects, libkey = build_lib(variant)
	deps = [src] + sorted(glob.glob(os.path.join(LIB, "*.hpp")))
	key = digest(variant, libkey, list(extra), contents(deps))
	target = os.path.join(BUILD, "prop-%s-%s-%s" % (name, variant, key))

	def make(d):
		run([v["cxx"], "-std=gnu++17", "-w"] + v["flags"] + ["-I" + LIB] + cflags() + [src] + objects
			+ v.get("link", []) + list(extra) + ["-o", os.path.join(d, name)] + LIBS)
	atomically(target, make)
	return os.path.join(target, name)

def build_shared(variant="shared"):
	"""
		Builds libloc.so.1 for the language bindings
	"""
	objects, key = build_lib(variant)
	target = os.path.join(BUILD, "so-" + key)

	def make(d):
		run(["gcc", "-shared"] + VARIANTS[variant]["flags"] + ["-Wl,-soname,libloc.so.1", "-o", os.path.join(d, "libloc.so.1")] + objects + LIBS)
		os.symlink("libloc.so.1", os.path.join(d, "libloc.so"))
	atomically(target, make)
	return target, key

def build_python(variant="shared"):
	"""
		Builds a directory to put on PYTHONPATH: the extension and the Python package
	"""
	so, sokey = build_shared(variant)
	flags = VARIANTS[variant]["flags"]
	sources = sorted(glob.glob(os.path.join(REPO, "src/python/*.c")))
	pys = sorted(glob.glob(os.path.join(REPO, "src/python/location/*.py")))
	key = digest(sokey, contents(sources + lib_headers() + pys))
	target = os.path.join(BUILD, "python-" + key)

	def make(d):
		run_all([["gcc", "-std=gnu11", "-w"] + flags + cflags()
			+ ["-I" + sysconfig.get_path("include"), "-c", s, "-o", os.path.join(d, os.path.basename(s)[:-2] + ".o")]
			for s in sources])
		run(["gcc", "-shared"] + flags + ["-o", os.path.join(d, "_location.so")]
			+ [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in sources]
			+ ["-L" + so, "-Wl,-rpath," + so, "-lloc"])
		os.mkdir(os.path.join(d, "location"))
		for p in pys:
			shutil.copy(p, os.path.join(d, "location"))
	atomically(target, make)
	return target

def build_lua(variant="shared"):
	so, sokey = build_shared(variant)
	flags = VARIANTS[variant]["flags"]
	sources = sorted(glob.glob(os.path.join(REPO, "src/lua/*.c")))
	key = digest(sokey, contents(sources + lib_headers()))
	target = os.path.join(BUILD, "lua-" + key)

	def make(d):
		lua = run(["pkg-config", "--cflags", "lua5.4"]).split()
		run_all([["gcc", "-std=gnu11", "-w"] + flags + cflags() + lua
			+ ["-c", s, "-o", os.path.join(d, os.path.basename(s)[:-2] + ".o")]
			for s in sources])
		run(["gcc", "-shared"] + flags + ["-o", os.path.join(d, "location.so")]
			+ [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in sources]
			+ ["-L" + so, "-Wl,-rpath," + so, "-lloc"])
	atomically(target, make)
	return target

def build_perl(variant="shared"):
	so, sokey = build_shared(variant)
	flags = VARIANTS[variant]["flags"]
	perl = os.path.join(REPO, "src/perl")
	inputs = [os.path.join(perl, "Location.xs"), os.path.join(perl, "lib/Location.pm")]
	inputs += [f for f in [os.path.join(perl, "typemap")] if os.path.exists(f)]
	key = digest(sokey, contents(inputs + lib_headers()))
	target = os.path.join(BUILD, "perl-" + key)

	def make(d):
		version = "0"
		for line in open(inputs[1]):
			if "VERSION" in line and "=" in line:
				import re
				m = re.search(r"VERSION\s*=\s*['\"]([^'\"]+)['\"]", line)
				if m:
					version = m.group(1)
					break
		typemap = run(["perl", "-MConfig", "-e", "print $Config{privlibexp}"]) + "/ExtUtils/typemap"
		ccopts = run(["perl", "-MExtUtils::Embed", "-e", "ccopts"]).split()
		c = os.path.join(d, "Location.c")
		xsubpp = run(["perl", "-MConfig", "-e", "print $Config{privlibexp}"]) + "/ExtUtils/xsubpp"
		cmd = ["perl", xsubpp, "-typemap", typemap]
		if os.path.exists(os.path.join(perl, "typemap")):
			cmd += ["-typemap", os.path.join(perl, "typemap")]
		out = subprocess.run(cmd + [inputs[0]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
		if out.returncode:
			raise BuildError(out.stderr.decode())
		with open(c, "wb") as f:
			f.write(out.stdout)
		os.makedirs(os.path.join(d, "auto/Location"))
		run(["gcc", "-w"] + flags + ["-shared"] + ccopts
			+ ['-DVERSION="%s"' % version, '-DXS_VERSION="%s"' % version, "-I" + os.path.join(REPO, "src"), "-I" + perl, c,
			"-o", os.path.join(d, "auto/Location/Location.so"), "-L" + so, "-Wl,-rpath," + so, "-lloc"])
		shutil.copy(inputs[1], d)
	atomically(target, make)
	return target

def build_allocated(variant="shared"):
	"""
		A library that tells an interpreter how much memory is in use
	"""
	src = os.path.join(LIB, "allocated.c")
	target = os.path.join(BUILD, "allocated-" + digest(contents([src])))
	atomically(target, lambda d: run(["gcc", "-shared", "-fPIC", "-O1", src, "-o", os.path.join(d, "allocated.so")]))
	return target

def build_oom(variant="shared"):
	"""
		A library that makes requests for memory fail
	"""
	src = os.path.join(LIB, "oom.c")
	target = os.path.join(BUILD, "oom-" + digest(contents([src])))
	atomically(target, lambda d: run(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", os.path.join(d, "oom.so")]))
	return target

def build_faults(variant="shared"):
	"""
		A library that makes changes to the file system fail
	"""
	src = os.path.join(LIB, "faults.c")
	target = os.path.join(BUILD, "faults-" + digest(contents([src])))
	atomically(target, lambda d: run(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", os.path.join(d, "faults.so")]))
	return target
