"""
	Which check decides which property, and how much of it each tier runs
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

import build

VERIF = build.VERIF
WORKERS = 8

ASAN_ENV = {
	"ASAN_OPTIONS" : "abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=1",
	"UBSAN_OPTIONS" : "print_stacktrace=0",
	"TSAN_OPTIONS" : "exitcode=98:halt_on_error=1:symbolize=1:report_signal_unsafe=0",
}

GENERAL_NOTE = ("Searches generated cases against an oracle that is independent of the code: it finds counterexamples, "
	"it does not prove their absence. Trusts the oracle in /verif/props and /verif/lib, the compiler and its sanitizers.")

def python():
	"""
		The interpreter the binding is built for
	"""
	return "/usr/bin/python3"

def libasan():
	return subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()

def scratch(prop):
	"""
		A directory for files that a check needs, emptied before every run
	"""
	d = os.path.join(build.BUILD, "scratch-" + prop)
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)
	return d

class Check(object):
	"""
		A program that runs generated cases; see pbt.hpp and pbt.py for what it is given
	"""
	def __init__(self, quick, thorough, technique, variant="asan", level="exploration", note="", assumptions=(), extra=()):
		self.technique = technique
		self.note = (note + " " if note else "") + GENERAL_NOTE
		self.quick, self.thorough, self.variant = quick, thorough, variant
		self.level = level
		self.assumptions = list(assumptions)
		self.extra = list(extra)

	def run(self, prop, tier, seed):
		prog, env = self.build(prop)
		cases = self.thorough if tier == "thorough" else self.quick
		cases = max(1, int(cases * float(os.environ.get("VERIF_SCALE") or 1)))
		cap = 3600 if tier == "thorough" else 240
		replay = os.path.join(VERIF, "replays", "%s.replay" % prop)
		result = os.path.join(build.BUILD, "result-%s.json" % prop)

		for attempt in range(3):
			p = subprocess.run(prog + ["run", str(seed + attempt * 1000003), str(cases), str(WORKERS), str(cap), result, replay],
				env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
			if p.returncode not in (0, 1):
				raise build.BuildError("%s ended with %s: %s" % (prog, p.returncode, p.stdout.decode(errors="replace")))
			with open(result) as f:
				r = json.load(f)
			# A failure that cannot be repeated proves nothing: search again with other cases
			if not r["unreproducible"]:
				break

		coverage = { k : r[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "discarded", "labels") }
		coverage["unreproducible"] = r["unreproducible"]
		return dict(coverage=coverage, violation=r["violation"], message=r["message"], replay=replay)

	def replay(self, prop, path):
		prog, env = self.build(prop)
		return subprocess.run(prog + ["replay", path], env=env).returncode

class Cpp(Check):
	def build(self, prop):
		return [build.build_prop(prop, self.variant, self.extra)], dict(os.environ, **ASAN_ENV)

class Fuzzed(Cpp):
	"""
		The thorough tier goes on with libFuzzer, beginning with what the generators make
	"""
	seconds = 1200

	def fuzzer(self, prop):
		return build.build_prop(prop, "fuzz", self.extra + ["-DFUZZ"])

	def run(self, prop, tier, seed):
		r = Cpp.run(self, prop, tier, seed)
		if tier != "thorough" or r["violation"]:
			return r
		d = scratch(prop)
		corpus, artifacts = os.path.join(d, "corpus"), os.path.join(d, "artifacts") + "/"
		os.makedirs(corpus)
		os.makedirs(artifacts)
		prog, env = self.build(prop)
		subprocess.run(prog + ["corpus", corpus, "2000"], env=env, check=True, stdout=subprocess.DEVNULL)
		env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("exitcode=98", "exitcode=77")
		seconds = max(1, int(self.seconds * float(os.environ.get("VERIF_SCALE") or 1)))
		log = os.path.join(d, "log")
		with open(log, "wb") as f:
			subprocess.run([self.fuzzer(prop), "-fork=%d" % WORKERS, "-max_total_time=%d" % seconds, "-seed=%d" % seed,
				"-timeout=20", "-rss_limit_mb=2048", "-max_len=65536", "-artifact_prefix=" + artifacts, corpus],
				env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=d)
		with open(log, errors="replace") as f:
			runs = [line for line in f if line.startswith("#")]
		r["coverage"]["fuzzing"] = dict(seconds=seconds, last=runs[-1].strip() if runs else "", corpus=len(os.listdir(corpus)))
		for name in sorted(os.listdir(artifacts)):
			path = os.path.join(artifacts, name)
			p = subprocess.run([self.fuzzer(prop), "-timeout=20", "-rss_limit_mb=2048", path], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
			# Only what can be repeated counts
			if p.returncode:
				r["replay"] = os.path.join(VERIF, "replays", prop + ".fuzz")
				subprocess.run([self.fuzzer(prop), "-minimize_crash=1", "-max_total_time=60", "-timeout=20", "-rss_limit_mb=2048",
					"-exact_artifact_path=" + r["replay"], path], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
				if not os.path.exists(r["replay"]):
					shutil.copy(path, r["replay"])
				r["violation"], r["message"] = True, p.stdout.decode(errors="replace")[-3000:]
				break
		shutil.rmtree(d, ignore_errors=True)
		return r

	def replay(self, prop, path):
		if path.endswith(".fuzz"):
			return 1 if subprocess.run([self.fuzzer(prop), path], env=dict(os.environ, **ASAN_ENV)).returncode else 0
		return Cpp.replay(self, prop, path)

class Py(Check):
	"""
		A check in Python; needs says what has to be built for it
	"""
	def __init__(self, *args, needs=("python",), asan=True, **kwargs):
		Check.__init__(self, *args, **kwargs)
		self.needs, self.asan = needs, asan

	def build(self, prop):
		variant = "shared-asan" if self.asan else "shared"
		env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8", TZ="UTC", VERIF_REPO=build.REPO,
			VERIF_SCRATCH=scratch(prop),
			# Loading all certificates takes a while
			SSL_CERT_FILE="/nowhere", SSL_CERT_DIR="/nowhere")
		path = [build.LIB]
		for need in self.needs:
			d = getattr(build, "build_" + need)(variant)
			env["VERIF_" + need.upper()] = d
			if need == "python":
				path.insert(0, d)
		env["PYTHONPATH"] = ":".join(path)
		if "oom" in self.needs:
			env["LD_PRELOAD"] = os.path.join(env["VERIF_OOM"], "oom.so")
		if self.asan:
			env.update(ASAN_ENV, LD_PRELOAD=libasan(), PYTHONMALLOC="malloc")
		return [python(), os.path.join(VERIF, "props", prop + ".py")], env

CHECKS = {
	"C01" : Cpp(60000, 3000000,
		"property-based testing: generated databases and addresses against a linear-search reference model"),
	"C02" : Cpp(40000, 1500000,
		"property-based testing: generated writer histories, read back against a reference model"),
	"C03" : Cpp(40000, 1500000,
		"property-based testing: generated databases and filters, enumeration compared with the stored set"),
	"C04" : Cpp(40000, 1500000,
		"property-based testing: generated databases and filters, partition checked by interval arithmetic"),
	"C05" : Cpp(40000, 1500000,
		"property-based testing: generated databases, complement computed by interval arithmetic"),
	"C06" : Cpp(24000, 400000,
		"property-based testing: round trip of generated records against a reference model"),
	"C07" : Cpp(3000, 100000,
		"property-based testing: generated keys, signatures and tampering"),
	"C08" : Fuzzed(40000, 2000000,
		"structure-aware fuzzing of the file format under sanitizers (libFuzzer in the thorough tier)", extra=["-Wl,--wrap=mmap,--wrap=mmap64,--wrap=munmap"]),
	"C09" : Cpp(20000, 1000000,
		"property-based testing with injected write faults"),
	"C10" : Cpp(150000, 8000000,
		"property-based testing against 128 bit interval arithmetic"),
	"C11" : Cpp(80000, 4000000,
		"property-based testing against interval arithmetic (exact set difference)"),
	"C12" : Cpp(60000, 3000000,
		"stateful model-based testing of lists"),
	"C13" : Cpp(200000, 10000000,
		"property-based testing against an independent formatter"),
	"C14" : Cpp(200000, 8000000,
		"property-based testing: generated texts against an independent parser, round trips"),
	"C15" : Cpp(40000, 2000000,
		"stateful model-based testing of API histories under sanitizers and a leak detector"),
	"C16" : Py(30000, 1500000,
		"property-based testing of the Python module against a reference model, fuzzing of arguments"),
	"C17" : Py(6000, 300000,
		"property-based testing of the Lua and Perl modules against a reference model, fuzzing of arguments", needs=("python", "lua", "perl")),
	"C18" : Py(20000, 1000000,
		"property-based testing: exported files are parsed and compared with a reference model"),
	"C19" : Py(6000, 200000,
		"property-based testing with generated faults: misbehaving mirrors on the loopback interface"),
	"C20" : Py(10000, 500000,
		"property-based testing: generated invocations of the command line tool against a reference model"),
	"C21" : Cpp(200000, 10000000,
		"property-based testing and fuzzing of DNS replies through a replaced resolver", extra=["-Wl," + ",".join("--wrap=" + f for f in
		("res_query", "__res_query", "res_search", "res_nquery", "res_nsearch", "__res_init", "res_init", "__res_ninit", "res_ninit"))]),
	"C22" : Py(12000, 400000,
		"stateful property-based testing: histories of generated registry data against a reference model, the database being a model of PostgreSQL",
		asan=False, assumptions=["lib/pg.py models the part of PostgreSQL that the importer uses"]),
	"C23" : Cpp(40000, 2000000,
		"property-based testing: differential builds over dirtied memory, metamorphic copy", variant="plain",
		extra=["-Wl,--wrap=malloc,--wrap=realloc"]),
	"C24" : Cpp(100000, 5000000,
		"property-based testing against a reference predicate, all codes of up to two bytes"),
	"C25" : Py(8000, 400000,
		"property-based testing: generated contents of the importer's tables, the written database compared with a reference model of precedence",
		asan=False, assumptions=["lib/pg.py models the part of PostgreSQL that the importer uses"]),
	"C26" : Py(8000, 300000,
		"stateful property-based testing with injected faults: histories of updates from sources that misbehave, against a reference model",
		asan=False, assumptions=["lib/pg.py models the part of PostgreSQL that the importer uses"]),
	"C27" : Py(12000, 600000,
		"property-based testing: copies of generated databases are compared with a reference model, by all enumerations and lookups"),
	"C28" : Py(4000, 200000,
		"stateful property-based testing with a leak oracle: histories of calls of the Python, Lua and Perl modules are repeated and memory and files compared",
		needs=("python", "lua", "perl", "allocated")),
	"C37" : Py(8000, 400000,
		"property-based testing with injected faults: the n-th request for memory fails while the Python module is called, answers compared with those given with enough memory (metamorphic)", asan=False, needs=("python", "oom")),
	"C36" : Py(3000, 200000,
		"property-based testing with injected faults and crashes: the n-th change to the file system fails, or the process is killed there; files compared with those before and after", asan=False, needs=("python", "faults")),
	"C35" : Py(12000, 400000,
		"property-based testing with generated configurations: recording proxies and servers on the loopback interface, requests compared with a reference model", asan=False),
	"C34" : Cpp(8000, 500000,
		"stateful property-based testing: operations at every verbosity are compared with the same at full verbosity (metamorphic)", variant="asan-debug"),
	"C33" : Cpp(4000, 400000,
		"property-based testing with injected faults: functions that read fail at generated points, results are compared with those of an undisturbed run, leak oracle",
		extra=["-Wl," + ",".join("--wrap=" + f for f in
		("fread", "read", "pread", "fseek", "fseeko", "lseek", "dup", "fdopen", "mmap", "madvise"))]),
	"C32" : Cpp(2000, 200000,
		"property-based testing: threads under the thread sanitizer, compared with what each sees alone (differential)", variant="tsan"),
	"C31" : Cpp(12000, 2000000,
		"property-based testing: files against an independent decoder and encoder of the format (differential)"),
	"C30" : Py(20000, 500000,
		"property-based testing with generated faults: files served by a misbehaving server on the loopback interface are compared with what was retrieved"),
	"C29" : Cpp(8000, 1000000,
		"stateful property-based testing with injected faults: requests for memory fail at generated points, results are compared with those of an undisturbed run, leak oracle",
		extra=["-Wl," + ",".join("--wrap=" + f for f in
		("malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "fdopen", "mmap", "vasprintf", "asprintf", "EVP_MD_CTX_new"))]),
}

def replay(prop, path):
	return CHECKS[prop].replay(prop, path)

def setup():
	"""
		Builds everything once, so that the checks find it (unless the code has changed since)
	"""
	for variant in ("asan", "shared"):
		build.build_lib(variant)
	with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
		list(ex.map(lambda name: CHECKS[name].build(name), sorted(CHECKS)))
	return 0
