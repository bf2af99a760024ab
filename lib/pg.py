"""
	A small stand-in for PostgreSQL and for the driver the importer uses to talk to it

	There is no database server in the sandbox, so the importer's statements are parsed and run here,
	with the semantics of PostgreSQL as far as the importer depends on them: types (inet, integers
	that overflow, text that is not null...), three-valued logic, unique indexes, foreign keys,
	transactions and savepoints, temporary tables, common table expressions, window functions.

	Anything that is not understood raises Unsupported, which is about this file and not about the
	code that is tested: checks throw such cases away.
"""
import asyncio
import datetime
import functools
import ipaddress
import re
import sys
import types

class Unsupported(Exception):
	pass

class Error(Exception):
	"""
		What the server complains about
	"""

class DataError(Error):
	pass

class IntegrityError(Error):
	pass

class ProgrammingError(Error):
	pass

class InFailedSqlTransaction(Error):
	pass

# Values

class Inet(object):
	__slots__ = ("version", "address", "prefix", "bits")

	def __init__(self, s):
		try:
			i = ipaddress.ip_interface(s)
		except ValueError:
			raise DataError("invalid input syntax for type inet: %r" % s)
		self.version, self.address, self.prefix = i.version, int(i.ip), i.network.prefixlen
		self.bits = 32 if i.version == 4 else 128

	def network(self, prefix=None):
		shift = self.bits - (self.prefix if prefix is None else prefix)
		return self.address >> shift << shift

	def compare(self, other):
		if self.version != other.version:
			return self.version - other.version
		n = min(self.prefix, other.prefix)
		for a, b in ((self.network(n), other.network(n)), (self.prefix, other.prefix), (self.address, other.address)):
			if a != b:
				return -1 if a < b else 1
		return 0

	def contains(self, other, strictly=False):
		return self.version == other.version and self.network() == other.network(min(self.prefix, other.prefix)) \
			and (self.prefix < other.prefix if strictly else self.prefix <= other.prefix)

	def __eq__(self, other):
		return isinstance(other, Inet) and self.compare(other) == 0

	def __lt__(self, other):
		return self.compare(other) < 0

	def __gt__(self, other):
		return self.compare(other) > 0

	def __le__(self, other):
		return self.compare(other) <= 0

	def __ge__(self, other):
		return self.compare(other) >= 0

	def __hash__(self):
		return hash((self.version, self.address, self.prefix))

	def __str__(self):
		a = ipaddress.ip_address(self.address) if self.version == 4 or self.address >> 32 else ipaddress.IPv6Address(self.address)
		return "%s" % a if self.prefix == self.bits else "%s/%s" % (a, self.prefix)

	def python(self):
		"""
			What the driver makes out of it
		"""
		a = (ipaddress.IPv4Address if self.version == 4 else ipaddress.IPv6Address)(self.address)
		if self.prefix == self.bits:
			return a
		return ipaddress.ip_interface("%s/%s" % (a, self.prefix))

INTEGERS = {
	"smallint" : 15, "int2" : 15,
	"integer" : 31, "int" : 31, "int4" : 31, "serial" : 31,
	"bigint" : 63, "int8" : 63, "bigserial" : 63,
}

def coerce(value, type):
	if value is None:
		return None
	if type in INTEGERS:
		if isinstance(value, str):
			if not re.match(r"^\s*[+-]?[0-9]+\s*$", value):
				raise DataError("invalid input syntax for type %s: %r" % (type, value))
			value = int(value)
		if isinstance(value, bool) or not isinstance(value, int):
			raise ProgrammingError("%r is not of type %s" % (value, type))
		if not -(1 << INTEGERS[type]) <= value < 1 << INTEGERS[type]:
			raise DataError("%s out of range" % type)
		return value
	if type in ("text", "varchar"):
		if not isinstance(value, str):
			raise ProgrammingError("%r is not of type text" % (value,))
		if "\0" in value:
			raise DataError("text fields cannot contain NUL (0x00) bytes")
		return value
	if type == "inet":
		if isinstance(value, Inet):
			return value
		if isinstance(value, (str, ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Address, ipaddress.IPv6Address,
				ipaddress.IPv4Interface, ipaddress.IPv6Interface)):
			return Inet(str(value))
		raise ProgrammingError("%r is not of type inet" % (value,))
	if type in ("boolean", "bool"):
		if isinstance(value, bool):
			return value
		if isinstance(value, str) and value.lower() in ("t", "true", "yes", "on", "1", "f", "false", "no", "off", "0"):
			return value.lower() in ("t", "true", "yes", "on", "1")
		raise ProgrammingError("%r is not of type boolean" % (value,))
	if type.endswith("[]"):
		if not isinstance(value, (list, tuple)):
			raise ProgrammingError("%r is not of type %s" % (value, type))
		return tuple(coerce(v, type[:-2]) for v in value)
	if type.startswith("timestamp"):
		if isinstance(value, datetime.datetime):
			return value
		raise Unsupported("timestamp %r" % (value,))
	raise Unsupported("type %s" % type)

# Parser

TOKEN = re.compile(r"""
	(?P<space>\s+|--[^\n]*|/\*.*?\*/)
	|(?P<string>'(?:[^']|'')*')
	|(?P<quoted>"(?:[^"]|"")*")
	|(?P<number>\d+(?:\.\d+)?)
	|(?P<name>[A-Za-z_][A-Za-z_0-9]*)
	|(?P<param>%s|%\([a-z_]+\)s)
	|(?P<op>::|<<=|>>=|<<|>>|<=|>=|<>|!=|\|\||&&|[-+*/%<>=(),;.\[\]])
""", re.X | re.S)

def tokenize(sql):
	pos, tokens = 0, []
	while pos < len(sql):
		m = TOKEN.match(sql, pos)
		if not m:
			raise Unsupported("SQL: %r" % sql[pos:pos + 40])
		pos = m.end()
		kind = m.lastgroup
		if kind == "space":
			continue
		text = m.group(0)
		if kind == "string":
			text = text[1:-1].replace("''", "'")
		elif kind == "quoted":
			text, kind = text[1:-1].replace('""', '"'), "ident"
		elif kind == "name":
			text = text.lower()
		tokens.append((kind, text))
	tokens.append(("end", ""))
	return tokens

RESERVED = set("""select from where and or not on using join left right inner outer cross full group order by having limit offset
	union except intersect as is null in with set values returning distinct case when then else end conflict do window""".split())

class Parser(object):
	def __init__(self, sql):
		self.tokens = tokenize(sql)
		self.pos = 0
		self.params = 0

	def peek(self, *words):
		for i, w in enumerate(words):
			if self.pos + i >= len(self.tokens):
				return False
			kind, text = self.tokens[self.pos + i]
			if text != w or kind in ("string", "ident"):
				return False
		return True

	def accept(self, *words):
		if self.peek(*words):
			self.pos += len(words)
			return True
		return False

	def expect(self, *words):
		if not self.accept(*words):
			raise Unsupported("SQL: expected %s at %s" % (" ".join(words), " ".join(t for k, t in self.tokens[self.pos:self.pos + 8])))

	def name(self):
		kind, text = self.tokens[self.pos]
		if kind not in ("name", "ident"):
			raise Unsupported("SQL: expected a name at %s" % " ".join(t for k, t in self.tokens[self.pos:self.pos + 8]))
		self.pos += 1
		return text

	def list(self, f):
		r = [f()]
		while self.accept(","):
			r.append(f())
		return r

	def statements(self):
		r = []
		while True:
			while self.accept(";"):
				pass
			if self.tokens[self.pos][0] == "end":
				return r
			r.append(self.statement())
			if self.tokens[self.pos][0] != "end":
				self.expect(";")

	def statement(self):
		if self.accept("create"):
			temporary = self.accept("temporary") or self.accept("temp")
			unlogged = self.accept("unlogged")
			if self.accept("table"):
				return self.create_table(temporary)
			unique = self.accept("unique")
			self.expect("index")
			return self.create_index(unique)
		if self.accept("alter", "table"):
			return self.alter_table()
		if self.accept("drop"):
			kind = self.name()
			exists = self.accept("if", "exists")
			names = self.list(self.name)
			self.accept("cascade")
			return ("drop", kind, exists, names)
		if self.accept("truncate"):
			self.accept("table")
			return ("truncate", self.list(self.name))
		if self.accept("analyze") or self.accept("vacuum"):
			while not self.peek(";") and self.tokens[self.pos][0] != "end":
				self.pos += 1
			return ("nothing",)
		ctes = self.ctes()
		if self.accept("insert", "into"):
			return self.insert(ctes)
		if self.accept("update"):
			return self.update(ctes)
		if self.accept("delete", "from"):
			return self.delete(ctes)
		return ("query", self.select(ctes))

	def ctes(self):
		ctes = []
		if self.accept("with"):
			if self.peek("recursive"):
				raise Unsupported("WITH RECURSIVE")
			while True:
				name = self.name()
				self.expect("as")
				if self.accept("not"):
					self.expect("materialized")
				self.accept("materialized")
				self.expect("(")
				ctes.append((name, self.select(self.ctes())))
				self.expect(")")
				if not self.accept(","):
					break
		return ctes

	def type(self):
		words = [self.name()]
		while self.tokens[self.pos][0] == "name" and self.tokens[self.pos][1] in ("precision", "varying", "without", "with", "time", "zone"):
			words.append(self.name())
		t = " ".join(words)
		if self.accept("("):
			while not self.accept(")"):
				self.pos += 1
		if self.accept("["):
			self.expect("]")
			t += "[]"
		return t

	def column(self):
		c = dict(name=self.name(), type=self.type(), notnull=False, default=None, unique=False, references=None)
		while True:
			if self.accept("not", "null"):
				c["notnull"] = True
			elif self.accept("null"):
				pass
			elif self.accept("default"):
				c["default"] = self.unary()
			elif self.accept("primary", "key"):
				c["notnull"] = c["unique"] = True
			elif self.accept("unique"):
				c["unique"] = True
			elif self.accept("references"):
				table = self.name()
				self.expect("(")
				col = self.name()
				self.expect(")")
				cascade = False
				if self.accept("on", "delete"):
					self.expect("cascade")
					cascade = True
				c["references"] = (table, col, cascade)
			else:
				return c

	def create_table(self, temporary):
		exists = self.accept("if", "not", "exists")
		name = self.name()
		self.expect("(")
		columns, uniques = [], []
		while True:
			if self.peek("unique", "(") or self.peek("primary", "key"):
				self.name()
				self.accept("key")
				self.expect("(")
				uniques.append(tuple(self.list(self.name)))
				self.expect(")")
			else:
				columns.append(self.column())
			if not self.accept(","):
				break
		self.expect(")")
		drop = False
		while True:
			if self.accept("on", "commit", "drop"):
				drop = True
			elif self.accept("on", "commit", "preserve", "rows"):
				pass
			elif self.accept("with"):
				self.expect("(")
				while not self.accept(")"):
					self.pos += 1
			else:
				break
		return ("create table", name, temporary, exists, columns, uniques, drop)

	def create_index(self, unique):
		exists = self.accept("if", "not", "exists")
		name = self.name()
		self.expect("on")
		table = self.name()
		if self.accept("using"):
			self.name()
		self.expect("(")
		columns = []
		def entry():
			e = self.expr()
			if self.tokens[self.pos][0] == "name":
				self.name()
			return e
		columns = self.list(entry)
		self.expect(")")
		return ("create index", name, unique, exists, table, columns)

	def alter_table(self):
		name = self.name()
		if self.accept("add", "column"):
			exists = self.accept("if", "not", "exists")
			return ("add column", name, exists, self.column())
		if self.accept("drop", "column"):
			exists = self.accept("if", "exists")
			return ("drop column", name, exists, self.name())
		if self.accept("alter", "column"):
			col = self.name()
			if self.accept("set", "not", "null"):
				return ("set not null", name, col)
			if self.accept("type") or self.accept("set", "data", "type"):
				return ("set type", name, col, self.type())
		raise Unsupported("ALTER TABLE")

	def returning(self):
		return self.list(self.item) if self.accept("returning") else None

	def insert(self, ctes):
		table = self.name()
		alias = self.name() if self.accept("as") else table
		columns = None
		if self.accept("("):
			columns = self.list(self.name)
			self.expect(")")
		if self.accept("values"):
			def row():
				self.expect("(")
				r = self.list(self.expr)
				self.expect(")")
				return r
			source = ("values", self.list(row))
		elif self.accept("default", "values"):
			source = ("values", [[]])
		else:
			source = ("select", self.select(self.ctes()))
		conflict = None
		if self.accept("on", "conflict"):
			target = None
			if self.accept("("):
				target = tuple(self.list(self.name))
				self.expect(")")
			self.expect("do")
			if self.accept("nothing"):
				conflict = (target, None, None)
			else:
				self.expect("update", "set")
				sets = self.list(self.assignment)
				where = self.expr() if self.accept("where") else None
				conflict = (target, sets, where)
		return ("insert", ctes, table, alias, columns, source, conflict, self.returning())

	def assignment(self):
		col = self.name()
		self.expect("=")
		return (col, self.expr())

	def update(self, ctes):
		table = self.name()
		alias = table
		if self.accept("as"):
			alias = self.name()
		elif not self.peek("set"):
			alias = self.name()
		self.expect("set")
		sets = self.list(self.assignment)
		source = self.from_list() if self.accept("from") else []
		where = self.expr() if self.accept("where") else None
		return ("update", ctes, table, alias, sets, source, where, self.returning())

	def delete(self, ctes):
		table = self.name()
		alias = table
		if self.accept("as"):
			alias = self.name()
		elif self.tokens[self.pos][0] == "name" and not self.tokens[self.pos][1] in RESERVED:
			alias = self.name()
		source = self.from_list() if self.accept("using") else []
		where = self.expr() if self.accept("where") else None
		return ("delete", ctes, table, alias, source, where, self.returning())

	def select(self, ctes=()):
		"""
			("select", ctes, [core, (all?, core)...], order, limit, offset)
		"""
		cores = [(None, self.core())]
		while True:
			if self.accept("union"):
				all = self.accept("all")
				cores.append(("all" if all else "distinct", self.core()))
			elif self.peek("except") or self.peek("intersect"):
				raise Unsupported("EXCEPT, INTERSECT")
			else:
				break
		order, limit, offset = [], None, None
		if self.accept("order", "by"):
			order = self.list(self.order)
		while True:
			if self.accept("limit"):
				limit = None if self.accept("all") else self.expr()
			elif self.accept("offset"):
				offset = self.expr()
				self.accept("rows") or self.accept("row")
			elif self.accept("for", "update"):
				pass
			else:
				break
		return ("select", list(ctes), cores, order, limit, offset)

	def order(self):
		e = self.expr()
		desc = self.accept("desc")
		if not desc:
			self.accept("asc")
		nulls = None
		if self.accept("nulls"):
			nulls = self.name()
		return (e, desc, nulls or ("first" if desc else "last"))

	def core(self):
		if self.accept("("):
			s = self.select(self.ctes())
			self.expect(")")
			return ("nested", s)
		self.expect("select")
		distinct = None
		if self.accept("distinct"):
			distinct = True
			if self.accept("on"):
				self.expect("(")
				distinct = self.list(self.expr)
				self.expect(")")
		else:
			self.accept("all")
		items = self.list(self.item)
		source = self.from_list() if self.accept("from") else []
		where = self.expr() if self.accept("where") else None
		group = self.list(self.expr) if self.accept("group", "by") else None
		having = self.expr() if self.accept("having") else None
		return ("core", distinct, items, source, where, group, having)

	def item(self):
		if self.accept("*"):
			return ("*", None)
		kind, text = self.tokens[self.pos]
		if kind in ("name", "ident") and self.tokens[self.pos + 1] == ("op", ".") and self.tokens[self.pos + 2] == ("op", "*"):
			self.pos += 3
			return ("*", text)
		e = self.expr()
		name = None
		if self.accept("as"):
			name = self.name()
		elif self.tokens[self.pos][0] in ("name", "ident") and not self.tokens[self.pos][1] in RESERVED:
			name = self.name()
		if name is None:
			x = e
			while x[0] == "cast":
				x = x[1]
			name = x[2] if x[0] == "column" else x[1] if x[0] == "call" else "?column?"
		return (e, name)

	def from_list(self):
		"""
			[(kind of join, table, alias, condition)...]
		"""
		r = [("cross",) + self.table() + (None,)]
		while True:
			if self.accept(","):
				r.append(("cross",) + self.table() + (None,))
				continue
			kind = None
			if self.accept("cross", "join"):
				r.append(("cross",) + self.table() + (None,))
				continue
			if self.accept("left", "join") or self.accept("left", "outer", "join"):
				kind = "left"
			elif self.accept("inner", "join") or self.accept("join"):
				kind = "inner"
			elif self.peek("right") or self.peek("full") or self.peek("natural"):
				raise Unsupported("join")
			else:
				return r
			table, alias = self.table()
			if self.accept("using"):
				self.expect("(")
				cols = self.list(self.name)
				self.expect(")")
				raise Unsupported("JOIN USING")
			self.expect("on")
			r.append((kind, table, alias, self.expr()))

	def table(self):
		if self.accept("("):
			t = ("subquery", self.select(self.ctes()))
			self.expect(")")
			alias = "?"
		elif self.peek("lateral"):
			raise Unsupported("LATERAL")
		else:
			alias = self.name()
			if self.accept("."):
				alias = self.name()
			t = ("table", alias)
		if self.accept("as"):
			alias = self.name()
		elif self.tokens[self.pos][0] in ("name", "ident") and not self.tokens[self.pos][1] in RESERVED:
			alias = self.name()
		return t, alias

	# Expressions

	def expr(self):
		e = self.conjunction()
		while self.accept("or"):
			e = ("or", e, self.conjunction())
		return e

	def conjunction(self):
		e = self.negation()
		while self.accept("and"):
			e = ("and", e, self.negation())
		return e

	def negation(self):
		if self.accept("not"):
			return ("not", self.negation())
		return self.predicate()

	def predicate(self):
		e = self.comparison()
		while self.accept("is"):
			negate = self.accept("not")
			if self.accept("null"):
				e = ("isnull", e)
			elif self.accept("true"):
				e = ("istrue", e)
			elif self.accept("false"):
				e = ("isfalse", e)
			elif self.accept("distinct", "from"):
				e = ("distinct", e, self.comparison())
			else:
				raise Unsupported("IS")
			if negate:
				e = ("not", e)
		return e

	def comparison(self):
		e = self.membership()
		while True:
			for op in ("=", "<>", "!=", "<=", ">=", "<", ">"):
				if self.accept(op):
					break
			else:
				return e
			if self.peek("any", "(") or self.peek("some", "(") or self.peek("all", "("):
				kind = self.name()
				self.expect("(")
				if self.peek("select") or self.peek("with"):
					raise Unsupported("ANY (SELECT...)")
				e = ("any" if kind != "all" else "all", op, e, self.expr())
				self.expect(")")
			else:
				e = ("compare", op, e, self.membership())

	def membership(self):
		e = self.other()
		while True:
			negate = False
			if self.peek("not", "in") or self.peek("not", "between") or self.peek("not", "like"):
				self.accept("not")
				negate = True
			if self.accept("in"):
				self.expect("(")
				if self.peek("select") or self.peek("with"):
					e = ("in", e, ("select", self.select(self.ctes())))
				else:
					e = ("in", e, ("list", self.list(self.expr)))
				self.expect(")")
			elif self.accept("between"):
				low = self.other()
				self.expect("and")
				high = self.other()
				e = ("and", ("compare", ">=", e, low), ("compare", "<=", e, high))
			elif self.peek("like") or self.peek("ilike"):
				raise Unsupported("LIKE")
			else:
				return e
			if negate:
				e = ("not", e)

	def other(self):
		e = self.sum()
		while True:
			for op in ("<<=", ">>=", "<<", ">>", "&&", "||"):
				if self.accept(op):
					break
			else:
				return e
			e = ("op", op, e, self.sum())

	def sum(self):
		e = self.product()
		while True:
			if self.accept("+"):
				e = ("op", "+", e, self.product())
			elif self.accept("-"):
				e = ("op", "-", e, self.product())
			else:
				return e

	def product(self):
		e = self.unary()
		while True:
			for op in ("*", "/", "%"):
				if self.accept(op):
					break
			else:
				return e
			e = ("op", op, e, self.unary())

	def unary(self):
		if self.accept("-"):
			return ("op", "-", ("literal", 0), self.unary())
		e = self.primary()
		while self.accept("::"):
			e = ("cast", e, self.type())
		return e

	def primary(self):
		kind, text = self.tokens[self.pos]
		if kind == "param":
			self.pos += 1
			if text != "%s":
				return ("param", text[2:-2])
			self.params += 1
			return ("param", self.params - 1)
		if kind == "string":
			self.pos += 1
			return ("literal", text)
		if kind == "number":
			self.pos += 1
			return ("literal", float(text) if "." in text else int(text))
		if self.accept("("):
			if self.peek("select") or self.peek("with"):
				e = ("scalar", self.select(self.ctes()))
			else:
				e = self.expr()
			self.expect(")")
			return e
		if kind not in ("name", "ident"):
			raise Unsupported("SQL at %s" % " ".join(t for k, t in self.tokens[self.pos:self.pos + 8]))
		if kind == "name":
			if self.accept("null"):
				return ("literal", None)
			if self.accept("true"):
				return ("literal", True)
			if self.accept("false"):
				return ("literal", False)
			if self.accept("current_timestamp"):
				return ("now",)
			if text == "interval" and self.tokens[self.pos + 1][0] == "string":
				self.pos += 2
				return ("literal", interval(self.tokens[self.pos - 1][1]))
			if self.accept("exists"):
				self.expect("(")
				e = ("exists", self.select(self.ctes()))
				self.expect(")")
				return e
			if self.accept("case"):
				operand = None if self.peek("when") else self.expr()
				whens = []
				while self.accept("when"):
					c = self.expr()
					self.expect("then")
					whens.append((c if operand is None else ("compare", "=", operand, c), self.expr()))
				default = self.expr() if self.accept("else") else ("literal", None)
				self.expect("end")
				return ("case", whens, default)
			if self.accept("cast"):
				self.expect("(")
				e = self.expr()
				self.expect("as")
				e = ("cast", e, self.type())
				self.expect(")")
				return e
			if text == "array" and self.tokens[self.pos + 1] == ("op", "["):
				self.pos += 2
				items = [] if self.peek("]") else self.list(self.expr)
				self.expect("]")
				return ("array", items)
		name = self.name()
		if self.accept("("):
			if self.accept("*"):
				args = [("literal", 1)]
			elif self.peek(")"):
				args = []
			else:
				if self.accept("distinct"):
					name += " distinct"
				args = self.list(self.expr)
			self.expect(")")
			if self.accept("over"):
				self.expect("(")
				partition = self.list(self.expr) if self.accept("partition", "by") else []
				order = self.list(self.order) if self.accept("order", "by") else []
				self.expect(")")
				return ("window", name, args, partition, order)
			if name == "now" and not args:
				return ("now",)
			return ("call", name, args)
		if self.accept("."):
			return ("column", name, self.name())
		return ("column", None, name)

def interval(s):
	m = re.match(r"^\s*(\d+)\s*(second|minute|hour|day|week)s?\s*$", s.lower())
	if not m:
		raise Unsupported("interval %r" % s)
	return datetime.timedelta(**{ m.group(2) + "s" : int(m.group(1)) })

@functools.lru_cache(maxsize=None)
def parse(sql):
	return Parser(sql.replace("%%", "%")).statements()

# Tables

class Table(object):
	def __init__(self, name, columns, drop=False):
		self.name, self.columns, self.drop = name, columns, drop
		self.rows = []
		self.indexes = {}
		self.serial = 0

	def column(self, name):
		for c in self.columns:
			if c["name"] == name:
				return c
		raise ProgrammingError("column %s of %s does not exist" % (name, self.name))

	def names(self):
		return [c["name"] for c in self.columns]

class Server(object):
	def __init__(self, now=None):
		self.tables = {}
		self.now = now or datetime.datetime(2024, 6, 1, 12, 0, 0)
		# If set, called before every statement of a connection, and may raise an Error
		self.fault = None

	def rows(self, table, *columns):
		"""
			For checks: what is in a table
		"""
		if not table in self.tables:
			raise Unsupported("there is no table %s" % table)
		t = self.tables[table]
		for c in columns:
			if not c in t.names():
				raise Unsupported("there is no column %s in %s" % (c, table))
		return [tuple(r[c] for c in columns) for r in t.rows]

def matches(v):
	return v is True

AGGREGATES = ("min", "max", "count", "sum", "array_agg", "count distinct", "bool_or", "bool_and")

def aggregated(e):
	if isinstance(e, tuple):
		if e and e[0] == "call" and e[1] in AGGREGATES:
			return True
		if e and e[0] in ("window", "scalar", "exists"):
			return False
		return any(aggregated(x) for x in e)
	if isinstance(e, list):
		return any(aggregated(x) for x in e)
	return False

class Result(object):
	def __init__(self, columns, rows):
		self.columns, self.rows = columns, rows

def hashable(v):
	return v

class Executor(object):
	"""
		Runs one statement
	"""
	def __init__(self, conn, params):
		self.conn, self.server, self.params = conn, conn.server, params

	def table(self, name):
		if name in self.conn.temporary:
			return self.conn.temporary[name]
		if name in self.server.tables:
			return self.server.tables[name]
		raise ProgrammingError("relation %s does not exist" % name)

	# Changes that can be undone

	def _append(self, table, row):
		table.rows.append(row)
		self.conn.undo.append(lambda: remove(table.rows, row))

	def _remove(self, table, row):
		i = index(table.rows, row)
		del table.rows[i]
		self.conn.undo.append(lambda: table.rows.insert(min(i, len(table.rows)), row))

	def _change(self, row, new):
		old = dict(row)
		row.update(new)
		self.conn.undo.append(lambda: row.update(old))

	# Statements

	def run(self, s):
		return getattr(self, "do_" + s[0].replace(" ", "_"))(*s[1:])

	def do_nothing(self):
		pass

	def do_create_table(self, name, temporary, exists, columns, uniques, drop):
		space = self.conn.temporary if temporary else self.server.tables
		if name in space:
			if exists:
				return
			raise ProgrammingError("relation %s already exists" % name)
		t = space[name] = Table(name, [dict(c) for c in columns], drop)
		self.conn.undo.append(lambda: space.pop(name, None))
		for c in t.columns:
			if c["type"] in ("serial", "bigserial"):
				c["notnull"] = True
			if c["unique"]:
				t.indexes["%s_%s_key" % (name, c["name"])] = (c["name"],)
		for u in uniques:
			t.indexes["%s_%s_key" % (name, "_".join(u))] = u

	def do_create_index(self, name, unique, exists, table, columns):
		t = self.table(table)
		if name in t.indexes and not exists:
			raise ProgrammingError("relation %s already exists" % name)
		if not unique:
			return
		cols = []
		for c in columns:
			if c[0] != "column":
				raise Unsupported("unique index on an expression")
			t.column(c[2])
			cols.append(c[2])
		if name in t.indexes:
			return
		cols = tuple(cols)
		seen = set()
		for r in t.rows:
			k = tuple(r[c] for c in cols)
			if not None in k:
				if k in seen:
					raise IntegrityError("could not create unique index %s" % name)
				seen.add(k)
		t.indexes[name] = cols
		self.conn.undo.append(lambda: t.indexes.pop(name, None))

	def do_drop(self, kind, exists, names):
		for name in names:
			if kind == "table":
				for space in (self.conn.temporary, self.server.tables):
					if name in space:
						t = space.pop(name)
						self.conn.undo.append(lambda space=space, name=name, t=t: space.__setitem__(name, t))
						break
				else:
					if not exists:
						raise ProgrammingError("table %s does not exist" % name)
			elif kind == "index":
				for t in list(self.conn.temporary.values()) + list(self.server.tables.values()):
					if name in t.indexes:
						c = t.indexes.pop(name)
						self.conn.undo.append(lambda t=t, name=name, c=c: t.indexes.__setitem__(name, c))
			else:
				raise Unsupported("DROP %s" % kind)

	def do_truncate(self, names):
		for name in names:
			t = self.table(name)
			for other in self.server.tables.values():
				for c in other.columns:
					if c["references"] and c["references"][0] == name and not other.name in names:
						raise IntegrityError("cannot truncate a table referenced in a foreign key constraint")
			old, t.rows = t.rows, []
			def undo(t=t, old=old):
				t.rows = old
			self.conn.undo.append(undo)

	def do_add_column(self, name, exists, column):
		t = self.table(name)
		if column["name"] in t.names():
			if exists:
				return
			raise ProgrammingError("column exists")
		if column["notnull"] and t.rows and column["default"] is None:
			raise IntegrityError("column %s contains null values" % column["name"])
		c = dict(column)
		t.columns.append(c)
		for r in t.rows:
			r[c["name"]] = self.default(t, c)
		self.conn.undo.append(lambda: t.columns.remove(c))

	def do_drop_column(self, name, exists, column):
		t = self.table(name)
		if not column in t.names():
			if exists:
				return
			raise ProgrammingError("no such column")
		c = t.column(column)
		i = t.columns.index(c)
		t.columns.remove(c)
		self.conn.undo.append(lambda: t.columns.insert(i, c))

	def do_set_not_null(self, name, column):
		t = self.table(name)
		c = t.column(column)
		if any(r[column] is None for r in t.rows):
			raise IntegrityError("column contains null values")
		old = c["notnull"]
		c["notnull"] = True
		self.conn.undo.append(lambda: c.__setitem__("notnull", old))

	def do_set_type(self, name, column, type):
		t = self.table(name)
		c = t.column(column)
		old = c["type"]
		for r in t.rows:
			r[column] = coerce(r[column], type)
		c["type"] = type
		self.conn.undo.append(lambda: c.__setitem__("type", old))

	def default(self, t, c):
		if c["type"] in ("serial", "bigserial"):
			t.serial += 1
			return t.serial
		if c["default"] is None:
			return None
		return coerce(self.eval(c["default"], {}, {}), c["type"])

	def check_row(self, t, row, ignore=None):
		for c in t.columns:
			if c["notnull"] and row[c["name"]] is None:
				raise IntegrityError("null value in column %s of %s violates not-null constraint" % (c["name"], t.name))
			if c["references"] and row[c["name"]] is not None:
				other, col, _ = c["references"]
				if not any(r[col] == row[c["name"]] for r in self.table(other).rows):
					raise IntegrityError("violates foreign key constraint: %s" % t.name)

	def conflict(self, t, row, target=None, ignore=None):
		for cols in t.indexes.values():
			if target is not None and set(cols) != set(target):
				continue
			k = [row[c] for c in cols]
			if None in k:
				continue
			for r in t.rows:
				if r is not ignore and [r[c] for c in cols] == k:
					return r

	def do_insert(self, ctes, table, alias, columns, source, conflict, returning):
		t = self.table(table)
		ctes = self.scope(ctes, {})
		columns = columns or t.names()
		for c in columns:
			t.column(c)
		if source[0] == "values":
			rows = [[self.eval(e, {}, ctes) for e in row] for row in source[1]]
		else:
			rows = self.select(source[1], ctes, {}).rows
		if conflict and conflict[0] and not any(set(c) == set(conflict[0]) for c in t.indexes.values()):
			raise ProgrammingError("there is no unique constraint matching the ON CONFLICT specification")
		touched = []
		for values in rows:
			if len(values) > len(columns):
				raise ProgrammingError("INSERT has more expressions than target columns")
			given = dict(zip(columns, values))
			row = {}
			for c in t.columns:
				row[c["name"]] = coerce(given[c["name"]], c["type"]) if c["name"] in given else self.default(t, c)
			# Constraints on single rows are checked before conflicts are looked for
			for c in t.columns:
				if c["notnull"] and row[c["name"]] is None:
					raise IntegrityError("null value in column %s of %s violates not-null constraint" % (c["name"], t.name))
			if conflict:
				other = self.conflict(t, row, conflict[0])
				if other is not None:
					if conflict[1] is None:
						continue
					if any(other is x for x in touched):
						raise Error("ON CONFLICT DO UPDATE command cannot affect row a second time")
					env = { alias : other, "excluded" : row }
					if conflict[2] is not None and not matches(self.eval(conflict[2], env, ctes)):
						continue
					self.assign(t, other, conflict[1], env, ctes)
					touched.append(other)
					continue
			if self.conflict(t, row) is not None:
				raise IntegrityError("duplicate key value violates unique constraint of %s: %s" % (t.name, row))
			self.check_row(t, row)
			self._append(t, row)
			touched.append(row)
		if returning:
			return self.project([{ alias : r } for r in touched], returning, ctes)

	def assign(self, t, row, sets, env, ctes):
		new = {}
		for col, e in sets:
			c = t.column(col)
			new[col] = coerce(self.eval(e, env, ctes), c["type"])
		whole = dict(row, **new)
		if self.conflict(t, whole, ignore=row) is not None:
			raise IntegrityError("duplicate key value violates unique constraint of %s" % t.name)
		self.check_row(t, whole)
		self._change(row, new)

	def do_update(self, ctes, table, alias, sets, source, where, returning):
		t = self.table(table)
		ctes = self.scope(ctes, {})
		changes = []
		for row in t.rows:
			base = { alias : row }
			for env in (self.join(source, ctes, base) if source else [base]):
				if where is None or matches(self.eval(where, env, ctes)):
					changes.append((row, { col : coerce(self.eval(e, env, ctes), t.column(col)["type"]) for col, e in sets }))
					break
		for row, new in changes:
			self._change(row, new)
		for row, new in changes:
			if self.conflict(t, row, ignore=row) is not None:
				raise IntegrityError("duplicate key value violates unique constraint of %s" % t.name)
			self.check_row(t, row)
		if returning:
			return self.project([{ alias : r } for r, new in changes], returning, ctes)

	def do_delete(self, ctes, table, alias, source, where, returning):
		t = self.table(table)
		ctes = self.scope(ctes, {})
		gone = []
		for row in t.rows:
			base = { alias : row }
			for env in (self.join(source, ctes, base) if source else [base]):
				if where is None or matches(self.eval(where, env, ctes)):
					gone.append(row)
					break
		self.delete_rows(t, gone)
		if returning:
			return self.project([{ alias : r } for r in gone], returning, ctes)

	def delete_rows(self, t, gone):
		for row in gone:
			self._remove(t, row)
			for other in self.server.tables.values():
				for c in other.columns:
					if c["references"] and c["references"][0] == t.name:
						children = [r for r in other.rows if r[c["name"]] is not None and r[c["name"]] == row[c["references"][1]]]
						if children and not c["references"][2]:
							raise IntegrityError("violates foreign key constraint")
						self.delete_rows(other, children)

	def do_query(self, select):
		return self.select(select, {}, {})

	# Queries

	def scope(self, ctes, outer, env=None):
		r = dict(outer)
		for name, select in ctes:
			r[name] = self.select(select, dict(r), env or {})
		return r

	def relation(self, table, ctes):
		if table[0] == "subquery":
			return self.select(table[1], ctes, {})
		if table[1] in ctes:
			return ctes[table[1]]
		t = self.table(table[1])
		names = t.names()
		return Result(names, [[r[c] for c in names] for r in t.rows])

	def join(self, source, ctes, base):
		envs = [base]
		for kind, table, alias, on in source:
			rel = self.relation(table, ctes)
			rows = [dict(zip(rel.columns, r)) for r in rel.rows]
			empty = dict.fromkeys(rel.columns)
			new = []
			for env in envs:
				if alias in env:
					raise ProgrammingError("table name %s specified more than once" % alias)
				found = False
				for r in rows:
					e = dict(env)
					e[alias] = r
					if on is None or matches(self.eval(on, e, ctes)):
						new.append(e)
						found = True
				if kind == "left" and not found:
					e = dict(env)
					e[alias] = empty
					new.append(e)
			envs = new
		return envs

	def select(self, s, ctes, env):
		_, own, cores, order, limit, offset = s
		ctes = self.scope(own, ctes, env)
		if len(cores) == 1 and cores[0][1][0] == "core":
			r = self.core(cores[0][1], ctes, env, order)
		else:
			r = None
			for how, core in cores:
				x = self.core(core, ctes, env, []) if core[0] == "core" else self.select(core[1], ctes, env)
				if r is None:
					r = x
				else:
					if len(x.columns) != len(r.columns):
						raise ProgrammingError("each UNION query must have the same number of columns")
					r = Result(r.columns, r.rows + x.rows)
					if how == "distinct":
						r.rows = unique(r.rows)
			if order:
				envs = [{ "?" : dict(zip(r.columns, row)) } for row in r.rows]
				perm = self.sort(envs, order, ctes)
				r.rows = [r.rows[i] for i in perm]
		if offset is not None:
			r.rows = r.rows[self.eval(offset, {}, ctes):]
		if limit is not None:
			n = self.eval(limit, {}, ctes)
			if n is not None:
				r.rows = r.rows[:n]
		return r

	def sort(self, envs, order, ctes, windows=None):
		keys = []
		for i, env in enumerate(envs):
			keys.append([self.eval(e, env, ctes) if not (windows and id(e) in windows) else windows[id(e)][i] for e, desc, nulls in order])
		def compare(i, j):
			for (e, desc, nulls), a, b in zip(order, keys[i], keys[j]):
				if a is None and b is None:
					continue
				if a is None or b is None:
					first = (a is None) == (nulls == "first")
					return -1 if first else 1
				if a == b:
					continue
				r = -1 if a < b else 1
				return -r if desc else r
			return 0
		return sorted(range(len(envs)), key=functools.cmp_to_key(compare))

	def project(self, envs, items, ctes):
		return self.core(("core", None, items, None, None, None, None), ctes, {}, [], envs)

	def core(self, core, ctes, outer, order, envs=None):
		_, distinct, items, source, where, group, having = core
		if envs is None:
			envs = self.join(source, ctes, dict(outer))
			aliases = [alias for kind, table, alias, on in source]
			shape = { alias : self.relation(table, ctes).columns for kind, table, alias, on in source } \
				if any(i[0] == "*" for i in items) else {}
		else:
			aliases = list(envs[0]) if envs else []
			shape = { a : list(envs[0][a]) for a in aliases }
		if where is not None:
			envs = [e for e in envs if matches(self.eval(where, e, ctes))]

		# Expand stars
		expanded = []
		for e, name in items:
			if e == "*":
				for a in aliases:
					if name is None or a == name:
						for c in shape[a]:
							expanded.append((("column", a, c), c))
			else:
				expanded.append((e, name))
		columns = [n for e, n in expanded]

		if group is not None or any(aggregated(e) for e, n in expanded) or (having is not None):
			groups = {}
			if group:
				for env in envs:
					k = tuple(hashable(self.eval(g, env, ctes)) for g in group)
					groups.setdefault(k, []).append(env)
			else:
				groups[()] = envs
			rows = []
			out = []
			for members in groups.values():
				rep = members[0] if members else {}
				if having is not None and not matches(self.eval(having, rep, ctes, members)):
					continue
				rows.append([self.eval(e, rep, ctes, members) for e, n in expanded])
				out.append(rep)
			if order:
				perm = self.sort([dict(o, **{ "?" : dict(zip(columns, r)) }) for o, r in zip(out, rows)], order, ctes)
				rows = [rows[i] for i in perm]
			if distinct is True:
				rows = unique(rows)
			elif distinct:
				raise Unsupported("DISTINCT ON with GROUP BY")
			return Result(columns, rows)

		# Window functions
		windows = {}
		for e, n in expanded:
			if e[0] == "window":
				windows[id(e)] = self.window(e, envs, ctes)

		rows = [[windows[id(e)][i] if id(e) in windows else self.eval(e, env, ctes) for e, n in expanded] for i, env in enumerate(envs)]

		if order:
			# Names of the output come first
			outs = []
			for env, row in zip(envs, rows):
				out = {}
				for c, v in zip(columns, row):
					out.setdefault(c, v)
				outs.append(dict(env, **{ "?" : out }))
			prefer = [(("column", "?", e[2]) if e[0] == "column" and e[1] is None and e[2] in columns else e, d, n) for e, d, n in order]
			perm = self.sort(outs, prefer, ctes)
			rows, envs = [rows[i] for i in perm], [envs[i] for i in perm]
		if distinct is True:
			rows = unique(rows)
		elif distinct:
			seen, kept = set(), []
			for env, row in zip(envs, rows):
				k = tuple(hashable(self.eval(e, env, ctes)) for e in distinct)
				if not k in seen:
					seen.add(k)
					kept.append(row)
			rows = kept
		return Result(columns, rows)

	def window(self, e, envs, ctes):
		_, name, args, partition, order = e
		if not name in ("row_number", "rank", "first_value"):
			raise Unsupported("window function %s" % name)
		groups = {}
		for i, env in enumerate(envs):
			groups.setdefault(tuple(hashable(self.eval(p, env, ctes)) for p in partition), []).append(i)
		r = [None] * len(envs)
		for members in groups.values():
			perm = self.sort([envs[i] for i in members], order, ctes)
			if name == "row_number":
				for n, p in enumerate(perm):
					r[members[p]] = n + 1
			elif name == "first_value":
				v = self.eval(args[0], envs[members[perm[0]]], ctes)
				for p in perm:
					r[members[p]] = v
			else:
				keys = [[self.eval(o[0], envs[members[p]], ctes) for o in order] for p in perm]
				rank = 0
				for n, p in enumerate(perm):
					if n == 0 or keys[n] != keys[n - 1]:
						rank = n + 1
					r[members[p]] = rank
		return r

	# Expressions

	def eval(self, e, env, ctes, group=None):
		kind = e[0]
		if kind == "literal":
			return e[1]
		if kind == "column":
			return self.column(e[1], e[2], env)
		if kind == "param":
			try:
				v = self.params[e[1]]
			except (IndexError, KeyError):
				raise ProgrammingError("the query has more placeholders than parameters")
			if isinstance(v, (ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Address, ipaddress.IPv6Address)):
				return Inet(str(v))
			return v
		if kind == "now":
			return self.server.now
		if kind == "and":
			a = self.eval(e[1], env, ctes, group)
			if a is False:
				return False
			b = self.eval(e[2], env, ctes, group)
			if b is False:
				return False
			return None if a is None or b is None else True
		if kind == "or":
			a = self.eval(e[1], env, ctes, group)
			if a is True:
				return True
			b = self.eval(e[2], env, ctes, group)
			if b is True:
				return True
			return None if a is None or b is None else False
		if kind == "not":
			a = self.eval(e[1], env, ctes, group)
			return None if a is None else not a
		if kind == "isnull":
			return self.eval(e[1], env, ctes, group) is None
		if kind == "istrue":
			return self.eval(e[1], env, ctes, group) is True
		if kind == "isfalse":
			return self.eval(e[1], env, ctes, group) is False
		if kind == "distinct":
			a, b = self.eval(e[1], env, ctes, group), self.eval(e[2], env, ctes, group)
			if a is None or b is None:
				return (a is None) != (b is None)
			return not compare("=", a, b)
		if kind == "compare":
			return compare(e[1], self.eval(e[2], env, ctes, group), self.eval(e[3], env, ctes, group))
		if kind in ("any", "all"):
			a, b = self.eval(e[2], env, ctes, group), self.eval(e[3], env, ctes, group)
			if b is None:
				return None
			if not isinstance(b, (list, tuple)):
				raise ProgrammingError("op ANY/ALL (array) requires array on right side")
			r = [compare(e[1], a, x) for x in b]
			if kind == "any":
				return True if True in r else None if None in r else False
			return False if False in r else None if None in r else True
		if kind == "in":
			a = self.eval(e[1], env, ctes, group)
			if e[2][0] == "select":
				values = [r[0] for r in self.select(e[2][1], ctes, env).rows]
			else:
				values = [self.eval(x, env, ctes, group) for x in e[2][1]]
			if not values:
				return False
			r = [compare("=", a, x) for x in values]
			return True if True in r else None if None in r else False
		if kind == "op":
			return operator(e[1], self.eval(e[2], env, ctes, group), self.eval(e[3], env, ctes, group))
		if kind == "cast":
			v = self.eval(e[1], env, ctes, group)
			if e[2] == "text" and isinstance(v, (Inet, int)):
				return str(v)
			if e[2] == "cidr":
				return coerce(v, "inet")
			return coerce(v, e[2])
		if kind == "array":
			return tuple(self.eval(x, env, ctes, group) for x in e[1])
		if kind == "case":
			for c, v in e[1]:
				if matches(self.eval(c, env, ctes, group)):
					return self.eval(v, env, ctes, group)
			return self.eval(e[2], env, ctes, group)
		if kind == "scalar":
			rows = self.select(e[1], ctes, env).rows
			if len(rows) > 1:
				raise Error("more than one row returned by a subquery used as an expression")
			return rows[0][0] if rows else None
		if kind == "exists":
			return bool(self.select(e[1], ctes, env).rows)
		if kind == "call":
			return self.call(e[1], e[2], env, ctes, group)
		raise Unsupported("expression %s" % kind)

	def column(self, alias, name, env):
		if alias is not None:
			if not alias in env:
				raise ProgrammingError("missing FROM-clause entry for table %s" % alias)
			if not name in env[alias]:
				raise ProgrammingError("column %s.%s does not exist" % (alias, name))
			return env[alias][name]
		found = [a for a in env if name in env[a]]
		if len(found) > 1 and "?" in found:
			found.remove("?")
		if not found:
			raise ProgrammingError("column %s does not exist" % name)
		if len(found) > 1:
			raise ProgrammingError("column reference %s is ambiguous" % name)
		return env[found[0]][name]

	def call(self, name, args, env, ctes, group):
		if name in AGGREGATES:
			if group is None:
				raise ProgrammingError("aggregate functions are not allowed here")
			values = [self.eval(args[0], m, ctes) for m in group]
			values = [v for v in values if v is not None]
			if name == "count":
				return len(values)
			if name == "count distinct":
				return len(set(values))
			if not values:
				return None
			return { "min" : min, "max" : max, "sum" : sum, "array_agg" : tuple, "bool_or" : any, "bool_and" : all }[name](values)
		values = [self.eval(a, env, ctes, group) for a in args]
		if name == "coalesce":
			for v in values:
				if v is not None:
					return v
			return None
		if name == "nullif":
			return None if compare("=", *values) else values[0]
		if name in ("greatest", "least"):
			values = [v for v in values if v is not None]
			return (max if name == "greatest" else min)(values) if values else None
		if None in values:
			return None
		if name in ("family", "masklen", "host", "network", "set_masklen", "broadcast"):
			i = coerce(values[0], "inet")
			if name == "family":
				return i.version
			if name == "masklen":
				return i.prefix
			raise Unsupported("function %s" % name)
		if name == "upper":
			return values[0].upper()
		if name == "lower":
			return values[0].lower()
		if name in ("trim", "btrim"):
			return values[0].strip(" ")
		if name in ("length", "char_length"):
			return len(values[0])
		raise Unsupported("function %s" % name)

def adapt(a, b):
	"""
		Literals and parameters have the type of what they are compared with
	"""
	if isinstance(a, Inet) and not isinstance(b, Inet):
		b = coerce(b, "inet")
	elif isinstance(b, Inet) and not isinstance(a, Inet):
		a = coerce(a, "inet")
	elif isinstance(a, int) and isinstance(b, str):
		b = coerce(b, "bigint")
	elif isinstance(b, int) and isinstance(a, str):
		a = coerce(a, "bigint")
	elif type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
		raise ProgrammingError("operator does not exist: %r, %r" % (a, b))
	return a, b

def compare(op, a, b):
	if a is None or b is None:
		return None
	a, b = adapt(a, b)
	if op == "=":
		return a == b
	if op in ("<>", "!="):
		return not a == b
	return { "<" : a < b, ">" : a > b, "<=" : a <= b, ">=" : a >= b }[op] if not isinstance(a, Inet) else \
		{ "<" : a.compare(b) < 0, ">" : a.compare(b) > 0, "<=" : a.compare(b) <= 0, ">=" : a.compare(b) >= 0 }[op]

def operator(op, a, b):
	if a is None or b is None:
		return None
	if op in ("<<", "<<=", ">>", ">>=", "&&"):
		a, b = coerce(a, "inet"), coerce(b, "inet")
		if op == "&&":
			return a.contains(b) or b.contains(a)
		if op.startswith("<<"):
			a, b = b, a
		return a.contains(b, strictly=len(op) == 2)
	if op == "||":
		if isinstance(a, str) and isinstance(b, str):
			return a + b
		raise Unsupported("||")
	if isinstance(b, datetime.timedelta) and isinstance(a, datetime.datetime):
		return a - b if op == "-" else a + b
	a, b = adapt(a, b)
	if not isinstance(a, (int, float, datetime.datetime)):
		raise Unsupported("operator %s" % op)
	if op == "+":
		return a + b
	if op == "-":
		return a - b
	if op == "*":
		return a * b
	raise Unsupported("operator %s" % op)

def unique(rows):
	seen, r = set(), []
	for row in rows:
		k = tuple(row)
		if not k in seen:
			seen.add(k)
			r.append(row)
	return r

def index(rows, row):
	for i, r in enumerate(rows):
		if r is row:
			return i
	raise AssertionError

def remove(rows, row):
	del rows[index(rows, row)]

# The driver

class Transaction(object):
	def __init__(self, conn):
		self.conn = conn

	def __enter__(self):
		if self.conn.failed:
			raise InFailedSqlTransaction("current transaction is aborted, commands ignored until end of transaction block")
		self.mark = len(self.conn.undo)
		self.conn.depth += 1
		return self

	def __exit__(self, type, value, tb):
		conn = self.conn
		conn.depth -= 1
		failed = conn.failed
		if type is not None or failed:
			conn.rollback_to(self.mark)
			conn.failed = False
		if not conn.depth:
			conn.commit()
		if type is None and failed and conn.depth:
			raise InFailedSqlTransaction("current transaction is aborted")
		return False

class Pipeline(object):
	def __enter__(self):
		return self

	def __exit__(self, *args):
		return False

class Cursor(object):
	def __init__(self, conn):
		self.conn, self.result = conn, None

	def __enter__(self):
		return self

	def __exit__(self, *args):
		return False

	def execute(self, query, params=None, **kwargs):
		self.result = self.conn.run(query, params if params is not None else ())

	def executemany(self, query, params):
		self.conn.run_many(query, params)

	def __iter__(self):
		if self.result is None:
			raise ProgrammingError("the last operation didn't produce a result")
		for row in self.result.rows:
			yield { c : self.python(v) for c, v in zip(self.result.columns, row) }

	def fetchall(self):
		return list(self)

	def fetchone(self):
		for row in self:
			return row

	@staticmethod
	def python(v):
		if isinstance(v, Inet):
			return v.python()
		if isinstance(v, tuple):
			return list(v)
		return v

class Connection(object):
	def __init__(self, server):
		self.server = server
		self.temporary = {}
		self.undo = []
		self.depth = 0
		self.failed = False
		self.autocommit = False
		self.row_factory = None

	def cursor(self, *args, **kwargs):
		return Cursor(self)

	def transaction(self, *args, **kwargs):
		return Transaction(self)

	def pipeline(self):
		return Pipeline()

	def rollback_to(self, mark):
		while len(self.undo) > mark:
			self.undo.pop()()

	def commit(self):
		self.undo.clear()
		for name in [n for n, t in self.temporary.items() if t.drop]:
			del self.temporary[name]

	def run_many(self, query, params):
		mark = len(self.undo)
		try:
			for p in params:
				self.run(query, p, True)
		except Error:
			self.rollback_to(mark)
			raise
		if not self.depth:
			self.commit()

	def run(self, query, params, many=False):
		if self.failed:
			raise InFailedSqlTransaction("current transaction is aborted, commands ignored until end of transaction block")
		if isinstance(query, bytes):
			query = query.decode()
		mark = len(self.undo)
		try:
			if self.server.fault:
				self.server.fault(query)
			result = None
			statements = parse(query)
			if len(statements) > 1 and params:
				raise ProgrammingError("cannot insert multiple commands into a prepared statement")
			for s in statements:
				result = Executor(self, params).run(s)
		except Error:
			self.rollback_to(mark)
			if self.depth:
				self.failed = True
			raise
		if not self.depth and not many:
			self.commit()
		return result

class Pool(object):
	server = None

	def __init__(self, conninfo="", configure=None, **kwargs):
		self.configure = configure
		self.free = []

	def getconn(self, *args, **kwargs):
		if self.free:
			return self.free.pop()
		conn = Connection(Pool.server)
		if self.configure:
			self.configure(conn)
		return conn

	def putconn(self, conn):
		self.free.append(conn)

	def open(self, *args, **kwargs):
		pass

	def close(self, *args, **kwargs):
		pass

def install():
	"""
		Takes the place of the driver
	"""
	psycopg = types.ModuleType("psycopg")
	psycopg.rows = types.ModuleType("psycopg.rows")
	psycopg.rows.dict_row = object()
	psycopg.errors = types.ModuleType("psycopg.errors")
	for e in (Error, DataError, IntegrityError, ProgrammingError):
		setattr(psycopg, e.__name__, e)
		setattr(psycopg.errors, e.__name__, e)
	pool = types.ModuleType("psycopg_pool")
	pool.ConnectionPool = Pool
	sys.modules.update({ "psycopg" : psycopg, "psycopg.rows" : psycopg.rows, "psycopg.errors" : psycopg.errors, "psycopg_pool" : pool })
