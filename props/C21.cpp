// DNS version discovery parses any reply safely and exactly
#include "loc.hpp"
#include <arpa/nameser.h>
#include <netdb.h>
#include <resolv.h>
extern "C" {
#include <libloc/resolv.h>
}

// What the resolver will answer
static std::string reply;      // what lies in the buffer
static int reply_length;       // what is said to be its length
static bool reply_fails;
static std::string asked;
static int asked_class, asked_type, queries;

static int answer_query(const char* name, int cls, int type, unsigned char* answer, int length) {
	asked = name;
	asked_class = cls;
	asked_type = type;
	queries++;
	if (reply_fails) {
		h_errno = TRY_AGAIN;
		return -1;
	}
	memcpy(answer, reply.data(), std::min<size_t>(reply.size(), length));
	return reply_length;
}

extern "C" {
int __wrap_res_query(const char* n, int c, int t, unsigned char* a, int l) { return answer_query(n, c, t, a, l); }
int __wrap___res_query(const char* n, int c, int t, unsigned char* a, int l) { return answer_query(n, c, t, a, l); }
int __wrap_res_search(const char* n, int c, int t, unsigned char* a, int l) { return answer_query(n, c, t, a, l); }
int __wrap_res_nquery(res_state, const char* n, int c, int t, unsigned char* a, int l) { return answer_query(n, c, t, a, l); }
int __wrap_res_nsearch(res_state, const char* n, int c, int t, unsigned char* a, int l) { return answer_query(n, c, t, a, l); }
int __wrap___res_init(void) { return 0; }
int __wrap_res_init(void) { return 0; }
int __wrap___res_ninit(res_state) { return 0; }
int __wrap_res_ninit(res_state) { return 0; }
}

static void put16(std::string& b, unsigned v) { b += (char)(v >> 8); b += (char)v; }

static std::string wire_name(const std::string& dotted) {
	std::string r, label;
	for (size_t i = 0; i <= dotted.size(); i++) {
		if (i == dotted.size() || dotted[i] == '.') {
			if (!label.empty()) { r += (char)label.size(); r += label; }
			label.clear();
		} else {
			label += dotted[i];
		}
	}
	r += '\0';
	return r;
}

static std::string gen_wire_name(pbt::Src& s, size_t max) {
	std::string r;
	size_t total = 1;
	for (size_t i = 0, n = 1 + s.choose(s.chance(20) ? 20 : 4); i < n; i++) {
		size_t l = 1 + s.choose(s.chance(20) ? 63 : 12);
		if (total + l + 1 > std::min<size_t>(max, 255))
			break;
		r += (char)l;
		for (size_t j = 0; j < l; j++) r += (char)('a' + s.choose(26));
		total += l + 1;
	}
	r += '\0';
	return r;
}

static void append_rr(std::string& b, const std::string& name, unsigned type, const std::string& rdata, int size = -1) {
	b += name;
	put16(b, type);
	put16(b, 1);
	put16(b, 0); put16(b, 300);
	put16(b, size >= 0 ? size : rdata.size());
	b += rdata;
}

static std::string format_date(time_t t) {
	static const char* days[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
	static const char* months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
	struct tm tm;
	gmtime_r(&t, &tm);
	return pbt::fmt("%s, %02d %s %04d %02d:%02d:%02d GMT", days[tm.tm_wday], tm.tm_mday, months[tm.tm_mon], 1900 + tm.tm_year, tm.tm_hour, tm.tm_min, tm.tm_sec);
}

static void property(pbt::Src& s) {
	Ctx c;
	static const char* zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "JST-9", "XXX-13:45" };
	setenv("TZ", zones[s.choose(4)], 1);
	tzset();

	const unsigned version = s.chance(90) ? 1 : (unsigned)s.choose(1ull << 32);
	const std::string domain = pbt::fmt("_v%u._db.location.ipfire.org", version);
	const time_t t = s.chance(80) ? 1500000000 + s.choose(1000000000) : s.choose(253402300799ull);
	std::string text = format_date(t);

	enum { GOOD, BAD, UNKNOWN } expect = GOOD;
	const unsigned kind = s.pick({10, 6, 3, 5, 3, 1, 4});

	// The text is not a date
	if (kind == 1) {
		expect = BAD;
		switch (s.choose(9)) {
			case 0: text.resize(s.choose(text.size())); break;
			case 1: text += "."; break;
			case 2: text.replace(8, 3, "Foo"); break;
			case 3: text.replace(17, 2, "25"); break;
			case 4: text.replace(5, 2, s.coin() ? "32" : "00"); break;
			case 5: text.replace(20, 2, "60"); break;
			case 6: text[s.choose(text.size())] = "#\x80!\x01"[s.choose(4)]; break;
			case 7: text = "0"; break;
			default: text.insert(0, "x"); break;
		}
		s.label("not a date");
	}

	std::string question = wire_name(domain);
	std::string b;
	put16(b, s.choose(65536)); put16(b, 0x8180); put16(b, 1); put16(b, 1); put16(b, 0); put16(b, 0);
	b += question;
	put16(b, T_TXT);
	put16(b, 1);
	const std::string pointer = "\xc0\x0c";

	// CNAMEs, as many as there are
	std::string owner = s.coin() ? pointer : question;
	const size_t room = 512 - (2 + 10 + 1 + text.size());
	size_t cnames = s.chance(50) ? s.choose(4) : 0;
	for (size_t i = 0; i < cnames; i++) {
		if (b.size() + owner.size() + 10 + 40 > room)
			break;
		size_t max = std::min<size_t>(255, (room - b.size() - owner.size() - 10) / 2);
		std::string target = gen_wire_name(s, max);
		if (b.size() + owner.size() + 10 + target.size() + target.size() > room)
			break;
		size_t at = b.size() + owner.size() + 10;
		append_rr(b, owner, T_CNAME, target);
		owner = target;
		if (s.coin()) { owner.clear(); owner += (char)(0xc0 | at >> 8); owner += (char)at; }
		s.label("CNAME");
	}
	// Make it end exactly with the buffer
	if (s.chance(15)) {
		size_t rest = 512 - b.size() - owner.size() - 10 - 1 - text.size();
		// owner + 10 + name, then a pointer instead of the owner
		size_t need = owner.size() + 10, at = b.size() + owner.size() + 10;
		if (512 - b.size() >= need + 2 + 10 + 1 + text.size() + 3) {
			size_t len = 512 - b.size() - need - 2 - 10 - 1 - text.size();
			if (len >= 3 && len <= 255) {
				std::string target;
				while (target.size() + 1 < len) {
					size_t l = std::min<size_t>(63, len - target.size() - 2);
					if (len - target.size() - 2 - l == 1) l--;
					if (!l) break;
					target += (char)l;
					target += std::string(l, 'x');
				}
				target += '\0';
				append_rr(b, owner, T_CNAME, target);
				owner.clear(); owner += (char)(0xc0 | at >> 8); owner += (char)at;
			}
		}
		s.label("padded");
	}

	std::string rdata(1, (char)text.size());
	rdata += text;
	unsigned type = T_TXT;
	int size = -1;

	// The record is something else
	if (kind == 2) {
		expect = BAD;
		switch (s.choose(5)) {
			case 0: type = s.coin() ? T_A : s.coin() ? T_SOA : T_AAAA; break;
			case 1: rdata.clear(); break;
			case 2: rdata = std::string(1, '\0'); break;
			case 3: rdata[0] = (char)(rdata.size() + s.choose(200 - rdata.size())); break;
			default: size = rdata.size() + 1 + s.choose(s.coin() ? 4 : 60000); break;
		}
		s.label("not such a record");
	}
	append_rr(b, owner, type, rdata, size);

	reply = b;
	reply_length = b.size();
	reply_fails = false;

	// Anything may follow: authority, additional
	if (kind == 0 && s.chance(20) && b.size() < 450) {
		append_rr(reply, pointer, T_A, "\x7f\1\1\1");
		reply_length = reply.size();
	}
	// Cut short, with the rest still lying in the buffer
	if (kind == 3) {
		expect = BAD;
		reply_length = s.choose(b.size());
		if (s.coin()) reply.resize(reply_length);
		s.label("cut short");
	}
	// Random damage: anything may come out, but safely
	if (kind == 4 || kind == 6) {
		expect = UNKNOWN;
		for (size_t i = 0, n = 1 + s.choose(8); i < n; i++)
			reply[s.choose(reply.size())] = (char)s.choose(256);
		if (kind == 6) {
			if (s.coin()) reply.resize(s.choose(600));
			for (size_t i = 12; i < reply.size(); i++)
				if (s.chance(30)) reply[i] = s.coin() ? 0xc0 : (char)s.choose(256);
			reply_length = reply.size();
		}
		if (s.chance(20)) { reply.resize(512, (char)s.choose(256)); reply_length = s.coin() ? 512 : 400 + s.choose(70000); }
		s.label("damaged");
	}
	if (kind == 5) {
		expect = BAD;
		reply_fails = true;
		s.label("no reply");
	}

	s.say("%zu bytes (of %d), %zu CNAMEs, text \"%s\" %s", reply.size(), reply_length, cnames, text.c_str(), expect == GOOD ? "good" : expect == BAD ? "bad" : "damaged");
	queries = 0;
	time_t got = 4711;
	int r = loc_discover_latest_version(c.ctx, version, &got);
	CHECK(queries, "no query was sent");
	CHECK(asked == domain || asked == domain + ".", "%s was asked for instead of %s", asked.c_str(), domain.c_str());
	CHECK(asked_class == C_IN && asked_type == T_TXT, "the query was for class %d type %d", asked_class, asked_type);
	if (expect == GOOD) {
		CHECK(r == 0, "a good reply with \"%s\" (%d bytes) was refused: %d", text.c_str(), reply_length, r);
		CHECK(got == t, "\"%s\" was read as %ld instead of %ld", text.c_str(), (long)got, (long)t);
		if (cnames) s.nontrivial();
		s.label("good");
		if (reply_length == 512) s.label("fills the buffer");
	} else if (expect == BAD) {
		CHECK(r != 0, "a bad reply with \"%s\" (%d bytes of %zu) was accepted as %ld", text.c_str(), reply_length, b.size(), (long)got);
		s.nontrivial();
	}
}

int main(int argc, char** argv) {
	static const pbt::Property p = { "C21",
		"the resolver is replaced by one that gives generated replies: dates of all times in several time zones, behind 0-4 CNAMEs with names of any length, compressed or not, filling the buffer exactly; text that is not a date; records that are not TXT or lie about their length; replies cut short while the rest still lies in the buffer; random damage; no reply at all; "
		"non-trivial: a good reply with CNAMEs, or a bad reply", property };
	return pbt::pbt_main(argc, argv, p);
}
