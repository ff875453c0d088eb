// Seed -> plan.  A plan is a text schedule: data sets, faults, queries and the
// interleaving of their steps; executing it draws no further randomness.
#include "world.h"
#include <algorithm>
#include <cinttypes>

struct Prof {
	const char *name;
	unsigned fmin, fmax, omin, omax;	// data files, observations per file
	unsigned fences, unagg, offs, limits;	// percent of queries
	unsigned wild, typed, bailed;
	unsigned reload, merge, corrupt, scan, single;	// percent weights of steps / features
	unsigned ip, raw, trver;		// percent of queries of these kinds
	unsigned steps;				// steps of interleaving
	unsigned stall;				// percent of runs with storage stalls
	bool index_heavy, ip_heavy, abandon;
	Checks ck;
	unsigned cli = 0, dump = 15;		// percent of steps that run a command, of those that are dumps
	unsigned hist = 0;			// percent of queries whose setters were told something else before
	bool cmd = false;			// merges go through the dnstable_merge command
};
static Checks C(const char *s)
{
	Checks c;
	std::string x = s;
	auto h = [&](const char *k) { return x.find(k) != std::string::npos; };
	c.answers = h("answers"); c.order = h("order"); c.timeouts = h("timeouts"); c.offset = h("offset"); c.leaks = h("leaks");
	c.stats = h("stats"); c.filter = h("filter"); c.persist = h("persist"); c.reload = h("reload"); c.format = h("format"); c.setters = h("setters");
	return c;
}
static const std::vector<Prof> &profs()
{
	static const std::vector<Prof> v = {
	//        files  obs    fenc una off lim  wild typ bail rel mrg cor scan sgl ip raw tv steps stall
	{"agg",     1, 5, 1, 12,  0,  0,  0,  0,  50, 40, 25,  5,  0,  0,  0, 25, 10, 10, 5, 40, 20, false, false, false, C("answers filter")},
	{"merge",   2, 6, 1, 10,  0,  0,  0,  0,  40, 30, 20, 15, 100, 0, 25, 10,  5,  5, 10, 40, 10, false, false, false, C("answers")},
	{"unagg",   2, 6, 1, 10, 20,100,  0,  0,  45, 40, 20,  5, 20,  0,  0, 10, 10, 10, 5, 40, 20, false, false, false, C("answers order filter")},
	{"fence",   1, 6, 1, 12,100, 20,  0,  0,  45, 35, 20,  5, 15,  0,  0, 20, 10, 10, 0, 40, 15, false, false, false, C("answers filter")},
	{"limit",   1, 4, 1, 12, 30, 25, 15, 85,  50, 35, 20,  5,  0,  0,  0, 20, 10, 10, 3, 50, 70, false, false, false, C("answers timeouts")},
	{"offset",  1, 5, 2, 12, 30, 35, 85,  0,  50, 35, 20,  5,  0,  0,  0, 20, 10, 10, 0, 40, 15, false, false, false, C("answers offset")},
	{"reload",  1, 6, 1, 10, 30, 20, 10, 10,  45, 35, 20, 30, 20,  0, 20,  5, 10, 10, 5, 60, 15, false, false, false, C("answers persist reload")},
	{"corrupt", 1, 4, 2, 12, 20, 25,  0,  0,  55, 45, 25,  5, 10,100, 15, 25, 10, 15, 0, 40,  0, true,  false, false, C("answers")},
	{"abandon", 1, 5, 1, 12, 40, 35, 25, 35,  55, 45, 25, 15, 10, 10, 15, 20, 10, 10, 5, 50, 40, false, false, true,  C("leaks")},
	{"stats",   1, 5, 1, 12, 50, 15, 30,  0,  50, 40, 25,  3,  0,  0,  0, 40, 10, 10, 0, 40, 10, false, false, false, C("stats answers")},
	{"scan",    1, 5, 1, 10,  0,  0,  0,  0,  50, 30, 20, 10, 15,  0, 70, 15,  5,  5, 15, 40, 10, false, false, false, C("answers format persist")},
	{"ip",      1, 4, 2, 12, 15, 20,  0,  0,  10, 10,  0,  5,  0,  0,  0, 25, 90,  3, 0, 40, 10, false, true,  false, C("answers filter")},
	{"lookup",  1, 4, 1, 10, 40, 15, 25,  0,  45, 35, 20, 10, 10, 10,  0,  0, 10, 10, 8, 12, 30, false, false, false, C("answers"), 80},
	{"dump",    1, 4, 1, 10, 40, 15, 25,  0,  45, 35, 20, 10, 10, 10,  0,  0, 10, 10, 8, 12, 30, false, false, false, C("answers"), 80, 90},
	{"params",  1, 4, 1, 10, 35, 25, 20,  8,  50, 45, 30,  3,  0,  0,  0, 25, 20, 12, 8, 45, 10, false, false, false, C("answers filter setters"), 0, 15, 70},
	{"mergecmd",2, 6, 1, 10,  0, 10,  0,  0,  40, 30, 20, 15,100,  0, 25, 10,  5,  5, 10, 12,  0, false, false, false, C("answers"), 0, 0, 0, true},
	{"index",   1, 6, 2, 14,  0, 10,  0,  0,  90, 80,  0,  5, 35,  0, 10, 20,  0,  0, 0, 40, 10, true,  false, false, C("answers")},
	};
	return v;
}
static const Prof &prof(const std::string &n)
{
	for (auto &p : profs()) if (n == p.name) return p;
	fprintf(stderr, "unknown profile %s\n", n.c_str());
	exit(2);
}
Checks checks_for(const std::string &n) { return prof(n).ck; }

namespace {
struct Obs { std::string name, bail; uint16_t type; std::vector<std::string> rd; uint64_t tf, tl, n; };
struct Gen {
	const Prof &P; Rng r; Plan p;
	std::vector<std::string> labs; std::vector<std::vector<std::string>> names;
	std::vector<uint64_t> times; bool zero_tl = false, nsec = false, rooted = false, many_types = false;
	bool may_corrupt = true, bad_vals = false; std::string bulk_name; unsigned bulk_kind = 0;
	bool eras = false; uint64_t era_lo = 0, era_hi = 0;	// each file sees one stretch of time only
	std::vector<Obs> all; std::vector<uint16_t> types;
	std::vector<std::string> ips4, ips6;
	unsigned nq = 0, ni = 0, nf = 0;
	std::vector<std::string> files, readers; std::map<std::string, std::string> rset;
	Gen(const Prof &P_, uint64_t seed) : P(P_), r(seed) {}

	bool pct(unsigned x) { return r.below(100) < x; }
	template <class... A> void add(const char *f, A... a) { char b[4096]; snprintf(b, sizeof b, f, a...); p.push_back(b); }

	void universe()
	{
		static const std::vector<std::string> pool = {"a", "b", "c", "ab", "abc", "aa", "b-c", "com", "net", "example", "www", "x", "zz", "A", "Ab", "*", "+",
			std::string("\0", 1), "\xff", "a\xff", std::string("a\0", 2), "\x01", "1", "\xff\xff", "_tcp", "a.b", "x\x01*", "\x01+", std::string(63, 'q'), std::string(40, 'w')};
		unsigned n = r.range(2, 7);
		for (unsigned i = 0; i < n; i++) labs.push_back(pool[pct(75) ? r.below(15) : r.below(pool.size())]);
		nsec = pct(25); rooted = pct(10);
		many_types = !P.corrupt && !P.cli && pct(P.index_heavy ? 5 : 2);
		// the names of NSEC records are not in the left-wildcard index
		if (nsec) for (auto &l : labs) if (l == "*" || l == "+") l = "a";
		unsigned nn = r.range(2, 9);
		for (unsigned i = 0; i < nn; i++) {
			std::vector<std::string> nm;
			if (!names.empty() && pct(55)) {
				nm = r.pick(names);
				if (pct(70)) nm.insert(nm.begin(), r.pick(labs));
				else if (pct(50)) nm.push_back(r.pick(labs));
				else nm[r.below(nm.size())] = r.pick(labs);
			} else {
				unsigned d = r.range(1, 4);
				while (d--) nm.push_back(r.pick(labs));
			}
			if (dns::wire(nm).size() > 200 || nm.empty()) { nm = {"a", "com"}; }
			if (!P.cli && pct(3)) {		// as long as a name can be, or nearly
				unsigned want = 255 - (pct(50) ? 0 : r.below(4));
				if (!P.corrupt && pct(30)) while (dns::wire(nm).size() + 2 <= want) {	// (a key of such a name, cut, can read as another)
					 static const std::string one[] = {"a", "z", std::string(1, '\0'), "\xff", "*", "+"}; nm.insert(nm.begin(), one[r.below(nsec ? 4 : 6)]); }
				for (size_t l; (l = dns::wire(nm).size()) + 2 <= want;) { size_t n = std::min<size_t>(63, want - l - 1); if (n != want - l - 1 && want - l - 1 - n < 2) n -= 2; nm.insert(nm.begin(), std::string(n, pct(50) ? 'l' : pct(50) ? 'M' : '\xee')); }
			}
			names.push_back(nm);
		}
		static const std::vector<uint64_t> tp = {1, 2, 100, 127, 128, 129, 1000, 16383, 16384, 1000000, 1600000000, 1600000001, 4294967295ULL, 4294967296ULL, 1ULL << 40, 253402300799ULL};
		unsigned nt = r.range(2, 6);
		for (unsigned i = 0; i < nt; i++) times.push_back(r.pick(tp));
		zero_tl = P.fences == 0 && pct(10);
		eras = P.fences >= 50 && pct(60);
		if (eras) {
			times.clear();
			uint64_t t = r.pick(tp);
			unsigned k = r.range(3, 6);
			for (unsigned i = 0; i < k; i++) { times.push_back(t); t += pct(50) ? r.range(1, 4) : 1ULL << r.range(2, 30); }
		}
		else if (!P.cli && pct(12)) { static const std::vector<uint64_t> far = {253402300800ULL, 1ULL << 56, 1ULL << 57, 1ULL << 63}; times.push_back(r.pick(far)); }
		bad_vals = P.corrupt >= 50 && pct(50);	// which bound the times of an unreadable value break is not specified
		if (P.cli) may_corrupt = pct(40);	// what an offset into damaged data skips is not specified
		if (P.cli) for (auto &t : times) if (t > 253402300000ULL) t = 1600000000 + t % 1000;	// years of four digits
		static const std::vector<uint16_t> T = {1, 1, 28, 2, 5, 15, 16, 12, 33, 6, 65, 64, 39, 257, 10, 43, 32769, 65280, 300, 99, 128, 200, 246, 16384, 127, 256, 65535};
		unsigned ty = r.range(1, 6);
		for (unsigned i = 0; i < ty; i++) types.push_back(r.pick(T));
		if (P.ip_heavy) { types = {1, 28, 16, 10}; if (pct(50)) types.push_back(2); }
		if (P.index_heavy) for (int i = 0; i < 2; i++) { static const std::vector<uint16_t> R = {2, 5, 12, 15, 33, 6, 39, 64, 65}; types.push_back(r.pick(R)); }
		static const std::vector<std::string> h4 = {"00000000", "ffffffff", "0a000001", "0a000000", "0a0000ff", "0a0000fe", "0a000100", "0affffff", "c0a80101", "7f000001", "80000000", "7fffffff", "09ffffff", "01610000"};
		static const std::vector<std::string> h6 = {"00000000000000000000000000000000", "ffffffffffffffffffffffffffffffff", "20010db8000000000000000000000001", "20010db8000000000000000000000000", "20010db80000000000000000000000ff",
			"20010db8ffffffffffffffffffffffff", "20010db7ffffffffffffffffffffffff", "20010db8000000010000000000000000", "0a000001000000000000000000000000", "0a000001010000000000000000000001"};
		for (int i = 0; i < 5; i++) { std::string x; dns::unhex(r.pick(h4), x); ips4.push_back(x); dns::unhex(r.pick(h6), x); ips6.push_back(x); }
	}
	// a rdata name is never the root, "*" or "+" alone: their stored form is ambiguous
	std::string rdname() { auto &n = r.pick(names); if (n.size() == 1 && (n[0] == "*" || n[0] == "+")) return dns::wire({"ns", "com"}); return dns::wire(n); }
	std::string u16s(unsigned v) { std::string s; s += (char)(v >> 8); s += (char)v; return s; }
	std::string rdata(uint16_t t)
	{
		switch (t) {
		case 1: return r.pick(ips4);
		case 28: return r.pick(ips6);
		case 2: case 5: case 12: case 39: return rdname();
		case 15: return u16s(r.below(4) * 85) + rdname();
		case 33: return u16s(r.below(3)) + u16s(r.below(3) * 5) + u16s(r.below(3) * 200) + rdname();
		case 64: case 65: { std::string s = u16s(r.below(3)) + rdname(); if (pct(50)) s += u16s(1) + u16s(3) + std::string("\x02h2", 3); return s; }
		case 6: return rdname() + rdname() + std::string(20, (char)r.below(3));
		case 47: return rdname() + std::string("\0\x01\x40", 3);
		case 16: case 99: {
			if (P.ip_heavy && pct(60)) {		// bytes that collide with addresses
				std::string s = pct(50) ? r.pick(ips4) : r.pick(ips6).substr(0, r.range(1, 15));
				return s;
			}
			std::string s; unsigned k = r.range(1, 2); bool big = pct(2); if (big) k = r.range(1, 9);
			while (k--) { unsigned l = big ? 255 - (pct(50) ? 0 : r.below(255)) : r.below(6); s += (char)l; for (unsigned i = 0; i < l; i++) s += "ab\"\\ \x01\xff" [r.below(7)]; }
			return s;
		}
		default: {
			if (pct(30)) return r.pick(ips4);
			if (pct(30)) return r.pick(ips6);
			if (pct(30)) return rdname();			// looks like a name, is not one
			unsigned l = pct(98) ? r.below(5) : r.chance(1, 40) ? (pct(50) ? r.range(16370, 16390) : r.range(20000, 65000)) : r.range(120, 700); std::string s;
			for (unsigned i = 0; i < l; i++) s += (char)(pct(50) ? r.below(3) : 253 + r.below(3));
			return s;
		}
		}
	}
	uint64_t count() { return pct(70) ? r.range(1, 3) : pct(50) ? r.range(100, 40000) : pct(50) ? (1ULL << r.range(30, 45)) : 127 + r.below(3); }
	void observe(const std::string &f)
	{
		Obs o;
		if (!all.empty() && pct(eras ? 70 : 45)) { o = r.pick(all); if (pct(25)) o.bail = ""; }
		else {
			o.name = rooted && pct(15) ? std::string(1, '\0') : dns::wire(r.pick(names)); o.type = nsec && pct(20) ? 47 : r.pick(types);
			unsigned k = pct(75) ? 1 : pct(96) ? r.range(2, 4) : !P.cli && pct(4) ? r.range(250, 400) : r.range(5, 40);
			while (k--) o.rd.push_back(rdata(o.type));
			std::sort(o.rd.begin(), o.rd.end());
			o.rd.erase(std::unique(o.rd.begin(), o.rd.end()), o.rd.end());
		}
		if (o.bail.empty()) {
			std::vector<std::string> l; dns::labels(o.name, l);
			unsigned d = pct(60) ? r.below(2) : r.below(l.size() + 1);
			o.bail = dns::wire(std::vector<std::string>(l.begin() + std::min<size_t>(d, l.size()), l.end()));
		}
		o.tf = r.pick(times); o.tl = r.pick(times);
		if (eras) { o.tf = era_lo + r.below(era_hi - era_lo + 1); o.tl = era_lo + r.below(era_hi - era_lo + 1); if (pct(20)) o.tf = era_lo; if (pct(20)) o.tl = era_hi; }
		else if (pct(30)) o.tf += r.below(3);
		if (o.tl < o.tf) std::swap(o.tf, o.tl);
		o.n = count();
		if (zero_tl && pct(30)) { o.tl = 0; if (pct(50)) o.tf = 0; if (pct(30)) o.n = 0; }
		all.push_back(o);
		std::string s = "obs " + f + " " + std::to_string(o.tf) + " " + std::to_string(o.tl) + " " + std::to_string(o.n) + " " + esc(o.name) + " " + dns::type_str(o.type) + " " + esc(o.bail);
		for (auto &x : o.rd) s += " " + (x.empty() ? std::string("-") : dns::hex(x));
		p.push_back(s);
	}
	std::string esc(const std::string &w) { return dns::to_str(w); }
	// A record whose raw bytes read as an address, a type and the start of an owner label that
	// runs past the key; and address rows whose first reversed label is near the padded label.
	void collide(const std::string &f)
	{
		bool v6 = pct(40);
		std::string ip = v6 ? r.pick(ips6) : r.pick(ips4), x;
		unsigned L = pct(80) ? r.range(2, 40) : 63, have = r.below(std::min(L, 6u));
		std::string tail; for (unsigned i = 0; i < have; i++) tail += (char)(pct(50) ? 'a' + r.below(4) : r.below(256));
		x = ip + std::string(1, (char)(v6 ? 28 : 1)) + std::string(1, (char)L) + tail;
		if (pct(15)) x = x.substr(0, ip.size() + r.below(3));
		static const std::vector<uint16_t> nt = {10, 10, 16, 65280, 300, 99};
		uint16_t t = r.pick(nt);
		std::string owner = dns::wire(pct(50) ? std::vector<std::string>{"x"} : r.pick(names));
		auto emit = [&](const std::string &own, uint16_t type, const std::string &rd) {
			Obs o; o.name = own; o.type = type; o.rd = {rd}; o.tf = r.pick(times); o.tl = o.tf + r.below(3); o.n = count();
			std::vector<std::string> l; dns::labels(own, l);
			o.bail = dns::wire(std::vector<std::string>(l.begin() + (l.empty() ? 0 : 1), l.end()));
			all.push_back(o);
			p.push_back("obs " + f + " " + std::to_string(o.tf) + " " + std::to_string(o.tl) + " " + std::to_string(o.n) + " " + esc(o.name) + " " + dns::type_str(o.type) + " " + esc(o.bail) + " " + dns::hex(rd));
		};
		emit(owner, t, x);
		// the bytes the stored key really has after the address and type
		std::string rest = tail, tv;
		unsigned tt = t; while (tt >= 128) { tv += (char)(tt | 0x80); tt >>= 7; } tv += (char)tt;
		rest += tv + dns::reverse(owner) + std::string(1, (char)x.size()) + std::string(1, '\0');
		unsigned k = r.range(1, 3);
		while (k--) {
			std::string lab = rest.substr(0, L);
			char padc = pct(50) ? 'a' : pct(50) ? '\0' : (char)r.below(256);
			if (lab.size() < L) lab += std::string(L - lab.size(), padc);
			if (pct(30) && !lab.empty()) lab[r.below(lab.size())] = (char)(pct(50) ? 0 : r.below(256));
			if (pct(20)) lab.resize(r.range(1, lab.size()));
			std::vector<std::string> own; if (pct(50)) own.push_back(r.pick(labs)); own.push_back(lab);
			for (auto &l : own) l = dns::down(l);
			emit(dns::wire(own), v6 ? 28 : 1, pct(85) ? ip : v6 ? r.pick(ips6) : r.pick(ips4));
		}
	}
	std::string newfile()
	{
		std::string f = "F" + std::to_string(nf++);
		if (pct(15)) add("legacy %s", f.c_str());
		unsigned n = r.range(P.omin, P.omax);
		if (eras) {
			unsigned a = r.below(times.size() - 1), b = pct(85) ? a + 1 : r.range(a + 1, times.size() - 1);
			era_lo = times[a]; era_hi = times[b];
			if (pct(50) && era_hi > era_lo + 1) { era_hi--; if (pct(50) && era_hi > era_lo + 1) era_lo++; }
		}
		if (pct(5)) n = 0;
		for (unsigned i = 0; i < n; i++) observe(f);
		if (P.ip_heavy && pct(50)) collide(f);
		if (many_types && pct(75)) {
			uint64_t a = r.pick(times), b = r.pick(times); if (b < a) std::swap(a, b); if (eras) a = b = era_lo;
			unsigned w0 = pct(30) ? 1 : r.below(230);
			add("obstypes %s %" PRIu64 " %" PRIu64 " %" PRIu64 " %s %u %u %u", f.c_str(), a, b, count(), esc(dns::wire(names[0])).c_str(), w0, (unsigned)(pct(10) ? 255 : r.range(1, 40)), (unsigned)(pct(60) ? 255 : r.below(256)));
		}
		if (!P.corrupt && !P.cli && P.limits < 80 ? bulk_name.empty() && r.chance(1, 120) : (P.cli || P.limits >= 80) && bulk_name.empty() && pct(P.cli ? 20 : 6)) {
			bulk_name = dns::wire(r.pick(names));
			uint64_t a = r.pick(times), b = r.pick(times); if (b < a) std::swap(a, b);
			if (!P.cli) { bulk_kind = r.below(4); if (bulk_kind == 2 && nsec) bulk_kind = 0; }
			if (bulk_name.size() >= 100) bulk_name.clear(); else add("bulk %s %u %s %" PRIu64 " %" PRIu64 " %u", f.c_str(), (unsigned)r.range(100, 500), esc(bulk_name).c_str(), a, b, bulk_kind);
		}
		if (pct(25)) add("src %s %s", f.c_str(), (pct(80) ? std::string(pct(50) ? "sensor-a" : "b/1") : std::string(r.range(100, 700), 'x')).c_str());
		if (pct(40)) for (unsigned t = 0; t < 4; t++) if (pct(60)) { if (pct(10)) add("ver %s %u -", f.c_str(), t); else add("ver %s %u %u", f.c_str(), t, pct(85) ? (unsigned)r.below(4) : pct(50) ? 126 + (unsigned)r.below(4) : 4294967295U - (unsigned)r.below(2)); }
		if (P.corrupt && may_corrupt && pct(P.corrupt)) corrupt(f);
		add("put %s", f.c_str());
		files.push_back(f);
		return f;
	}
	static std::string varint(uint64_t v) { std::string s; while (v >= 128) { s += (char)(v | 0x80); v >>= 7; } s += (char)v; return s; }
	// could this rdata key be read as an entry?
	static bool readable(const std::string &k)
	{
		if (k.size() < 3) return false;
		size_t n = (uint8_t)k[k.size() - 2] | (uint8_t)k[k.size() - 1] << 8, end = k.size() - 2, i = 1 + n;
		if (i > end) return false;
		while (i < end && (k[i] & 0x80)) i++;
		i++;
		while (i < end && k[i]) i += 1 + (uint8_t)k[i];
		return i < end;
	}
	// entries no correct writer produces and no reader may make sense of
	void corrupt(const std::string &f)
	{
		if (bad_vals && pct(60))
			for (unsigned i = r.range(1, 4); i--;) {
				unsigned w = r.below(10);
				add("badval %s %s %u %u", f.c_str(), w < 4 ? "rr" : w < 8 ? "rd" : w == 8 ? "tr" : "ver", w == 9 ? r.below(4) : r.below(1000), r.below(6));
			}
		unsigned n = r.range(1, 5);
		while (n--) {
			std::string k, v = varint(5) + varint(6) + varint(1);
			std::string nm = all.empty() ? dns::wire({"a", "com"}) : r.pick(all).name;
			std::string rev = dns::reverse(nm);
			std::vector<std::string> ls; dns::labels(rev, ls);
			switch (r.below(18)) {
			case 15: case 16: case 17: {	// an index key that holds no name
				bool fwd = pct(55); const Obs *o = all.empty() ? nullptr : &r.pick(all);
				std::string w = nm;
				if (!fwd && o && rdname_type(o->type)) { std::string d = o->rd[0].substr(slice_off(o->type)); size_t i = 0; while (i < d.size() && d[i]) i += 1 + (uint8_t)d[i]; if (i < d.size()) w = d.substr(0, i + 1); }
				if (!fwd) w = dns::reverse(w);
				unsigned how = r.below(5);
				if (how == 0) w = w.substr(0, r.below(w.size()));
				else if (how == 1) w += std::string(r.range(1, 3), pct(50) ? '\0' : 'a');
				else if (how == 2) w[0] = (char)r.range(64, 255);
				else if (how == 3) { w.pop_back(); w += (char)r.range(64, 255); w += "abc"; }
				else { w.pop_back(); w += (char)r.range(4, 63); w += "abc"; }
				k = (fwd ? "\x01" : "\x03") + w;
				v = pct(40) ? "" : pct(50) ? std::string("\0\x01\xff", 3) : std::string(r.below(4), (char)r.below(256));
				break;
			}
			case 0: k = std::string("\0", 1) + rev.substr(0, rev.size() - 1); break;			// name cut before its end
			case 1: k = std::string("\0", 1) + rev; break;							// no type
			case 2: k = std::string("\0", 1) + rev + std::string(r.range(1, 4), '\x80'); break;		// type runs off the end
			case 3: k = std::string("\0", 1) + rev + varint(1) + rev.substr(0, rev.size() - 1); break;	// bailiwick cut
			case 4: k = std::string("\0", 1) + rev + varint(1) + rev + varint(r.range(3, 300)) + "\x01"; break;	// record data cut
			case 5: k = std::string("\0", 1) + rev + varint(1) + rev + std::string(r.range(1, 3), '\xff'); break;
			case 6: k = std::string("\x02") + std::string("\x0a\0\0\x01", 4) + varint(1) + rev + std::string(1, (char)r.range(200, 255)) + "\xff"; break;	// length beyond the entry
			case 7: k = std::string("\x02", 1) + std::string(r.below(3), '\x01'); break;
			case 8: k = std::string("\x02") + dns::wire(r.pick(names)) + std::string(r.range(1, 3), '\x80'); { std::string w = k; unsigned l = w.size() - 1; k += (char)l; k += '\0'; } break;	// no type at all
			case 9: {	// a well-formed key whose value is cut short
				k = std::string("\0", 1) + rev + varint(16) + dns::wire(std::vector<std::string>(ls.rbegin(), ls.rend())) + varint(9) + std::string("\x08zzzzzz", 7) + std::string(1, (char)r.below(256)) + "k";
				unsigned w = r.below(4);
				v = w == 0 ? "" : w == 1 ? varint(5) : w == 2 ? varint(5) + varint(6) : varint(5) + varint(6) + "\x80";
				break;
			}
			case 10: {
				std::string rd = "\xc8\xc8\xc8" + std::string(1, (char)r.below(256));
				k = "\x02" + rd + varint(1) + rev + std::string("\x04\0", 2);
				unsigned w = r.below(4);
				v = w == 0 ? "" : w == 1 ? "\x80" : w == 2 ? varint(5) + "\xff" : varint(5) + varint(6);
				break;
			}
			case 11: case 12: case 13: {	// rdata length field at and around the number of bytes there are
				unsigned w = r.below(4), body = r.below(7);
				k = std::string("\x02");
				if (w == 0) for (unsigned i = 0; i < body; i++) k += (char)(pct(50) ? r.below(4) : r.below(256));
				else if (w == 1) k += r.pick(ips4);
				else k += std::string("\x0a\0\0\x01", 4) + varint(pct(50) ? 1 : 300) + (w == 2 ? rev : rev.substr(0, r.below(rev.size() + 1)));
				int l = (int)(pct(60) ? k.size() - 1 : r.below(k.size())) + (int)r.range(0, 4) - 1;
				if (l < 0) l = 0;
				k += (char)l; k += (char)(pct(85) ? 0 : r.below(3));
				if (readable(k)) k = std::string("\x02\x01\x01\x01\x04\x00", 6);
				break;
			}
			default: k = std::string(1, (char)r.range(4, 252)) + std::string(r.below(4), 'x'); v = std::string(r.below(3), '\x80'); break;	// unknown entry type
			}
			add("raw %s %s", dns::hex(k).c_str(), dns::hex(v).c_str());
			p.back() = "raw " + f + " " + dns::hex(k) + (v.empty() ? "" : " " + dns::hex(v));
		}
		unsigned b = r.below(3);
		while (b-- && !all.empty()) {
			Obs &o = all[r.below(all.size())];
			if (pct(50)) p.push_back("badunion " + f + " fwd " + esc(o.name));
			else {
				std::string rd = o.rd[0]; unsigned so = slice_off(o.type);
				if (rev_type(o.type) && o.type != 6 && rd.size() > so) {
					std::string w = rd.substr(so); std::vector<std::string> l;
					if (dns::labels(w, l)) p.push_back("badunion " + f + " rev " + esc(w));
				}
			}
		}
	}
	std::string mutcase(std::string s) { for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { i++; continue; } if (r.chance(1, 2)) s[i] = toupper(s[i]); } return s; }
	// as people type it
	std::string recase(std::string s) { if (pct(12)) { bool all = pct(60); for (char &c : s) if (all || r.chance(1, 2)) c = tolower(c); } return s; }
	// a name pattern derived from wire name w
	std::string pattern(std::string w, bool &cs, bool left_ok, unsigned min_keep)
	{
		std::vector<std::string> l; dns::labels(w, l);
		std::string s;
		cs = false;
		for (auto &x : l) if (dns::down(x) != x) cs = pct(80);
		if (!cs && pct(10)) cs = true;
		if (pct(P.wild) && !l.empty()) {
			bool plus = pct(35);
			unsigned keep = r.below(l.size() + 1);
			keep = std::max<unsigned>(keep, min_keep);
			if (plus && l.size() > 1 && pct(70)) keep = l.size() - 1;
			bool left = left_ok && pct(60);
			if (left) {
				std::vector<std::string> k(l.end() - keep, l.end());
				s = esc(dns::wire(k));
				s = std::string(plus ? "+" : "*") + (s == "." ? "." : "." + s);
			} else {
				std::vector<std::string> k(l.begin(), l.begin() + keep);
				s = esc(dns::wire(k));
				s = (s == "." ? std::string() : s) + (plus ? "+" : "*") + ".";
			}
			if (pct(30) && s.size() > 1 && s.back() == '.') s.pop_back();
		} else {
			s = esc(w);
			if (pct(10)) { auto &n = r.pick(names); s = esc(dns::wire(n)); }
			if (pct(30) && s.size() > 1 && s.back() == '.' && s[s.size() - 2] != '\\') s.pop_back();
		}
		if (!cs && pct(15)) s = mutcase(s);
		std::string t; if (!dns::from_str(s, t)) s = esc(w);		// no room for a wildcard in front
		return s;
	}
	std::string ipq()
	{
		auto str = [&](const std::string &b) {
			std::string s = dns::rdata_str(b, b.size() == 4 ? 1 : 28);
			if (b.size() == 4 || !pct(15)) return s;
			if (pct(50)) for (char &c : s) c = toupper(c);
			else { s.clear(); for (unsigned i = 0; i < 16; i += 2) { char g[8]; snprintf(g, sizeof g, "%04x", (unsigned)(uint8_t)b[i] << 8 | (uint8_t)b[i + 1]); s += (i ? ":" : "") + std::string(g); } }
			return s;
		};
		bool v6 = pct(45);
		auto &pool = v6 ? ips6 : ips4;
		std::string a = r.pick(pool), b = r.pick(pool);
		unsigned k = r.below(4);
		if (k == 0) return str(a);
		if (k == 1) { if (memcmp(a.data(), b.data(), a.size()) > 0) std::swap(a, b); return str(a) + "-" + str(b); }
		unsigned bits = v6 ? 128 : 32;
		unsigned pl = pct(50) ? (bits / 8 >= 4 ? 8 * r.range(0, bits / 8) : 0) : r.range(0, bits);
		if (k == 3) for (unsigned i = pl; i < bits; i++) a[i / 8] &= ~(0x80 >> i % 8);	// canonical base
		return str(a) + "/" + std::to_string(pl);
	}
	std::string limits()
	{
		std::string s; unsigned k = r.below(3);
		auto ns = [&] { return !P.cli && pct(6) ? r.range(1, 8) * 1000000000ULL + r.below(1000000000) : !P.cli && pct(2) ? ((1ULL << 32) + r.below(9)) * 1000000000ULL + r.below(1000000000) : pct(15) ? (uint64_t)0 : (1ULL << r.range(8, 27)) + r.below(1000); };
		if (k != 1) s += " to=" + std::to_string(ns());
		if (k != 0) s += " dl=" + std::string(pct(15) ? "-" : "") + std::to_string(ns());
		return s;
	}
	std::map<std::string, std::string> qtype;
	// a further question for an old query object, if there is one of that kind
	bool requery()
	{
		std::string q = query(), l = p.back(), t = qtype[q], old;
		for (auto &x : qtype) if (x.first != q && x.second == t && (old.empty() || pct(40))) old = x.first;
		if (old.empty()) return false;
		p.back() = "qre " + old + l.substr(l.find(" type="));
		qtype.erase(q); nq--;
		return true;
	}
	std::string question(const std::string &kind)	// some valid search of a kind
	{
		if (kind == "ip") return ipq();
		if (kind == "raw") { std::string d = all.empty() ? std::string("\x0a", 1) : r.pick(r.pick(all).rd); return dns::hex(d.empty() ? std::string("\x01", 1) : d); }
		if (kind == "ver") { static const char *vt[] = {"rrset", "rrset_name", "rdata", "rdata_name"}; return vt[r.below(4)]; }
		bool cs;
		std::string d = pattern(dns::wire(r.pick(names)), cs, kind == "rrset" || !nsec, 1);
		return d == "*" || d == "+" || d == "*." || d == "+." ? "com." : d;
	}
	std::string nonsense(const std::string &kind)
	{
		static const std::vector<const char *> ip = {"1.2.3.4/33", "1.2.3.4/-1", "1.2.3.4/8x", "1.2.3.4/", "::1/129", "1.2.3.4-::1", "::1-1.2.3.4", "1.2.3.4-", "1.2.3/8", "1.2.3.4-1.2.3.5-1.2.3.6", "abc", "1.2.3.256",
			"1.2.3.4/99999999999999999999", "-1.2.3.4", "/8", "10.0.0.0/8/8", "::1/-1", "1.2.3.4-x", "x-1.2.3.4", ":::", "1.2.3.4.5", "/", "-", "1.2.3.4/x", "::/4294967296", "0.0.0.0/4294967297", "10.0.0.1/18446744073709551624", "::1/-2147483648", "~"};
		static const std::vector<const char *> raw = {"~", "0", "abc", "0g", "g0", "0a0", "0a0x", "zz", "0x0a", "~30200a"};
		static const std::vector<const char *> name = {"a..b.", ".a", "..", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.com", "*..", "~"};
		static const std::vector<const char *> ver = {"time_range", "version", "source_info", "nonsense", "~", "RRSETS"};
		return kind == "ip" ? r.pick(ip) : kind == "raw" ? r.pick(raw) : kind == "ver" ? r.pick(ver) : kind == "tr" ? "com." : r.pick(name);
	}
	std::string history(const std::string &kind)
	{
		std::string s; unsigned k = r.below(6);
		static const std::vector<std::string> names_of = {"tfb", "tfa", "tlb", "tla"};
		while (k--) switch (r.below(14)) {
		case 0: case 1: if (kind != "tr") s += " +data=" + question(kind); break;
		case 2: case 3: s += " -data=" + nonsense(kind); break;
		case 4: if (kind != "tr") s += " 0data"; break;
		case 5: s += " +rrtype=" + (pct(20) ? std::string("ANY") : dns::type_str(r.pick(types))); break;
		case 6: s += pct(50) ? " 0rrtype" : " -rrtype=NOSUCH"; break;
		case 7: if (kind == "rrset") { std::string b = esc(dns::down(dns::wire(r.pick(names)))); s += " +bail=" + (pct(20) ? mutcase(b) : b); } else s += " -bail=com."; break;
		case 8: if (kind == "rrset") s += pct(50) ? " 0bail" : " -bail=" + nonsense("rrset"); break;
		case 9: s += " +cs=" + std::to_string(r.below(2)); break;
		case 10: s += " +agg=" + std::to_string(r.below(2)); break;
		case 11: s += " +off=" + std::to_string(r.below(5)); break;
		case 12: s += " +" + r.pick(names_of) + "=" + std::to_string(r.pick(times) + r.below(2)); break;
		default: if (pct(50)) s += " 0" + r.pick(names_of); else if (pct(60)) s += " -len=" + std::to_string(r.pick(std::vector<unsigned>{1, 4, 0, 7, 2})); else s += " -ptype=5"; break;
		}
		if (pct(30)) s += pct(50) ? std::string(" ^rrtype=") + r.pick(std::vector<const char *>{"NOSUCH", "~", "TYPE", "TYPE0", "AA"}) : pct(80) ? " ^len" + r.pick(names_of) + "=" + std::to_string(r.pick(std::vector<unsigned>{1, 4, 0, 7})) : std::string(" ^ptype=5");
		if (pct(70)) s += " ord=" + std::to_string(r.range(1, 1000));
		return s;
	}
	std::string query()
	{
		std::string q = query1(), &l = p.back();
		size_t i = l.find(" type=");
		std::string t = i == std::string::npos ? "" : l.substr(i + 6, l.find(' ', i + 1) - i - 6);
		qtype[q] = t;
		if (P.hist && pct(P.hist) && !t.empty()) l += history(t);
		return q;
	}
	std::string query1()
	{
		std::string q = "Q" + std::to_string(nq++), s = "q " + q;
		if (!bulk_name.empty() && pct(50)) {
			std::string b = esc(bulk_name), right = b == "." ? "*" : b + "*.";
			s += bulk_kind == 0 ? " type=rrset data=*." + (b == "." ? std::string() : b) : bulk_kind == 1 ? " type=rrset data=" + right : bulk_kind == 2 ? " type=name data=*." + (b == "." ? std::string() : b) : " type=name data=" + right;
			if (s.back() == '.' && s[s.size() - 2] == '*' && b == ".") s.pop_back();
			if (pct(P.cli ? 20 : 60)) { static const char *t[2][4] = {{"A", "TXT", "NS", "AAAA"}, {"NS", "CNAME", "MX", "SRV"}}; s += std::string(" rrtype=") + t[bulk_kind / 2][r.below(4)]; }
			if (bulk_kind < 2 && !P.cli && pct(25)) s += " bail=" + (pct(60) ? b : esc(dns::down(dns::wire(r.pick(names)))));
			if (pct(P.unagg)) s += " agg=0";
			if (pct(30)) s += " tla=" + std::to_string(r.pick(times));
			if (pct(P.limits)) s += limits();
			p.push_back(s);
			return q;
		}
		const Obs *o = all.empty() ? nullptr : &r.pick(all);
		bool cs = false;
		unsigned k = r.below(100);
		bool types_ok = true;
		if (k < P.trver) {
			if (pct(50)) s += " type=tr";
			else { s += " type=ver"; static const char *vt[] = {"rrset", "rrset_name", "rdata", "rdata_name"}; if (pct(60)) s += std::string(" data=") + vt[r.below(4)]; }
			if (pct(P.unagg)) s += " agg=0";
			p.push_back(s);
			return q;
		}
		if (k < P.trver + P.ip) {
			std::string d = ipq();
			s += " type=ip data=" + d;
			s += d.find(':') == std::string::npos ? " rrtype=A" : " rrtype=AAAA";
			if (pct(50)) s.resize(s.rfind(" rrtype"));
			types_ok = false;
		} else if (k < P.trver + P.ip + P.raw) {
			std::string d = o ? r.pick(o->rd) : std::string("\x0a", 1);
			if (o && slice_off(o->type) && pct(50)) d = d.substr(slice_off(o->type));
			if (pct(40)) d = d.substr(0, r.below(d.size() + 1));
			if (d.empty()) d = "\x01";
			std::string h = dns::hex(d); if (pct(15)) for (char &c : h) if (r.chance(2, 3)) c = toupper(c);
			s += " type=raw data=" + h;
		} else if (r.chance(P.index_heavy ? 60 : 45, 100)) {
			std::string w;
			for (int t = 0; t < 8 && w.empty() && !all.empty(); t++) {
				const Obs &x = r.pick(all);
				if (!rdname_type(x.type)) continue;
				std::string d = r.pick(x.rd).substr(slice_off(x.type));
				size_t i = 0; while (i < d.size() && d[i]) i += 1 + (uint8_t)d[i];
				w = d.substr(0, i + 1); o = &x;
			}
			if (w.empty()) w = dns::wire(r.pick(names));
			std::string d = pattern(w, cs, !nsec, 1);
			if (d == "*" || d == "+" || d == "*." || d == "+.") d = "com.";	// ambiguous, see the known findings
			s += " type=name data=" + d;
			if (cs) s += " cs=1";
			if (pct(P.typed)) {
				static const std::vector<uint16_t> R = {2, 5, 12, 15, 33, 6, 39, 64, 65};
				s += " rrtype=" + recase(dns::type_str(o && rdname_type(o->type) && pct(75) ? o->type : r.pick(R)));
			} else if (pct(10)) s += " rrtype=ANY";
			types_ok = false;
		} else {
			std::string w = o ? o->name : dns::wire(r.pick(names));
			s += " type=rrset data=" + pattern(w, cs, true, 0);
			if (cs) s += " cs=1";
			if (pct(P.bailed)) {
				std::string b = o && pct(70) ? o->bail : dns::wire(r.pick(names));
				if (dns::down(b) == b) s += " bail=" + (pct(20) ? mutcase(esc(b)) : esc(b));
			}
		}
		if (types_ok && pct(P.typed)) {
			uint16_t t = o && pct(70) ? o->type : r.pick(types);
			s += " rrtype=" + recase(pct(10) ? std::string("TYPE") + std::to_string(t) : dns::type_str(t));
		} else if (types_ok && pct(8)) { static const std::vector<std::string> any = {"ANY", "ANY-DNSSEC", "TYPE255"}; s += " rrtype=" + recase(r.pick(any)); }
		if (pct(P.unagg)) s += " agg=0";
		if (pct(P.offs) && !(P.cli && may_corrupt)) s += " off=" + std::to_string(!P.cli && pct(3) ? (r.range(1, 3) << 32) + r.below(3) : pct(70) ? r.range(1, 6) : r.range(7, 40));
		if (!bad_vals && pct(P.fences)) {
			unsigned m = r.range(1, 15);
			if (eras && pct(60)) m = 1 << r.below(4);
			auto t = [&] { if (!P.cli && pct(4)) { static const std::vector<uint64_t> far = {0, 1, 4294967295ULL, 1ULL << 63, ~0ULL, ~0ULL >> 1}; return std::to_string(r.pick(far)); }
				uint64_t x = r.pick(times); return std::to_string(x + r.below(3) - (x > 1 ? r.below(2) : 0)); };
			if (m & 1) s += " tfb=" + t();
			if (m & 2) s += " tfa=" + t();
			if (m & 4) s += " tlb=" + t();
			if (m & 8) s += " tla=" + t();
		}
		if (pct(P.limits)) s += limits();
		p.push_back(s);
		return q;
	}
	std::string setline(const std::string &set)
	{
		std::string s = "set " + set;
		unsigned n = 0;
		for (auto &f : files) if (pct(75)) { s += " " + f; n++; }
		if (!n && !files.empty()) s += " " + r.pick(files);
		if (pct(5)) s += " MISSING";
		return s;
	}
	void go()
	{
		universe();
		std::string c = "cfg";
		if (pct(40)) c += pct(50) ? " null=1" : " null=2";
		if (pct(50)) c += " defer=1";
		static const std::vector<unsigned> lat = {100, 1000, 10000, 200000, 1000000};
		static const std::vector<unsigned> gran = {1, 1000000, 4000000, 10000000};
		c += " lat=" + std::to_string(r.pick(lat)) + " coarse=" + std::to_string(r.pick(gran)) + " salt=" + std::to_string(r.below(1000000)) + " cost=" + std::to_string(r.range(1, 200));
		if (pct(P.stall)) c += " stall=" + std::to_string(r.range(3, 40)) + " stallns=" + std::to_string(1ULL << r.range(16, 28));
		p.push_back(c);
		unsigned n = r.range(P.fmin, P.fmax);
		if (eras) n = r.range(2, P.fmax + 3);
		if (r.chance(1, 100)) n = r.range(12, 40);
		for (unsigned i = 0; i < n; i++) newfile();
		if (P.merge && pct(P.merge)) {		// mergers run, some crash, before anyone reads
			unsigned k = r.range(1, 3);
			while (k--) merge();
		}
		unsigned nsets = P.reload >= 15 ? r.range(1, 2) : 1;
		for (unsigned i = 0; i < nsets; i++) {
			std::string s = "S" + std::to_string(i);
			if (P.merge == 100 || pct(60)) { std::string l = "set " + s; for (auto &f : files) l += " " + f; p.push_back(l); }
			else p.push_back(setline(s));
			std::string R = "R" + std::to_string(i);
			p.push_back("rdr " + R + " " + s);
			readers.push_back(R); rset[R] = s;
		}
		if (pct(P.single)) { p.push_back("rdrf RF " + r.pick(files)); readers.push_back("RF"); }
		std::vector<std::string> open;
		unsigned steps = r.range(P.steps / 3, P.steps);
		for (unsigned i = 0; i < steps; i++) {
			unsigned k = r.below(100);
			if (k < P.reload) {
				std::string R = r.pick(readers);
				if (pct(30)) p.push_back("reload " + R);
				else if (R != "RF") {
					if (pct(40)) newfile();
					if (pct(10)) p.push_back("rmset " + rset[R]); else p.push_back(setline(rset[R]));
					if (pct(30)) p.push_back("rmf " + files[r.below(files.size())]);
					if (pct(75)) p.push_back("reload " + R);
				}
				continue;
			}
			if (P.merge && r.chance(P.merge, 1500)) { merge(); continue; }
			if (P.cli && pct(P.cli)) { cli(); continue; }
			if (open.size() < 4 && (open.empty() || pct(35))) {
				std::string I = "I" + std::to_string(ni++);
				if (pct(P.scan)) {
					static const int ts[] = {-1, 0, 1, 2, 3, 253, 254, 255};
					p.push_back("scan " + I + " " + r.pick(readers) + " " + std::to_string(pct(30) ? -1 : ts[r.below(8)]));
				} else {
					std::string q;
					if (P.hist && nq && pct(40)) { requery(); std::string l = p.back(); l = l.substr(l.find('Q')); q = l.substr(0, l.find(' ')); }
					else q = nq && pct(25) ? "Q" + std::to_string(r.below(nq)) : query();
					p.push_back("open " + I + " " + q + " " + r.pick(readers));
				}
				open.push_back(I);
				continue;
			}
			size_t x = r.below(open.size());
			unsigned a = r.below(100);
			if (P.limits && pct(20) && nq) {
				std::string q = "Q" + std::to_string(r.below(nq));
				unsigned m = r.below(4);
				if (m == 0) p.push_back("qset " + q + limits());
				else if (m == 1) p.push_back("qset " + q + " to=none dl=none");
				else if (m == 2) p.push_back("adv " + std::to_string(1ULL << r.range(10, 24)));
				else p.push_back("rtjump " + std::string(pct(50) ? "-" : "") + std::to_string(1ULL << r.range(20, 40)));
			}
			if (a < 45) p.push_back("next " + open[x] + " " + std::to_string(r.range(1, 4)));
			else if (a < (P.abandon ? 55u : 75u)) { p.push_back("drain " + open[x]); if (pct(60)) { p.push_back("close " + open[x]); open.erase(open.begin() + x); } }
			else if (a < (P.abandon ? 85u : 80u)) { p.push_back("close " + open[x]); open.erase(open.begin() + x); }
			else if (a < 88 && nq) p.push_back("qclose Q" + std::to_string(r.below(nq)));
			else if (a < 92 && P.abandon && readers.size() > 1) {
				p.push_back("rclose " + readers.back()); readers.pop_back();
			} else p.push_back("next " + open[x] + " 1");
		}
		if (!P.abandon || pct(50)) p.push_back("drainall");
	}
	// run dnstable_lookup or dnstable_dump as a process over what is on disk now
	void cli()
	{
		if (pct(30)) p.push_back("stall " + std::to_string(r.range(2, 10)) + " " + std::to_string(1ULL << r.range(20, 32)));
		else if (pct(30)) p.push_back("stall 0 0");
		if (!bulk_name.empty()) p.push_back("lat " + std::to_string(1ULL << r.range(21, 26)));
		if (pct(P.dump)) {
			static const char *w[] = {"rrset", "rdata", "rrset_names", "rdata_names", "time_range", "version", "source_info"};
			std::string s = "cli dump " + (pct(4) ? std::string("MISSING") : r.pick(files)) + " what=" + w[r.below(7)];
			if (pct(50)) s += " fmt=j";
			if (pct(25)) s += " raw=1";
			if (pct(50)) s += " long=1";
			if (pct(3)) s += " bad=" + std::string(pct(50) ? "two" : "none");
			if (pct(10)) s += " full=" + std::to_string(pct(50) ? 0 : r.range(1, 400));
			if (pct(10)) s += " gap=" + std::to_string(r.below(105));
			p.push_back(s);
			return;
		}
		std::string q = nq && pct(25) ? "Q" + std::to_string(r.below(nq)) : query();
		bool single = pct(30);
		std::string s = "cli lookup " + (single ? (pct(4) ? std::string("MISSING") : r.pick(files)) : (pct(3) ? std::string("NOSET") : "S0")) + " " + q + (single ? " single=1" : "");
		unsigned k = r.below(10);
		if (k < 3) s += " fmt=j"; else if (k < 6) s += " fmt=J"; else if (k < 8) s += pct(10) ? std::string(" n=1 fmt=") + (pct(50) ? "j" : "J") : std::string(" n=1");
		if (pct(k < 6 ? 40 : 3)) s += " raw=1";
		if (pct(3)) s += " fmt2=1";
		if (pct(30)) s += " stats=" + std::to_string(r.range(1, 2));
		bool big = !bulk_name.empty();
		if (pct(big ? 60 : 25)) s += " t=" + std::to_string(r.range(1, 6));
		if (pct(big ? 60 : 30)) s += " i=" + std::to_string(r.range(1, 4));
		if (pct(30)) s += " strict=1";
		static const char *st[] = {"iso", "isot", "isotz", "date", "neg", "mnem"};
		if (pct(50)) s += std::string(" style=") + st[r.below(6)] + " v=" + std::to_string(r.below(1000));
		if (pct(6)) { static const char *b[] = {"noenv", "bothenv", "opt", "args", "name", "type", "slash", "time", "zero", "t0", "i0", "O0"}; s += std::string(" bad=") + b[r.below(12)] + (s.find(" v=") == std::string::npos ? " v=" + std::to_string(r.below(4)) : ""); }
		if (pct(10)) s += " full=" + std::to_string(pct(50) ? 0 : r.range(1, 400));
		if (pct(10)) s += " gap=" + std::to_string(r.below(105));
		p.push_back(s);
	}
	// what the merge command is told besides the files, and what they are called
	std::string how()
	{
		std::string s = " nm=" + std::to_string(pct(25) ? 0 : r.below(1000000)) + " opt=" + std::to_string(pct(40) ? 0 : r.below(64));
		if (pct(30)) s += " env=" + std::to_string(r.below(8));
		return s;
	}
	void merge()
	{
		if (files.size() < 2) return;
		std::string f = "M" + std::to_string(nf++), s = (P.cmd ? "cli merge " : "merge ") + f;
		bool crash = pct(25);
		if (crash) {
			unsigned k = P.cmd ? r.below(6) : 0;
			if (k == 1) s += " code=" + std::to_string(r.range(1, 255));
			else if (k == 2) s += " kill=1";
			else if (k == 3) s += " gone=1";
			else if (k == 4) s += " few=" + std::to_string(r.below(2));
			else s += " crash=" + std::to_string(r.range(1, 6));
		}
		if (P.cmd) s += how();
		std::vector<std::string> src, rest;
		for (auto &x : files) (pct(50) ? src : rest).push_back(x);
		if (src.size() < 2) return;
		// the order of sources is up to the merger process
		for (size_t i = src.size(); i > 1; i--) std::swap(src[i - 1], src[r.below(i)]);
		for (auto &x : src) s += " " + x;
		p.push_back(s);
		if (crash && pct(60)) {			// the restarted merger does it again
			s = (P.cmd ? "cli merge " : "merge ") + f; if (P.cmd) s += how();
			for (auto &x : src) s += " " + x;
			p.push_back(s); crash = false;
		}
		if (!crash) { files = rest; files.push_back(f); }
	}
};
}
Plan make_plan(const std::string &profile, uint64_t seed)
{
	Gen g(prof(profile), seed);
	g.go();
	return g.p;
}
