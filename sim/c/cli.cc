// dnstable_lookup and dnstable_dump as processes over the simulated storage and
// clock: exit status, standard output and standard error against the model.
#include "../a/world.h"
#include "../simcore.h"
#include <algorithm>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <dnstable.h>
}
extern "C" { int lookup_main(int, char **); int dump_main(int, char **); }
[[noreturn]] void sim_die(const std::string &cls, const std::string &msg);
namespace {
void fail(const std::string &c, const std::string &m) { SIM.violation(c, m); }
typedef std::vector<std::string> V;
struct Left { uint64_t now, steps, late, late_rows, overdue, heap, gaps; unsigned stages, cats, asked; uint64_t cnt[32][16]; bool ex[32][16]; } *left_page;
uint64_t asked_at, interval_ns, dumped_at; bool asking;	// in the process of the command
struct Ran { int status = 0; std::string out, err; };
uint64_t heap0;
void leave() { left_page->heap = heap_live() - std::min(heap0, heap_live()); left_page->now = SIM.now_ns; left_page->steps = store_steps; left_page->late = store_late; }
std::string slurp(int fd)
{
	std::string s; char b[8192]; ssize_t n; lseek(fd, 0, SEEK_SET);
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	return s;
}
// a disk that has no room for some of the writes, and then again
struct Gap { unsigned after, n, size, calls; } gap;
ssize_t gap_write(void *, const char *b, size_t n)
{
	unsigned k = gap.calls++;
	if (k >= gap.after && k < gap.after + gap.n) { left_page->gaps++; errno = ENOSPC; return 0; }
	return write(1, b, n);
}
// full: the disk that standard output goes to has room for so many bytes, -1: no limit
Ran spawn(int (*main_fn)(int, char **), const V &args, const V &env, long full)
{
	if (!left_page) left_page = (Left *)mmap(nullptr, sizeof(Left), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	left_page->now = 0; left_page->gaps = left_page->late_rows = left_page->overdue = left_page->asked = left_page->stages = left_page->cats = 0;
	int o = memfd_create("out", MFD_ALLOW_SEALING), e = memfd_create("err", 0);
	if (full >= 0 && (ftruncate(o, full) || fcntl(o, F_ADD_SEALS, F_SEAL_GROW | F_SEAL_SHRINK))) sim_die("harness-memfd", "cannot seal");
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(o, 1); dup2(e, 2);
		SIM.verbose = false;
		struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &v, nullptr);
		setenv("TZ", "XXX5YYY", 1); unsetenv("DNSTABLE_FNAME"); unsetenv("DNSTABLE_SETFILE");
		for (auto &x : env) putenv(strdup(x.c_str()));
		std::vector<char *> av; for (auto &a : args) av.push_back(strdup(a.c_str()));
		av.push_back(nullptr);
		if (gap.n) { cookie_io_functions_t f = {nullptr, gap_write, nullptr, nullptr}; stdout = fopencookie(nullptr, "w", f); setvbuf(stdout, nullptr, _IOFBF, gap.size); }
		heap0 = heap_live();
		atexit(leave);
		exit(main_fn((int)args.size(), av.data()));
	}
	Ran r; int st = 0;
	waitpid(pid, &st, 0);
	r.out = slurp(o); r.err = slurp(e);
	close(o); close(e);
	if (SIM.shared && SIM.shared->violated) _exit(3);
	if (!WIFEXITED(st) || !left_page->now) {		// a signal, a sanitizer report
		if (write(2, r.err.data(), r.err.size()) < 0) {}
		_exit(99);
	}
	r.status = WEXITSTATUS(st);
	// what is kept for every entry until the end would fill the memory of a large run
	size_t rows = std::count(r.out.begin(), r.out.end(), '\n');
	if (left_page->heap >= 150 && 8 * left_page->heap >= rows) fail("cli-memory-grows", args[0] + " holds " + std::to_string(left_page->heap) + " blocks of memory after printing " + std::to_string(rows) + " lines");
	SIM.now_ns = left_page->now; store_steps = left_page->steps;
	return r;
}
// a full disk under standard output: the failure must show in the exit status
bool disk_full(const Ran &r, long full, size_t need, const std::string &cmd)
{
	if (full < 0) return false;
	if (need > (size_t)full) {
		SIM.count("fault_stdout_full");
		if (r.status == 0) fail("cli-lost-output", cmd + " exits with status 0 although standard output took " + std::to_string(full) + " of " + std::to_string(need) + " bytes");
	}
	return true;
}
// ... and one that is full for a while
void disk_gap(int (*main_fn)(int, char **), const V &a, const V &env, uint64_t g, const Ran &all, const std::string &cmd)
{
	gap.after = g % 7; gap.n = 1 + g / 7 % 3; gap.size = 1 + g / 21 % 5 * 100; gap.calls = 0;
	Ran r = spawn(main_fn, a, env, -1); gap.n = 0;
	if (!left_page->gaps) return;
	SIM.count("fault_stdout_full_for_a_while");
	if (r.status == 0 && r.out.size() != all.out.size()) fail("cli-lost-output", cmd + " exits with status 0 although " + std::to_string(all.out.size() - std::min(r.out.size(), all.out.size())) + " bytes of its output were lost");
}
std::string date(uint64_t t, const char *f) { time_t x = (time_t)t; struct tm tm; gmtime_r(&x, &tm); char b[64]; strftime(b, sizeof b, f, &tm); return b; }
V tokens(const std::string &row) { return split(row); }

// ---- rows as the two programs show them ----
struct Shown { std::string tf, tl, n; V rds; uint16_t ty = 0; V w; };
Shown parts(const std::string &row)
{
	Shown s; s.w = tokens(row);
	bool rr = s.w[0] == "RRSET", rd = s.w[0] == "RDATA";
	for (auto &x : s.w) { if (!x.compare(0, 3, "tf=")) s.tf = x.substr(3); if (!x.compare(0, 3, "tl=")) s.tl = x.substr(3); if (!x.compare(0, 2, "n=")) s.n = x.substr(2); }
	if (rr || rd) {
		dns::str_type(s.w[2].c_str(), s.ty);
		for (size_t i = rr ? 4 : 3; i < s.w.size() && s.w[i].compare(0, 3, "tf="); i++) { std::string b; if (s.w[i] != "-") dns::unhex(s.w[i], b); s.rds.push_back(b); }
	}
	return s;
}
std::string ver_name(const std::string &n)
{
	static const char *n4[] = {"rrset", "rrset_name", "rdata", "rdata_name"}; unsigned v = atoi(n.c_str());
	return v < 4 ? n4[v] : v == 253 ? "source_info" : v == 254 ? "time_range" : v == 255 ? "version" : "#" + n;
}
// what a reader of the output can tell apart
std::string shown_text(const std::string &row)
{
	Shown s = parts(row); std::string o;
	auto T = [](const std::string &t) { return date(strtoull(t.c_str(), nullptr, 10), "%Y-%m-%d %H:%M:%S"); };
	if (s.w[0] == "RRSET") {
		o = "RRSET " + s.w[3] + "|" + s.n + "|" + T(s.tf) + "|" + T(s.tl) + "|";
		for (auto &d : s.rds) o += s.w[1] + " IN " + s.w[2] + " " + dns::rdata_str(d, s.ty) + "|";
	} else if (s.w[0] == "RDATA") o = s.w[1] + " IN " + s.w[2] + " " + dns::rdata_str(s.rds[0], s.ty);
	else if (s.w[0] == "FWD" || s.w[0] == "REV") o = s.w[0] + " " + s.w[1] + " " + row.substr(row.rfind('['));
	else if (s.w[0] == "TR") o = "TR " + T(s.tf) + " " + T(s.tl);
	else if (s.w[0] == "SRC") o = row;
	else if (s.w[0] == "VER") o = "VER " + ver_name(s.w[1]) + " " + s.w[2];
	return o;
}
std::string shown_json(const std::string &row, bool raw)
{
	Shown s = parts(row); std::string o = s.w[0];
	if (s.w[0] == "RRSET" || s.w[0] == "RDATA") {
		o += " " + s.w[1] + " " + s.w[2] + (s.w[0] == "RRSET" ? " " + s.w[3] : std::string()) + " " + s.n + " " + s.tf + " " + s.tl;
		for (auto &d : s.rds) o += "|" + dns::rdata_str(d, s.ty);
		// the rdata of an RRset carries its type along, as a variable-width integer
		std::string suf; if (s.w[0] == "RRSET") for (unsigned t = s.ty;; t >>= 7) { suf += (char)(t > 127 ? (t & 127) | 128 : t); if (t < 128) break; }
		if (raw) for (auto &d : s.rds) o += "|raw " + dns::hex(d + suf);
	} else if (s.w[0] == "FWD" || s.w[0] == "REV") o += " " + s.w[1] + " " + row.substr(row.rfind('['));
	else if (s.w[0] == "TR") o += " " + s.tf + " " + s.tl;
	else if (s.w[0] == "SRC") o = row;
	else if (s.w[0] == "VER") o += " " + ver_name(s.w[1]) + " " + s.w[2];
	return o;
}
// ---- reading the output back ----
struct JV { int k = 0; std::string s; std::vector<JV> a; std::vector<std::pair<std::string, JV>> o; };
bool jparse(const char *&p, JV &v)
{
	auto str = [&](std::string &s) {
		if (*p++ != '"') return false;
		while (*p && *p != '"') {
			if ((unsigned char)*p < 32) return false;
			if (*p == '\\') {
				p++;
				switch (*p) {
				case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
				case '"': case '\\': case '/': s += *p; break;
				case 'u': { unsigned x = 0; for (int i = 0; i < 4; i++) { p++; if (!isxdigit((unsigned char)*p)) return false; x = x * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (*p | 32) - 'a' + 10); } s += (char)x; break; }
				default: return false;
				}
				p++;
			} else s += *p++;
		}
		return *p++ == '"';
	};
	if (*p == '"') { v.k = 2; return str(v.s); }
	if (isdigit((unsigned char)*p)) { v.k = 1; while (isdigit((unsigned char)*p)) v.s += *p++; return true; }
	if (*p == '[' || *p == '{') {
		char end = *p == '[' ? ']' : '}'; v.k = end == ']' ? 3 : 4; p++;
		if (*p == end) { p++; return true; }
		for (;;) {
			if (v.k == 3) { v.a.emplace_back(); if (!jparse(p, v.a.back())) return false; }
			else { std::string k; if (!str(k) || *p++ != ':') return false; v.o.emplace_back(k, JV()); if (!jparse(p, v.o.back().second)) return false; }
			if (*p == ',') { p++; continue; }
			return *p++ == end;
		}
	}
	return false;
}
std::string read_json(const std::string &line, bool rfc, bool raw)
{
	const char *p = line.c_str(); JV v;
	if (!jparse(p, v) || *p || v.k != 4) return "?not a JSON object: " + line;
	auto get = [&](const char *k) -> const JV * { for (auto &x : v.o) if (x.first == k) return &x.second; return nullptr; };
	auto str = [&](const char *k) { const JV *x = get(k); return x && x->k == 2 ? x->s : std::string("?"); };
	auto nm = [&](const char *k) { const JV *x = get(k); return x && x->k == 1 ? x->s : std::string("?"); };
	auto tim = [&](const char *k) -> std::string {
		const JV *x = get(k); if (!x) return "?";
		if (!rfc) return x->k == 1 ? x->s : "?";
		int Y, M, D, h, m, s; char z;
		if (x->k != 2 || x->s.size() != 20 || sscanf(x->s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%c", &Y, &M, &D, &h, &m, &s, &z) != 7 || z != 'Z') return "?";
		struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s;
		return std::to_string((uint64_t)timegm(&tm));
	};
	auto list = [&](const char *k, const char *pre) { const JV *x = get(k); std::string o; if (!x) return std::string(); if (x->k == 2) return std::string(pre) + x->s; for (auto &y : x->a) o += pre + y.s; return o; };
	if (get("rrname")) {
		bool rr = get("bailiwick");
		return std::string(rr ? "RRSET " : "RDATA ") + str("rrname") + " " + str("rrtype") + (rr ? " " + str("bailiwick") : std::string()) + " " + nm("count") + " " + tim("time_first") + " " + tim("time_last") + list("rdata", "|") + (raw || get("rdata_raw") ? list("rdata_raw", "|raw ") : std::string());
	}
	if (get("rrset_name") || get("rdata_name")) {
		const JV *r = get("rrtypes"); std::string l; if (r) for (auto &y : r->a) l += (l.empty() ? "" : " ") + y.s;
		return (get("rrset_name") ? "FWD " + str("rrset_name") : "REV " + str("rdata_name")) + " [" + l + "]";
	}
	if (get("source info")) return "SRC " + str("source info");
	if (get("version")) { std::string t = str("entry_type"); if (!t.compare(0, 8, "unknown-")) t = "#" + t.substr(8); return "VER " + t + " " + nm("version"); }
	if (get("time_first")) return "TR " + tim("time_first") + " " + tim("time_last");
	return "?unknown object: " + line;
}
V lines_of(const std::string &s) { V v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
V read_text(const std::string &out)
{
	V r, l = lines_of(out);
	auto after = [](const std::string &x) { size_t i = x.find(": "); return i == std::string::npos ? std::string("?") : x.substr(i + 2); };
	auto tm = [&](const std::string &x) { std::string a = after(x); return a.size() > 6 && a.substr(a.size() - 6) == " -0000" ? a.substr(0, a.size() - 6) : "?" + a; };
	auto is = [](const std::string &x, const char *what) { return x.compare(0, 2, ";;") == 0 && x.find(what) != std::string::npos; };
	for (size_t i = 0; i < l.size(); i++) {
		if (l[i].empty()) continue;
		if (is(l[i], "bailiwick:")) {
			if (i + 4 >= l.size()) { r.push_back("?incomplete rrset"); break; }
			std::string n = after(l[i + 1]); n.erase(std::remove(n.begin(), n.end(), ','), n.end());
			std::string o = "RRSET " + after(l[i]) + "|" + n + "|" + tm(l[i + 2]) + "|" + tm(l[i + 3]) + "|";
			for (i += 4; i < l.size() && !l[i].empty(); i++) o += l[i] + "|";
			r.push_back(o);
		} else if (is(l[i], "Earliest time_first:") && i + 1 < l.size()) { r.push_back("TR " + tm(l[i]) + " " + tm(l[i + 1])); i++; }
		else if (is(l[i], "source info:")) r.push_back("SRC " + after(l[i]));
		else if (is(l[i], "Version type")) { std::string x = l[i].substr(l[i].find("type ") + 5); size_t c = x.rfind(": "); std::string t = x.substr(0, c); if (isdigit((unsigned char)t[0])) t = "#" + t; r.push_back("VER " + t + " " + x.substr(c + 2)); }
		else if (l[i].find(" RRtypes=[") != std::string::npos) {
			size_t a = l[i].find(" RRtypes=["), b = l[i].find(']', a); bool fwd = l[i].find("rrset name fwd", a) != std::string::npos;
			r.push_back((fwd ? "FWD " : "REV ") + l[i].substr(0, a) + " " + l[i].substr(a + 9, b - a - 8));
		} else r.push_back(l[i]);
	}
	return r;
}
std::string kv(const V &v, const char *k, const std::string &d = "") { size_t n = strlen(k); for (auto &x : v) if (x.size() > n && !x.compare(0, n, k) && x[n] == '=') return x.substr(n + 1); return d; }
long kn(const V &v, const char *k) { return strtol(kv(v, k, "0").c_str(), nullptr, 10); }
std::string cmdline(const V &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + (x.find(' ') == std::string::npos ? x : "'" + x + "'"); return s; }
// what each output row means, compared with what should be there; up to `missing_ok` may be absent
void compare(const V &got, const std::vector<std::string> &want_rows, bool json, bool raw, size_t missing_exact, bool partial, const std::string &cmd)
{
	std::multiset<std::string> left; for (auto &w : want_rows) left.insert(json ? shown_json(w, raw) : shown_text(w));
	for (auto &g : got) {
		auto i = left.find(g);
		if (i == left.end()) { fail("cli-unexpected", cmd + " prints " + g + ", which is not a row of the answer (" + std::to_string(want_rows.size()) + " rows, e.g. " + (left.empty() ? "none" : *left.begin()) + ")"); return; }
		left.erase(i);
	}
	if (!partial && left.size() != missing_exact) fail("cli-missing", cmd + " leaves out " + std::to_string(left.size()) + " of " + std::to_string(want_rows.size()) + " rows, e.g. " + (left.empty() ? std::string() : *left.begin()));
}
void expect_failure(const Ran &r, const std::string &cmd, const char *why)
{
	SIM.count("cli_refusals");
	if (r.status == 0) fail("cli-accepted", cmd + " exits with status 0: " + why);
	if (!r.out.empty()) fail("cli-output-on-failure", cmd + " prints results: " + why);
	if (r.err.empty()) fail("cli-silent-failure", cmd + " says nothing: " + why);
}
void dump(const V &v, const ExtraEnv &e)
{
	static const struct { const char *w, *sh, *lo; int t; } K[] = {{"rrset", "-r", "--rrset_full", 0}, {"rdata", "-d", "--rdata_full", 2}, {"rrset_names", nullptr, "--rrset_names", 1}, {"rdata_names", nullptr, "--rdata_names", 3},
		{"time_range", "-t", "--time_range", 254}, {"version", "-v", "--version_entries", 255}, {"source_info", "-s", "--source_info_entries", 253}};
	std::string what = kv(v, "what", "rrset"), bad = kv(v, "bad"); bool json = kv(v, "fmt") == "j", raw = kn(v, "raw"), lo = kn(v, "long");
	V a = {"dnstable_dump"}; int t = 0;
	if (json) a.push_back(lo ? "--json" : "-j");
	if (raw) a.push_back(lo ? "--raw" : "-R");
	for (auto &k : K) if (what == k.w) { t = k.t; if (bad != "none") a.push_back(lo || !k.sh ? k.lo : k.sh); }
	if (bad == "two") a.push_back(what == "rrset" ? "--rdata_full" : "--rrset_full");
	a.push_back(v[2]);
	long full = kv(v, "full").empty() ? -1 : kn(v, "full");
	Ran r = spawn(dump_main, a, {}, -1);
	std::string cmd = cmdline(a);
	SIM.log("%s -> %d", cmd.c_str(), r.status); SIM.logs(r.out); SIM.count("cli_dumps");
	auto f = e.pub->find(v[2]);
	bool there = f != e.pub->end() && DISK.files.count(v[2]);
	if (!bad.empty()) { expect_failure(r, cmd, "wrong arguments"); return; }
	if (raw && (!json || (what != "rrset" && what != "rdata"))) { expect_failure(r, cmd, "raw data without the format for it"); return; }
	if (!there) { expect_failure(r, cmd, "no such file"); return; }
	if (r.status) { fail("cli-failed", cmd + " exits with status " + std::to_string(r.status) + ": " + r.err.substr(0, 300)); return; }
	V got; if (json) for (auto &l : lines_of(r.out)) got.push_back(read_json(l, false, raw)); else got = read_text(r.out);
	*e.nontrivial += got.size(); SIM.count("cli_rows", got.size());
	compare(got, scan_rows(f->second, t), json, raw, 0, false, cmd);
	if (!kv(v, "gap").empty()) disk_gap(dump_main, a, {}, kn(v, "gap"), r, cmd);
	if (full >= 0) disk_full(spawn(dump_main, a, {}, full), full, r.out.size(), cmd);
}
void lookup(const V &v, const ExtraEnv &e)
{
	auto qi = e.qs->find(v[3]);
	if (qi == e.qs->end()) return;
	QParams p = qi->second;
	bool single = kn(v, "single"), strict = kn(v, "strict"), meta = p.type == Q_TR || p.type == Q_VER, n = kn(v, "n"), raw = kn(v, "raw");
	std::string bad = kv(v, "bad"), f = kv(v, "fmt"), style = kv(v, "style"); bool json = !f.empty(), two = kn(v, "fmt2") && !f.empty();
	long t = kn(v, "t"), iv = kn(v, "i"), st = kn(v, "stats"); uint64_t salt = kn(v, "v");
	const char *why = nullptr; bool fails = false;
	auto F = [&](const char *w) { if (!fails) why = w; fails = true; };
	// the wall clock stands in the middle of a second, so that "ago" means one moment
	SIM.now_ns += (1500000000 - (SIM.now_ns + SIM.rt_off_ns) % 1000000000) % 1000000000;
	uint64_t wall = (SIM.now_ns + SIM.rt_off_ns) / 1000000000;
	V a = {"dnstable_lookup"};
	auto when = [&](const char *opt, std::optional<uint64_t> &x) {
		if (!x) return;
		uint64_t y = *x; std::string s;
		if (style == "date") { y -= y % 86400; if (y && y <= 253402300799ULL) s = date(y, "%Y-%m-%d"); else y = *x; }
		if (!y) { x = std::nullopt; return; }
		if (y <= 253402300799ULL) { if (style == "iso") s = date(y, "%Y-%m-%d %H:%M:%S"); if (style == "isot") s = date(y, "%Y-%m-%dT%H:%M:%S"); if (style == "isotz") s = date(y, "%Y-%m-%dT%H:%M:%SZ"); }
		if (style == "neg" && y < wall) s = "-" + std::to_string(wall - y);
		if (style == "mnem" && y < wall) {
			uint64_t d = wall - y; static const struct { uint64_t u; char c; } U[] = {{604800, 'w'}, {86400, 'd'}, {3600, 'h'}, {60, 'm'}, {1, 's'}}; uint64_t k = salt;
V part; uint64_t k0 = k;
			for (auto &u : U) { if (u.u > 1 && (k & 1) && d >= u.u) { k >>= 1; if (k & 1) continue; } uint64_t c = d / u.u; d -= c * u.u; k = k * 1103515245 + 12345; if (c) part.push_back(std::to_string(c) + (k & 64 ? u.c : (char)(u.c - 32))); }
			for (size_t i = part.size(); (k0 & 8) && i > 1; i--) { k0 = k0 * 1103515245 + 12345; std::swap(part[i - 1], part[(k0 >> 8) % i]); }	// units in any order
			for (auto &x : part) s += x;
			if (!s.empty() && (salt & 4) && (s.back() == 's' || s.back() == 'S') && s.find_first_of("wdhmWDHM") != std::string::npos) s.pop_back();
		}
		if (s.empty()) s = std::to_string(y);
		x = y;
		a.push_back(opt); a.push_back(s);
	};
	when("-a", p.tfa); when("-A", p.tla); when("-b", p.tlb); when("-B", p.tfb);
	if (bad == "time") { a.push_back("-a"); static const char *T[] = {"12q", "0d", "-4h", "3d-1h", "w", "2020-13-01", "4h0m", "99999999w"}; a.push_back(T[(salt + kn(v, "stats") + p.data.size()) % 8]); F("a time that is none"); }
	if (bad == "zero") { a.push_back("-A"); a.push_back("0"); F("a time of zero"); }
	if (strict) { a.push_back("-c"); SIM.count("cli_strict"); }
	if (p.cs) a.push_back("-C");
	if (f == "j" || two) a.push_back("-j");
	if (f == "J" || two) a.push_back("-J");
	if (two) F("two output formats");
	if (n) a.push_back("-n");
	if (n && (json || raw)) F("a count and a format");
	if (raw) { a.push_back("-R"); if (!json) F("raw data without JSON"); if (meta) F("raw data of a metadata entry"); }
	for (long i = 0; i < st; i++) a.push_back("-s");
	if (t) { a.push_back("-t"); a.push_back(std::to_string(t)); }
	if (iv) { a.push_back("-i"); a.push_back(std::to_string(iv)); }
	if (!p.agg) { a.push_back("-u"); if (single) F("unaggregated on a single file"); }
	if (p.off) { a.push_back("-O"); a.push_back(std::to_string(p.off)); if (meta) F("an offset into metadata"); }
	if (bad == "t0" || bad == "i0" || bad == "O0") { a.push_back("-" + bad.substr(0, 1)); a.push_back(salt & 1 ? "0" : salt & 2 ? "-3" : "x"); F("a number that is not positive"); }
	if (bad == "opt") { a.push_back("-Q"); F("an unknown option"); }
	a.push_back("--");
	std::string rrtype = p.rrtype, data = p.data;
	if (bad == "name" && (p.type == Q_RRSET || p.type == Q_NAME)) { data = "a..b"; F("a name that is none"); }
	if (bad == "name" && p.type == Q_RAW) { data = "0g"; F("digits that are none"); }
	if (bad == "name" && p.type == Q_IP) { data = "300.1.1.1"; F("an address that is none"); }
	if (bad == "slash" && p.type == Q_RRSET) data = "a/b.com";
	if (bad == "type" && (p.type == Q_RRSET || p.type == Q_RAW || p.type == Q_NAME)) { rrtype = "NOTYPE"; F("a type that is none"); }
	switch (p.type) {
	case Q_RRSET:
		a.push_back("rrset"); a.push_back(data);
		if (data.find('/') != std::string::npos) F("a slash in the name");
		if (!p.bail.empty() && rrtype.empty()) rrtype = "ANY";
		if (!rrtype.empty()) a.push_back(rrtype);
		if (!p.bail.empty()) a.push_back(p.bail);
		if (bad != "type") p.rrtype = rrtype;
		break;
	case Q_IP: a.push_back("rdata"); a.push_back("ip"); a.push_back(data); p.rrtype.clear(); break;
	case Q_RAW: case Q_NAME:
		a.push_back("rdata"); a.push_back(p.type == Q_RAW ? "raw" : "name"); a.push_back(data);
		if (!rrtype.empty()) a.push_back(rrtype);
		p.bail.clear();
		break;
	case Q_TR: a.push_back("time_range"); break;
	default: a.push_back("version"); if (p.has_data) a.push_back(p.data);
	}
	if (bad == "args") { a.push_back("x"); a.push_back("y"); a.push_back("z"); a.push_back("u"); F("too many arguments"); }
	V env;
	if (bad == "noenv") F("no data file named");
	else if (bad == "bothenv") { env = {"DNSTABLE_FNAME=" + v[2], "DNSTABLE_SETFILE=" + v[2]}; F("two kinds of data file named"); }
	else env = {(single ? "DNSTABLE_FNAME=" : "DNSTABLE_SETFILE=") + v[2]};
	if (single && !DISK.files.count(v[2])) F("no such file");
	// what the answer is
	std::vector<const FileModel *> fm;
	if (single) { auto i = e.pub->find(v[2]); if (i != e.pub->end() && DISK.files.count(v[2])) fm.push_back(&i->second); }
	else if (DISK.setfiles.count(v[2])) for (auto &x : DISK.setfiles[v[2]]) { auto i = e.pub->find(x); if (i != e.pub->end() && DISK.files.count(x)) fm.push_back(&i->second); }
	if (strict) {
		if (p.tla) p.tfa = std::max(p.tfa.value_or(0), *p.tla);
		if (p.tfb) p.tlb = std::min(p.tlb.value_or(UINT64_MAX), *p.tfb);
	}
	if (meta) p.tfa = p.tla = p.tfb = p.tlb = std::nullopt;
	auto rows = answer(p, fm);
	uint64_t t0 = SIM.now_ns, s0 = store_steps;
	interval_ns = iv * 1000000000ULL; asked_at = t0; store_deadline = t ? t0 + t * 1000000000ULL + 1000000 : UINT64_MAX; store_late = 0;
	Ran r = spawn(lookup_main, a, env, -1);
	store_deadline = UINT64_MAX;
	uint64_t took = SIM.now_ns - t0;
	std::string cmd = cmdline(a);
	SIM.log("%s -> %d", cmd.c_str(), r.status); SIM.logs(r.out); SIM.count("cli_lookups");
	if (fails) { expect_failure(r, cmd, why); return; }
	if (r.status) {
		fail("cli-failed", cmd + " exits with status " + std::to_string(r.status) + ": " + r.err.substr(0, 300));
		return;
	}
	V got; if (json) { for (auto &l : lines_of(r.out)) got.push_back(read_json(l, f == "J", raw)); } else got = read_text(r.out);
	if (n && !got.empty()) fail("cli-count-prints", cmd + " prints rows although only their number is asked for");
	*e.nontrivial += got.size(); SIM.count("cli_rows", got.size());
	if (left_page->late_rows) fail("cli-timeout-late", cmd + " prints " + std::to_string(left_page->late_rows) + " rows it asked for after its time was over");
	if (left_page->overdue) fail("cli-interval", cmd + " goes on for " + std::to_string(left_page->overdue) + " rows when its statistics are due");
	bool said = r.err.find(";;; timed out") != std::string::npos, over = t && took >= t * 1000000000ULL;
	if (over) SIM.count("cli_timeouts");
	if (said && !over) fail("cli-timeout-early", cmd + " says it timed out after " + std::to_string(took) + " ns");
	if (t && left_page->late > 16 * (fm.size() + 2)) fail("cli-timeout-late", cmd + " reads storage " + std::to_string(left_page->late) + " times after its time is over");
	uint64_t off = std::min<uint64_t>(p.off, rows.size());
	bool partial = over && (json || said);
	if (!n) compare(got, rows, json, raw, off, partial, cmd);
	// what it says on standard error
	uint64_t dumped = 0; bool has = false; std::vector<uint64_t> ents; size_t elapsed = 0; uint64_t last_elapsed = 0; std::map<std::string, std::string> counters;
	for (auto &l : lines_of(r.err)) {
		unsigned long long x;
		if (sscanf(l.c_str(), ";;; Dumped %llu entries.", &x) == 1) { dumped = x; has = true; }
		if (!l.compare(0, 7, "entries")) { size_t c = l.find(": "); if (c != std::string::npos) ents.push_back(strtoull(l.c_str() + c + 2, nullptr, 10)); }
		if (!l.compare(0, 7, "elapsed")) {
			elapsed++;
			unsigned long long sec = 0, ns = 0; size_t c = l.find(": ");
			if (c == std::string::npos || sscanf(l.c_str() + c + 2, "%llu.%9llus", &sec, &ns) != 2 || sec * 1000000000ULL + ns > took || sec * 1000000000ULL + ns < last_elapsed)
				fail("cli-stats", cmd + " says '" + l + "' after " + std::to_string(took) + " ns");
			last_elapsed = sec * 1000000000ULL + ns;
		}
		else if (l.find(" : ") != std::string::npos && l.compare(0, 7, "entries")) { size_t c = l.find(" : "); std::string k = l.substr(0, c); while (!k.empty() && k.back() == ' ') k.pop_back(); counters[k] = l.substr(c + 3); }
	}
	if (has != !json) fail("cli-summary", cmd + (has ? " prints a summary" : " prints no summary"));
	if (has && !n && dumped != got.size()) fail("cli-summary", cmd + " says it dumped " + std::to_string(dumped) + " of " + std::to_string(got.size()) + " entries");
	if (has && n && !partial && dumped != rows.size() - off) fail("cli-count", cmd + " counts " + std::to_string(dumped) + " of " + std::to_string(rows.size() - off) + " entries");
	if (has && n && dumped > rows.size() - off) fail("cli-count", cmd + " counts " + std::to_string(dumped) + " of " + std::to_string(rows.size() - off) + " entries");
	bool stats = st || iv;
	if (stats != !ents.empty()) fail("cli-stats", cmd + (stats ? " prints no statistics" : " prints statistics unasked"));
	if (!stats && !counters.empty()) fail("cli-stats", cmd + " prints counters unasked");
	if (stats) {
		SIM.count("cli_stats_dumps", ents.size());
		for (size_t i = 1; i < ents.size(); i++) if (ents[i] < ents[i - 1]) fail("cli-stats", cmd + ": the number of entries falls");
		if (!ents.empty() && ents.back() != (n ? dumped : got.size())) fail("cli-stats", cmd + " counts " + std::to_string(ents.back()) + " entries in its statistics, not " + std::to_string(n ? dumped : got.size()));
		if (elapsed != ents.size()) fail("cli-stats", cmd + ": no elapsed time with the statistics");
		if (!iv && ents.size() > 1) fail("cli-stats", cmd + " prints statistics more than once");
		// each counter printed last is the iterator's at the end, and none is missing
		Left &L = *left_page; std::map<std::string, std::string> want;
		for (unsigned k = 0; k < L.cats; k++) {
			const char *cn = dnstable_stat_category_to_str((dnstable_stat_category)k); uint64_t sum = 0;
			for (unsigned i = 0; i < L.stages; i++) if (L.ex[i][k]) { sum += L.cnt[i][k]; if (st > 1) want[std::string(dnstable_stat_stage_to_str((dnstable_stat_stage)i)) + " " + cn] = std::to_string(L.cnt[i][k]); }
			if (st <= 1) want[cn] = std::to_string(sum);
		}
		if (!L.asked) fail("cli-stats", cmd + " asks for no counter");
		for (auto &x : want) { auto i = counters.find(x.first); if (i == counters.end() || i->second != x.second) fail("cli-stats", cmd + " gives " + x.first + " as " + (i == counters.end() ? "nothing" : i->second) + ", not " + x.second); }
		for (auto &x : counters) if (!want.count(x.first)) fail("cli-stats", cmd + " prints a counter " + x.first + " that the iterator lacks");
		SIM.count("cli_counters", want.size());
		if (iv && ents.size() > took / (iv * 1000000000ULL) + 2) fail("cli-interval", cmd + " prints statistics " + std::to_string(ents.size()) + " times in " + std::to_string(took) + " ns");
	}
	std::string full = kv(v, "full");
	if (!kv(v, "gap").empty() && !t && !iv) { uint64_t end = SIM.now_ns; SIM.now_ns = t0; store_steps = s0; disk_gap(lookup_main, a, env, kn(v, "gap"), r, cmd); SIM.now_ns = std::max(end, SIM.now_ns); }
	if (!full.empty() && !t && !iv) { long x = atol(full.c_str()); uint64_t end = SIM.now_ns; SIM.now_ns = t0; store_steps = s0;	// relative times mean the same again
		 disk_full(spawn(lookup_main, a, env, x), x, r.out.size(), cmd); SIM.now_ns = std::max(end, SIM.now_ns); }
}
}
void merge_command(const std::vector<std::string> &, const ExtraEnv &);
// the time for the question starts at the latest when it is asked, after the files have been opened
extern "C" struct dnstable_iter *__real_dnstable_reader_query(struct dnstable_reader *, struct dnstable_query *);
extern "C" struct dnstable_iter *__wrap_dnstable_reader_query(struct dnstable_reader *r, struct dnstable_query *q)
{
	if (store_deadline != UINT64_MAX) { store_deadline += SIM.now_ns - asked_at; store_late = 0; }
	dumped_at = SIM.now_ns;
	asking = true; struct dnstable_iter *it = __real_dnstable_reader_query(r, q); asking = false;
	return it;
}
// rows asked for after the time is over and given all the same
extern "C" dnstable_res __real_dnstable_iter_next(struct dnstable_iter *, struct dnstable_entry **);
extern "C" dnstable_res __wrap_dnstable_iter_next(struct dnstable_iter *it, struct dnstable_entry **e)
{
	bool late = store_deadline != UINT64_MAX && SIM.now_ns > store_deadline + 2 * SIM.coarse_ns;
	bool due = interval_ns && SIM.now_ns > dumped_at + interval_ns + 1000000 + 2 * SIM.coarse_ns;
	dnstable_res r = __real_dnstable_iter_next(it, e);
	if (left_page && due && !asking && r == dnstable_res_success) left_page->overdue++;
	if (left_page && late && !asking && r == dnstable_res_success) left_page->late_rows++;
	return r;
}
// what the iterator's counters really are when the program asks for one of them
extern "C" dnstable_res __real_dnstable_iter_get_count(struct dnstable_iter *, dnstable_stat_stage, dnstable_stat_category, bool *, uint64_t *);
extern "C" dnstable_res __wrap_dnstable_iter_get_count(struct dnstable_iter *it, dnstable_stat_stage s, dnstable_stat_category c, bool *ex, uint64_t *v)
{
	if (left_page && it) {
		dumped_at = SIM.now_ns;
		Left &l = *left_page; l.asked++; l.stages = l.cats = 0;
		while (l.stages < 32 && dnstable_stat_stage_to_str((dnstable_stat_stage)l.stages)) l.stages++;
		while (l.cats < 16 && dnstable_stat_category_to_str((dnstable_stat_category)l.cats)) l.cats++;
		for (unsigned i = 0; i < l.stages; i++) for (unsigned k = 0; k < l.cats; k++) {
			bool e = false; uint64_t x = 0;
			__real_dnstable_iter_get_count(it, (dnstable_stat_stage)i, (dnstable_stat_category)k, &e, &x);
			l.cnt[i][k] = x; l.ex[i][k] = e;
		}
	}
	return __real_dnstable_iter_get_count(it, s, c, ex, v);
}
bool cli_op(const std::vector<std::string> &v, const ExtraEnv &e)
{
	if (v.size() >= 3 && v[1] == "dump") dump(v, e);
	else if (v.size() >= 4 && v[1] == "lookup") lookup(v, e);
	else if (v.size() >= 3 && v[1] == "merge") merge_command(v, e);
	return true;
}
