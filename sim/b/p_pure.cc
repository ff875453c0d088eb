// Code that should depend on its arguments alone: checksums and text codecs,
// from several threads, in pieces of any size, from a fresh process, with
// buffers that end at an unmapped page.
#include "harness.h"
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "libmy/crc32c.h"
#include "libmy/b32_decode.h"
#include "libmy/b32_encode.h"
#include "libmy/b64_decode.h"
#include "libmy/b64_encode.h"
bool __real_my_crc32c_sse42_supported(void) __attribute__((weak));
uint32_t __real_my_crc32c_sse42(const uint8_t *, size_t) __attribute__((weak));
}
namespace {
bool cpu_has, cpu_told;		// what the simulated processor can do, whether it was asked
my_crc32c_fp untouched;		// the entry point before any initialisation
__attribute__((constructor(101))) void early() { untouched = my_crc32c; }
}
extern "C" {
bool __wrap_my_crc32c_sse42_supported(void) { cpu_told = true; return cpu_has; }
uint32_t __wrap_my_crc32c_sse42(const uint8_t *b, size_t n)
{
	if (sched_active() && !cpu_has) fail("illegal-instruction", "the SSE 4.2 code runs on a processor without it");
	return __real_my_crc32c_sse42(b, n);
}
}
namespace {
// n bytes that end (or start) at an unmapped page, marked bytes on the other side
std::vector<uint8_t *> pool;
struct Buf {
	enum { SPAN = 2 << 20, MARK = 64 };
	uint8_t *map, *p; size_t n; bool end;
	Buf(size_t n_, bool end_) : n(n_), end(end_)
	{
		Pause z;
		if (n + MARK > SPAN) sim_die("simulator", "buffer too large");
		if (pool.empty()) {
			map = (uint8_t *)mmap(nullptr, SPAN + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(map + 4096, SPAN, PROT_READ | PROT_WRITE);
		} else { map = pool.back(); pool.pop_back(); }
		p = end ? map + 4096 + SPAN - n : map + 4096;
		memset(end ? p - MARK : p, 0xa5, n + MARK);
	}
	~Buf() { Pause z; pool.push_back(map); }
	Buf(const Buf &) = delete;
	bool intact() const { for (unsigned i = 0; i < MARK; i++) if ((end ? p - MARK : p + n)[i] != 0xa5) return false; return true; }
};
std::string bytes(uint64_t salt, size_t n)
{
	Rng r(salt); std::string s; unsigned k = r.below(4);
	for (size_t i = 0; i < n; i++) s += k == 0 ? (char)0xff : k == 1 ? (char)(r.chance(1, 2) ? 0 : r.u64()) : (char)r.u64();
	return s;
}
// ---- references ----
uint32_t crc_ref(const std::string &s)
{
	uint32_t c = ~0u;
	for (unsigned char b : s) { c ^= b; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0x82f63b78u : 0); }
	return ~c;
}
std::string text_ref(const std::string &s, unsigned bits, const char *abc)
{
	std::string o; unsigned acc = 0, have = 0;
	for (unsigned char b : s) { acc = (acc << 8 | b) & 0xffff; have += 8; while (have >= bits) { have -= bits; o += abc[acc >> have & ((1 << bits) - 1)]; } }
	if (have) o += abc[acc << (bits - have) & ((1 << bits) - 1)];
	return o;
}
const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *B32 = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
std::string b64_ref(const std::string &s) { std::string o = text_ref(s, 6, B64); while (o.size() % 4) o += '='; return o; }
std::string b32_ref(const std::string &s) { return text_ref(s, 5, B32); }
std::string show(const std::string &s) { std::string o; for (unsigned char c : s.substr(0, 40)) o += c > 32 && c < 127 ? fmt("%c", c) : fmt("\\x%02x", c); return o + (s.size() > 40 ? "..." : ""); }

// cut s at places the salt chooses; pieces may be empty
std::vector<std::string> pieces(const std::string &s, uint64_t salt)
{
	Rng r(salt * 7 + 1); std::vector<std::string> v; unsigned most = s.size() > 400 ? (r.chance(1, 2) ? r.range(2, 600) : s.size()) : r.chance(1, 3) ? 2 : r.range(1, 12); size_t i = 0;
	if (r.chance(1, 6)) return {s};
	while (i < s.size() || r.chance(1, 4)) { size_t n = std::min<size_t>(s.size() - i, r.below(most + 1)); v.push_back(s.substr(i, n)); i += n; }
	return v;
}
void do_crc(const Line &l)
{
	std::string d = bytes(l.num("salt"), l.num("n")); unsigned off = l.num("off"); bool end = l.num("end");
	Buf b(d.size() + (end ? 0 : off), end); memcpy(b.p + (end ? 0 : off), d.data(), d.size());
	uint32_t got = my_crc32c(b.p + (end ? 0 : off), d.size()), want = crc_ref(d);
	SIM.log("crc %zu %08x", d.size(), got);
	if (got != want) fail("crc-wrong", fmt("checksum of %zu bytes at offset %u on a processor %s SSE 4.2 is %08x, not %08x", d.size(), off, cpu_has ? "with" : "without", got, want));
	if (memcmp(b.p + (end ? 0 : off), d.data(), d.size())) fail("input-changed", "the checksum routine writes to its input");
	SIM.count("checksums"); OUT.nontrivial = true;
}
void do_b64(const Line &l)
{
	std::string d = bytes(l.num("salt"), l.num("n")), want = b64_ref(d), got; bool end = l.num("end");
	std::unique_ptr<base64_encodestate> st(new base64_encodestate); memset(st.get(), 0x5a, sizeof *st);
	base64_init_encodestate(st.get());
	for (auto &x : pieces(d, l.num("cut"))) {
		Buf in(x.size(), end), out((4 * x.size() + 2) / 3, end); memcpy(in.p, x.data(), x.size());
		int k = base64_encode_block((const char *)in.p, x.size(), (char *)out.p, st.get());
		if (k < 0 || (size_t)k > out.n) fail("b64-length", fmt("base64_encode_block returns %d for %zu bytes", k, x.size()));
		if (!out.intact() || !in.intact() || memcmp(in.p, x.data(), x.size())) fail("b64-overrun", "base64_encode_block writes outside its output");
		got.append((char *)out.p, k);
		SIM.count("b64_pieces");
	}
	Buf out(3, end); int k = base64_encode_blockend((char *)out.p, st.get());
	if (k < 0 || k > 3 || !out.intact()) fail("b64-length", fmt("base64_encode_blockend returns %d", k));
	got.append((char *)out.p, k);
	SIM.log("b64 %s", got.c_str());
	if (got != want) fail("b64-encode", "base64 of " + show(d) + " is " + show(got) + ", not " + show(want));
	// and back, with characters in between that are none of the alphabet
	Rng r(l.num("cut")); std::string text; static const char junk[] = "\n\r \t-_.,*{|}~\x7f\x80\xff!\"#$%&'()\x01";
	if (l.num("nopad")) while (!want.empty() && want.back() == '=') want.pop_back();
	for (char c : want) { if (l.num("junk")) while (r.chance(1, 4)) text += junk[r.below(sizeof junk - 1)]; text += c; }
	std::string back; std::unique_ptr<base64_decodestate> ds(new base64_decodestate); memset(ds.get(), 0x5a, sizeof *ds);
	base64_init_decodestate(ds.get());
	for (auto &x : pieces(text, l.num("cut") + 99)) {
		// a decoder keeps an unfinished byte behind those it returns
		Buf in(x.size(), end), o((3 * x.size() + 3) / 4 + 1, end); memcpy(in.p, x.data(), x.size());
		int m = base64_decode_block((const char *)in.p, x.size(), (char *)o.p, ds.get());
		if (m < 0 || (size_t)m > o.n) fail("b64-length", fmt("base64_decode_block returns %d for %zu characters", m, x.size()));
		if (!o.intact() || !in.intact() || memcmp(in.p, x.data(), x.size())) fail("b64-overrun", "base64_decode_block writes outside its output");
		back.append((char *)o.p, m);
		SIM.count("b64_pieces");
	}
	if (back != d) fail("b64-decode", "base64 text " + show(text) + " decodes to " + show(back) + ", not " + show(d));
	OUT.nontrivial = true;
}
void do_b32(const Line &l)
{
	std::string d = bytes(l.num("salt"), l.num("n")), want = b32_ref(d); bool end = l.num("end");
	uint64_t rm = l.num("room", 1000); size_t room = rm >= 900 ? want.size() + (rm - 900) % 100 : std::min<size_t>(rm, want.size());
	{
		Buf in(d.size(), end), out(room, end); memcpy(in.p, d.data(), d.size());
		size_t k = base32_encode((char *)out.p, room, in.p, d.size());
		if (k > room) fail("b32-length", fmt("base32_encode returns %zu with room for %zu", k, room));
		std::string got((char *)out.p, k);
		SIM.log("b32 %s", got.c_str());
		if (!out.intact() || memcmp(in.p, d.data(), d.size())) fail("b32-overrun", "base32_encode writes outside its output");
		if (got != want.substr(0, room)) fail("b32-encode", fmt("base32 of %zu bytes ", d.size()) + show(d) + " is " + show(got) + ", not " + show(want.substr(0, room)));
	}
	Rng r(l.num("cut")); std::string text = want; bool bad = l.num("bad") && !text.empty();
	for (char &c : text) if (r.chance(1, 2)) c = tolower(c);
	if (bad) { static const char junk[] = "WXYZwxyz-+/ \n@[`{:\x80\xff\x7f"; text[r.below(text.size())] = junk[r.below(sizeof junk - 1)]; }
	else if (l.num("pad")) while (text.size() % 8) text += '=';
	size_t groups = (want.size() + 7) / 8, rooms[] = {d.size(), groups * 5, groups * 5 + 30};
	size_t ro = bad ? rooms[1 + r.below(2)] : rm < 900 && !l.num("pad") ? std::min<size_t>(rm, d.size()) : rooms[r.below(3)];
	Buf in(text.size(), end), out(ro, end); memcpy(in.p, text.data(), text.size());
	size_t k = base32_decode(out.p, ro, (const char *)in.p, text.size());
	SIM.log("unb32 %zu", k);
	if (bad) { if (k != (size_t)-1) fail("b32-accepted", "base32 text " + show(text) + fmt(" decodes to %zu bytes", k)); }
	else {
		size_t need = std::min(d.size(), ro);
		if (k > ro || k < need) fail("b32-length", "base32 text " + show(text) + fmt(" of %zu bytes decodes to %zu with room for %zu", d.size(), k, ro));
		if (memcmp(out.p, d.data(), need)) fail("b32-decode", "base32 text " + show(text) + " decodes to " + show(std::string((char *)out.p, need)) + ", not " + show(d));
	}
	if (!out.intact()) fail("b32-overrun", "base32_decode writes outside its output");
	SIM.count("b32_texts"); OUT.nontrivial = true;
}
// a run begins in a process where nothing of this has been used
void fresh(const std::function<void()> &body)
{
	struct Res { uint64_t hash, now, steps, checks, pieces, texts; bool ok, nontrivial; };
	static Res *r; if (!r) r = (Res *)mmap(nullptr, sizeof *r, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(r, 0, sizeof *r);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		std::map<std::string, uint64_t> c; SIM.counters = &c;
		body();
		r->hash = SIM.hash; r->now = SIM.now_ns; r->nontrivial = OUT.nontrivial; r->ok = true;
		r->checks = c["checksums"]; r->pieces = c["b64_pieces"]; r->texts = c["b32_texts"];
		_exit(0);
	}
	int st = 0; waitpid(pid, &st, 0);
	if (SIM.shared && SIM.shared->violated) _exit(3);
	if (!r->ok) { if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } _exit(99); }
	SIM.hash = r->hash; SIM.now_ns = r->now; OUT.nontrivial = r->nontrivial;
	SIM.count("checksums", r->checks); SIM.count("b64_pieces", r->pieces); SIM.count("b32_texts", r->texts);
}
unsigned size(Rng &r) { if (r.chance(1, 400)) return r.chance(1, 3) ? r.range(65530, 70000) : r.range(261, 9000); return r.chance(1, 8) ? 0 : r.chance(1, 6) ? r.range(60, 260) : r.range(1, 24); }
Plan gen_crc(Rng &r)
{
	Plan p; unsigned n = r.range(1, 4), k = r.range(2, 8);
	p.push_back(fmt("cpu - sse=%u early=%u", (unsigned)r.below(2), (unsigned)r.chance(2, 3)));
	p.push_back("cfg - maxsteps=20000000");
	while (k--) p.push_back(fmt("crc - thr=%u n=%u off=%u end=%u salt=%u", (unsigned)r.below(n), r.chance(1, 3000) ? r.range(524280, 1100000) : size(r), (unsigned)r.below(9), (unsigned)r.below(2), (unsigned)r.below(1000000)));
	gen_sched(r, p, n, r.range(20, 200));
	return p;
}
void run_crc(const std::vector<Line> &p)
{
	for (auto &l : p) if (l.verb == "cpu") {
		cpu_has = l.num("sse") && __real_my_crc32c_sse42_supported && __real_my_crc32c_sse42_supported();
		if (l.num("early") || !cpu_has) my_crc32c = untouched;		// detection at start saw the real processor
	}
	if (!cpu_has) SIM.count("cpu_without_sse42");
	fresh([&] {
		std::set<int> t; for (auto &l : p) if (l.verb == "crc") t.insert(l.num("thr"));
		for (int k : t) sched_spawn(0, [&p, k] { for (auto &l : p) if (l.verb == "crc" && (int)l.num("thr") == k) do_crc(l); });
		if (!t.empty()) sched_run();
	});
}
Plan gen_codec(Rng &r)
{
	Plan p; unsigned n = r.range(1, 3), k = r.range(1, 5), kind = r.below(3);
	p.push_back("cfg - maxsteps=20000000");
	while (k--) {
		bool b64 = kind == 0 ? r.chance(1, 2) : kind == 1;
		std::string l = fmt("%s - thr=%u n=%u salt=%u cut=%u end=%u", b64 ? "b64" : "b32", (unsigned)r.below(n), size(r), (unsigned)r.below(1000000), (unsigned)r.below(1000000), (unsigned)r.below(2));
		if (b64) { if (r.chance(1, 3)) l += " junk=1"; if (r.chance(1, 4)) l += " nopad=1"; }
		else { if (r.chance(1, 6)) l += " bad=1"; if (r.chance(1, 4)) l += " pad=1"; if (r.chance(2, 3)) l += fmt(" room=%u", (unsigned)(r.chance(1, 2) ? r.below(40) : 900 + r.below(20))); }
		p.push_back(l);
	}
	gen_sched(r, p, n, r.range(20, 300));
	return p;
}
void run_codec(const std::vector<Line> &p)
{
	fresh([&] {
		auto ours = [](const Line &l) { return l.verb == "b64" || l.verb == "b32"; };
		std::set<int> t; for (auto &l : p) if (ours(l)) t.insert(l.num("thr"));
		for (int k : t) sched_spawn(0, [&p, k, ours] { for (auto &l : p) if (ours(l) && (int)l.num("thr") == k) { if (l.verb == "b64") do_b64(l); else do_b32(l); } });
		if (!t.empty()) sched_run();
	});
}
}
const Profile P_CRC = {"crc", gen_crc, run_crc}, P_CODEC = {"codec", gen_codec, run_codec};
