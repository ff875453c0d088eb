// atomic.h, atomic_64.h, atomic_ptr.h: threads operate on one counter or pointer under every interleaving of
// their memory accesses; the history must be that of some order in which each operation happens at once.
#include "harness.h"
#include "atoms.h"
#include "mm.h"
#include <set>
namespace {
const char *NAME[] = {"add", "sub", "zero", "subtest", "inc", "dec", "dectest", "inctest", "addneg", "set", "read"};
int op_of(const std::string &s) { for (int i = 0; i < AT_OPS; i++) if (s == NAME[i]) return i; return AT_READ; }
Plan gen(Rng &r)
{
	static const int kinds[] = {32, 64, 1};
	Plan p; int kind = kinds[r.below(3)]; unsigned n = r.range(1, 4), k = r.range(2, 9);
	bool wide = kind == 64 && r.chance(1, 2);
	auto val = [&]() -> int64_t {
		if (kind == 1) return r.below(4);
		if (wide && r.chance(1, 2)) { static const int64_t big[] = {1LL << 31, 1LL << 32, (1LL << 32) + 1, -(1LL << 32), 5000000000LL, -3000000000LL, 1LL << 40, -(1LL << 31) - 1}; return big[r.below(8)]; }
		if (r.chance(1, 8)) { static const int64_t mid[] = {65535, 65536, -65536, 1 << 24, 255, 256}; return mid[r.below(6)]; }
		return (int64_t)r.range(0, 5) - 2;
	};
	p.push_back(fmt("var - kind=%d init=%lld", kind, (long long)val()));
	unsigned only = r.below(3);		// all operations, reference counting, or collecting
	for (unsigned i = 0; i < k; i++) {
		int op = r.below(AT_OPS);
		if (kind == 1) op = r.chance(1, 2) ? AT_SET : AT_READ;
		else if (only == 1) { static const int o[] = {AT_INC, AT_DEC_TEST, AT_DEC_TEST, AT_INC_TEST, AT_SUB_TEST}; op = o[r.below(5)]; }
		else if (only == 2) { static const int o[] = {AT_ADD, AT_ZERO, AT_INC, AT_ADD_NEG, AT_SUB}; op = o[r.below(5)]; }
		p.push_back(fmt("at - thr=%u op=%s x=%lld", (unsigned)r.below(n), NAME[op], (long long)val()));
	}
	gen_sched(r, p, n, r.range(8, 60));
	return p;
}
struct Ev { int op; int64_t x, ret; uint64_t inv, res; };
// what the operation gives back and leaves behind when it happens at once
int64_t apply(int kind, const Ev &e, int64_t &s)
{
	if (kind == 1) { if (e.op == AT_SET) { s = e.x; return 1; } return s; }
	int64_t o = s;
	switch (e.op) {
	case AT_ADD: s += e.x; return 0;
	case AT_SUB: s -= e.x; return 0;
	case AT_ZERO: s = 0; return o;
	case AT_SUB_TEST: s -= e.x; return s == 0;
	case AT_INC: s++; return 0;
	case AT_DEC: s--; return 0;
	case AT_DEC_TEST: s--; return s == 0;
	case AT_INC_TEST: s++; return s == 0;
	case AT_ADD_NEG: s += e.x; return s < 0;
	case AT_SET: s = e.x; return 0;
	default: return s;
	}
}
struct Lin {
	int kind; const std::vector<Ev> &h; int64_t last; std::set<std::pair<unsigned, int64_t>> seen;
	bool go(unsigned done, int64_t s)
	{
		if (done == (1u << h.size()) - 1) return s == last;
		if (!seen.insert({done, s}).second) return false;
		uint64_t first = ~0ULL;		// nothing that began after something unfinished here had ended can come next
		for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].res < first) first = h[i].res;
		for (size_t i = 0; i < h.size(); i++) {
			if (done >> i & 1 || h[i].inv > first) continue;
			int64_t t = s, r;
			if (kind == 1 && h[i].op == AT_SET && !h[i].ret) r = 0;	// a pointer that was not set
			else r = apply(kind, h[i], t);
			bool test = kind != 1 && (h[i].op == AT_SUB_TEST || h[i].op == AT_DEC_TEST || h[i].op == AT_INC_TEST || h[i].op == AT_ADD_NEG);
			if (test ? (r != 0) == (h[i].ret != 0) : r == h[i].ret) if (go(done | 1u << i, t)) return true;
		}
		return false;
	}
};
void run(const std::vector<Line> &p)
{
	int kind = 32; int64_t init = 0;
	for (auto &l : p) if (l.verb == "var") { kind = l.num("kind", 32); init = strtoll(l.str("init", "0").c_str(), nullptr, 10); }
	std::vector<Ev> h; uint64_t tick = 0; std::set<int> t; unsigned n = 0;
	for (auto &l : p) if (l.verb == "at" && n++ < 20) t.insert(l.num("thr"));
	if (t.empty()) return;
	mm_reset(MM_SC, 1, 1);
	atom_start(kind, init);
	for (int k : t) sched_spawn(0, [&, k] {
		for (auto &l : p) if (l.verb == "at" && (int)l.num("thr") == k && h.size() < 20) {
			size_t i = h.size(); h.push_back(Ev{op_of(l.str("op")), strtoll(l.str("x", "0").c_str(), nullptr, 10), 0, tick++, ~0ULL});
			if (kind == 32 && h[i].x != (int)h[i].x) h[i].x = 1;
			int op = h[i].op; int64_t x = h[i].x;
			sched_point("call");
			int64_t r = atom_op(kind, op, x);
			h[i].ret = r; h[i].res = tick++;
			SIM.log("thread %d %s %lld gives %lld", k, NAME[op], (long long)x, (long long)r);
		}
	});
	sched_run();
	int64_t last = atom_op(kind, AT_READ, 0);
	Lin lin{kind, h, last, {}};
	std::string s; for (auto &e : h) s += fmt("%s%s(%lld)=%lld@%llu-%llu", s.empty() ? "" : " ", NAME[e.op], (long long)e.x, (long long)e.ret, (unsigned long long)e.inv, (unsigned long long)e.res);
	for (auto &e : h) if (kind == 1 && e.op == AT_SET && !e.ret) {
		bool rival = false; for (auto &o : h) if (&o != &e && o.op == AT_SET && o.ret && o.inv < e.res && e.inv < o.res) rival = true;
		if (!rival) fail("atomic-refused", "a pointer was not set although no one else set it meanwhile: " + s);
	}
	if (!lin.go(0, init)) fail("atomic-history", fmt("no order of the operations on a %s that starts at %lld and ends at %lld explains %s", kind == 1 ? "pointer" : kind == 64 ? "64 bit counter" : "counter", (long long)init, (long long)last, s.c_str()));
	OUT.nontrivial = h.size() > 1; SIM.count("atomic_operations", h.size()); SIM.count("histories_explained");
}
}
const Profile P_ATOMS = {"atoms", gen, run};
