#include "mm.h"
#include <algorithm>

namespace {
struct Ent { uint8_t *a; unsigned n; uint8_t before[8], after[8]; bool open, marker; };
struct Copy { uint8_t *d; const uint8_t *s; size_t n; };
MmMode mode; Rng rng; unsigned den = 4; bool on;
std::vector<std::pair<uint8_t *, size_t>> shared;
std::map<int, std::vector<Ent>> buf; std::map<int, std::vector<Copy>> late;
int in = -1;		// whose view memory shows
uint64_t nbuf;

bool is_shared(const volatile void *p) { for (auto &s : shared) if ((uint8_t *)p >= s.first && (uint8_t *)p < s.first + s.second) return true; return false; }
bool is_stack(const volatile void *p) { intptr_t d = (intptr_t)p - (intptr_t)__builtin_frame_address(0); return d > -600000 && d < 600000; }
void settle(int t) { auto i = buf.find(t); if (i == buf.end()) return; for (auto &e : i->second) if (e.open) { memcpy(e.after, e.a, e.n); e.open = false; } }
void undo(int t) { settle(t); auto i = buf.find(t); if (i == buf.end()) return; auto &v = i->second; for (size_t k = v.size(); k-- > 0;) if (!v[k].marker) memcpy(v[k].a, v[k].before, v[k].n); }
void redo(int t) { auto i = buf.find(t); if (i == buf.end()) return; for (auto &e : i->second) if (!e.marker) { memcpy(e.before, e.a, e.n); memcpy(e.a, e.after, e.n); } }
bool overlap(const Ent &a, const Ent &b) { return !a.marker && !b.marker && a.a < b.a + b.n && b.a < a.a + a.n; }
// make entry k of t visible; memory shows the global state
void commit(std::vector<Ent> &v, size_t k) { memcpy(v[k].a, v[k].after, v[k].n); v.erase(v.begin() + k); while (!v.empty() && v[0].marker) v.erase(v.begin()); }
void drain_some()
{
	bool any = false; for (auto &b : buf) any = any || !b.second.empty();
	if (!any) return;
	if (in >= 0) undo(in);
	for (auto &b : buf) {
		auto &v = b.second;
		while (!v.empty() && v[0].marker) v.erase(v.begin());
		while (!v.empty() && rng.chance(1, den)) {
			size_t k = 0;
			if (mode != MM_TSO) {		// any store not behind a barrier or an overlapping one
				std::vector<size_t> c;
				for (size_t i = 0; i < v.size() && !v[i].marker; i++) { bool ok = true; for (size_t j = 0; j < i; j++) if (overlap(v[i], v[j])) ok = false; if (ok) c.push_back(i); }
				k = c[rng.below(c.size())];
			}
			commit(v, k);
		}
	}
	if (in >= 0) redo(in);
}
void drain_all(int t)
{
	auto &v = buf[t];
	if (v.empty()) return;
	settle(t);
	undo(t);
	for (auto &e : v) if (!e.marker) memcpy(e.a, e.after, e.n);
	v.clear();
}
void late_run(int t) { auto &v = late[t]; for (auto &c : v) memcpy(c.d, c.s, c.n); v.clear(); }
void sw_out(int t) { undo(t); in = -1; }
void sw_in(int t) { in = t; redo(t); }
void point(const char *w) { settle(sched_self()); sched_point(w); if (on) drain_some(); }
void rd(const volatile void *p) { if (!sched_active() || is_stack(p)) return; Pause z; point(is_shared(p) ? "load shared" : "load"); }
void wr(const volatile void *p, size_t n)
{
	if (!sched_active() || is_stack(p)) return;
	Pause z;
	bool sh = is_shared(p);
	point(sh ? "store shared" : "store");
	if (!on || mode == MM_SC || !sh) return;
	int t = sched_self(); uint8_t *a = (uint8_t *)p;
	while (n) {
		unsigned k = std::min<size_t>(n, 8);
		Ent e; e.a = a; e.n = k; e.open = true; e.marker = false; memcpy(e.before, a, k);
		settle(t);
		buf[t].push_back(e); nbuf++;
		a += k; n -= k;
		if (n) sim_die("simulator", "wide store");
	}
}
}
void mm_reset(MmMode m, uint64_t seed, unsigned d) { mode = m; rng = Rng(seed); den = d ? d : 1; shared.clear(); buf.clear(); late.clear(); in = -1; nbuf = 0; on = m != MM_SC; if (on) sched_on_switch(sw_out, sw_in); }
void mm_share(const volatile void *p, size_t n) { shared.push_back({(uint8_t *)p, n}); }
void mm_op_end() { Pause z; if (!on) return; late_run(sched_self()); settle(sched_self()); }
void mm_flush() { if (in >= 0) undo(in); in = -1; for (auto &b : buf) { for (auto &e : b.second) if (!e.marker) memcpy(e.a, e.after, e.n); b.second.clear(); } for (auto &l : late) late_run(l.first); }
uint64_t mm_buffered() { return nbuf; }
extern "C" {
void sim_mb() { if (!sched_active()) return; Pause z; point("mb"); late_run(sched_self()); if (on) drain_all(sched_self()); }
void sim_rmb() { if (!sched_active()) return; Pause z; point("rmb"); late_run(sched_self()); }
void sim_wmb() { if (!sched_active()) return; Pause z; point("wmb"); if (on) { settle(sched_self()); Ent e; memset(&e, 0, sizeof e); e.marker = true; auto &v = buf[sched_self()]; if (!v.empty()) v.push_back(e); } }
void *sim_memcpy(void *d, const void *s, size_t n)
{
	if (!sched_active()) return memcpy(d, s, n);
	if (on && mode == MM_WEAK && is_shared(s) && !is_shared(d)) {	// its loads may be done any time up to the next barrier
		Pause z; point("copy"); late[sched_self()].push_back(Copy{(uint8_t *)d, (const uint8_t *)s, n});
		if (rng.chance(1, 3)) late_run(sched_self());
		return d;
	}
	bool stackd = is_stack(d), stacks = is_stack(s);
	for (size_t i = 0; i < n;) {
		size_t k = std::min<size_t>(n - i, 4);
		if (!stacks) rd((const char *)s + i);
		if (!stackd) wr((char *)d + i, k);
		memcpy((char *)d + i, (const char *)s + i, k);
		i += k;
	}
	return d;
}
void *sim_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() { if (sched_active()) { Pause z; point("return"); } }
#define RW(N) \
void __tsan_read##N(void *p) { rd(p); } void __tsan_write##N(void *p) { wr(p, N); } \
void __tsan_unaligned_read##N(void *p) { rd(p); } void __tsan_unaligned_write##N(void *p) { wr(p, N); } \
void __tsan_volatile_read##N(void *p) { rd(p); } void __tsan_volatile_write##N(void *p) { wr(p, N); } \
void __tsan_unaligned_volatile_read##N(void *p) { rd(p); } void __tsan_unaligned_volatile_write##N(void *p) { wr(p, N); } \
void __tsan_read_write##N(void *p) { rd(p); wr(p, N); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *p) { rd(p); } void __tsan_write16(void *p) { wr(p, 8); }
void __tsan_unaligned_read16(void *p) { rd(p); } void __tsan_unaligned_write16(void *p) { wr(p, 8); }
void __tsan_read_range(void *p, size_t) { rd(p); } void __tsan_write_range(void *p, size_t n) { if (is_shared(p) && on) sim_mb(); rd(p); (void)n; }
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
// orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void __tsan_atomic_thread_fence(int o) { if (o >= 4) sim_mb(); else if (o == 3) sim_wmb(); else if (o) sim_rmb(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int o) { rd(p); T v = *p; if (o) { if (sched_active()) { Pause z; late_run(sched_self()); } } return v; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int o) { if (o >= 3) sim_wmb(); wr(p, sizeof(T)); *p = v; if (o == 5) sim_mb(); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = v; sim_mb(); return x; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = x + v; sim_mb(); return x; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = x - v; sim_mb(); return x; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = x & v; sim_mb(); return x; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = x | v; sim_mb(); return x; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { sim_mb(); rd(p); T x = *p; *p = x ^ v; sim_mb(); return x; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { sim_mb(); rd(p); if (*p == *e) { *p = v; sim_mb(); return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { sim_mb(); rd(p); T x = *p; if (x == e) { *p = v; sim_mb(); } return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
