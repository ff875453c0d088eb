// my_queue: one producer and one consumer under every interleaving of their
// memory accesses, with and without store buffers.
#include "harness.h"
#include "mm.h"
#include <algorithm>
extern "C" {
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
}
namespace {
void elem(std::vector<uint8_t> &b, uint64_t i) { for (size_t k = 0; k < b.size(); k++) b[k] = (uint8_t)(i * 37 + k * 11 + (i >> 3) + 1); }
Plan gen(Rng &r)
{
	Plan p; static const unsigned nums[] = {2, 2, 4, 4, 8, 16}; static const unsigned sz[] = {1, 4, 8, 3, 13, 24};
	static const char *modes[] = {"sc", "sc", "tso", "pso", "weak"};
	bool mutex = r.chance(1, 5); static const unsigned dens[] = {1, 3, 8, 30};
	unsigned num = nums[r.below(6)], items = r.range(1, 14), esz = r.chance(1, 30) ? r.range(25, 300) : sz[r.below(6)];
	const char *mode = mutex ? "sc" : modes[r.below(5)]; unsigned dseed = r.below(1000000), den = dens[r.below(4)];	// a byte at a time is a fair way of copying: steps for that, and for the buffers to drain
	p.push_back(fmt("cfg - impl=%s num=%u size=%u mode=%s dseed=%u den=%u items=%u maxsteps=%u rot=%u pp=%u pc=%u api=%d", mutex ? "mutex" : "mb", num, esz, mode, dseed,
		den, items, 200000 + items * esz * den * 20, (unsigned)r.below(2 * num), (unsigned)r.below(4), (unsigned)r.below(4), (int)r.chance(1, 2)));
	if (r.chance(1, 4)) { unsigned k = r.range(1, 4); while (k--) p.push_back(fmt("init num=%u", (unsigned)(r.chance(1, 3) ? r.below(20) : 1u << (r.chance(1, 30) ? 16 + r.below(2) : r.below(11))))); }
	gen_sched(r, p, 2, 40 * items + 20);
	return p;
}
void run(const std::vector<Line> &p)
{
	const my_queue_ops *o = &my_queue_mb_ops; my_queue_ops api = {my_queue_init, my_queue_destroy, my_queue_impl_type, my_queue_insert, my_queue_remove};
	unsigned num = 4, size = 4, items = 4, rot = 0, pp = 0, pc = 0, den = 4; uint64_t dseed = 1; std::string mode = "sc";
	for (auto &l : p) if (l.verb == "cfg") {
		num = l.num("num", 4); size = l.num("size", 4); items = l.num("items", 4); rot = l.num("rot"); pp = l.num("pp"); pc = l.num("pc"); dseed = l.num("dseed", 1); den = l.num("den", 4); mode = l.str("mode", "sc");
		if (l.str("impl") == "mutex") o = &my_queue_mutex_ops; else if (l.num("api")) o = &api;
	}
	for (auto &l : p) if (l.verb == "init") {
		unsigned n = l.num("num"); my_queue *q; { Track t; q = o->init(n, size); }
		bool good = n >= 2 && !(n & (n - 1));
		if (good != (q != nullptr)) fail("init-size", fmt("my_queue_init with %u entries returned %s", n, q ? "a queue" : "NULL"));
		if (q && (uint64_t)n * size <= 1u << 20) {		// one user, filled and emptied
			std::vector<uint8_t> a(size), b(size); unsigned x; uint64_t in = 0, out = 0;
			for (unsigned round = 0; round < (n > 4096 ? 1 : 3); round++) {
				for (elem(a, in); o->insert(q, a.data(), &x); elem(a, in)) { in++; if (x != n - 1 - (in - out)) fail("space-wrong", fmt("space %u with %llu of %u", x, (unsigned long long)(in - out), n)); if (in - out >= n) fail("capacity", "insert never reports a full queue"); }
				if (in - out != n - 1) fail("capacity", fmt("a queue of %u holds %llu", n, (unsigned long long)(in - out)));
				for (unsigned k = round ? n / 2 : n - 1; k; k--) { if (!o->remove(q, b.data(), &x)) fail("lost", "a single thread finds the queue empty too early"); elem(a, out++); if (a != b) fail("element-wrong", fmt("element %llu of a queue of %u", (unsigned long long)(out - 1), n)); if (x != in - out) fail("count-wrong", fmt("count %u with %llu left", x, (unsigned long long)(in - out))); }
			}
		}
		if (q) { Track t; o->destroy(&q); if (q) fail("destroy-null", "my_queue_destroy leaves the pointer set"); }
	}
	if (heap_live()) fail("leak", "my_queue_init or my_queue_destroy leaks");
	my_queue *q; { Track t; q = o->init(num, size); }
	if (!q) fail("init-size", fmt("my_queue_init with %u entries returned NULL", num));
	mm_reset(mode == "tso" ? MM_TSO : mode == "pso" ? MM_PSO : mode == "weak" ? MM_WEAK : MM_SC, dseed, den);
	heap_blocks([](const volatile void *a, size_t n) { mm_share(a, n); });
	bool sc = mode == "sc";
	std::vector<uint8_t> e(size), g(size);
	// capacity, from a queue with one user; then move the positions on
	unsigned cap = 0, x;
	while (o->insert(q, e.data(), &x)) { if (x != num - 2 - cap) fail("space-wrong", fmt("space %u after %u of %u insertions", x, cap + 1, num)); if (++cap > num) fail("capacity", "insert never reports a full queue"); }
	if (cap != num - 1) fail("capacity", fmt("a queue of %u holds %u", num, cap));
	for (unsigned i = 0; i < cap; i++) { if (!o->remove(q, g.data(), &x)) fail("lost", "a single thread finds the queue empty too early"); if (x != cap - 1 - i) fail("count-wrong", fmt("count %u with %u left", x, cap - 1 - i)); }
	if (o->remove(q, g.data(), nullptr)) fail("invented", "an empty queue returned an element");
	for (unsigned i = 0; i < rot; i++) { o->insert(q, e.data(), nullptr); o->remove(q, g.data(), nullptr); }
	uint64_t ins_begun = 0, ins = 0, rem_begun = 0, rem = 0;	// by the callers' account
	uint64_t fulls = 0, empties = 0;
	sched_stuck = [&](const std::string &) { fail("stuck", fmt("no progress: %llu inserted, %llu removed of %u", (unsigned long long)ins, (unsigned long long)rem, items)); };
	sched_spawn(0, [&] {
		std::vector<uint8_t> b(size), keep(size);
		for (unsigned i = 0; i < items; i++) {
			elem(b, i); keep = b;
			for (;;) {
				uint64_t r0 = rem; unsigned space = 99999; bool want = (i + pp) % 2;
				ins_begun = i + 1;
				bool ok = o->insert(q, b.data(), want ? &space : nullptr); mm_op_end();
				uint64_t r1 = rem_begun;
				if (b != keep) fail("element-changed", "insert changes the caller's element");
				SIM.log("insert %u %d %u", i, ok, want ? space : 0);
				if (ok) {
					ins = i + 1;
					if (want && (int64_t)space > (int64_t)cap - (int64_t)(i + 1) + (int64_t)r1) fail("space-wrong", fmt("insert reports %u free of %u with %u inserted and at most %llu removed", space, cap, i + 1, (unsigned long long)r1));
					if (want && sc && (int64_t)space < (int64_t)cap - (int64_t)(i + 1) + (int64_t)r0) fail("space-wrong", fmt("insert reports %u free of %u with %u inserted and at least %llu removed", space, cap, i + 1, (unsigned long long)r0));
					break;
				}
				fulls++;
				ins_begun = i;
				if (want && space != 0) fail("space-wrong", fmt("a full queue reports %u free", space));
				if (sc && i - r0 < cap) fail("false-full", fmt("insert fails with %llu of %u elements in the queue", (unsigned long long)(i - r0), cap));
				sched_yield_to_others("full");
			}
			for (unsigned k = 0; k < pp; k++) sched_point("produce");
		}
	});
	sched_spawn(0, [&] {
		std::vector<uint8_t> want(size); uint8_t *b = (uint8_t *)malloc(size);
		for (unsigned i = 0; i < items; i++) {
			elem(want, i);
			for (;;) {
				uint64_t i0 = ins; unsigned count = 99999; bool wc = (i + pc) % 2;
				rem_begun = i + 1;
				memset(b, 0, size);
				bool ok = o->remove(q, b, wc ? &count : nullptr); mm_op_end();
				uint64_t i1 = ins_begun;
				SIM.log("remove %u %d %u", i, ok, wc ? count : 0);
				if (ok) {
					if (i1 < i + 1) fail("invented", fmt("element %u is removed before it is inserted", i));
					if (memcmp(b, want.data(), size)) fail("element-wrong", fmt("element %u of %u bytes is not the one inserted", i, size));
					rem = i + 1;
					if (wc && (int64_t)count > (int64_t)i1 - (int64_t)(i + 1)) fail("count-wrong", fmt("remove reports %u left of %llu inserted after %u removals", count, (unsigned long long)i1, i + 1));
					if (wc && sc && (int64_t)count < (int64_t)i0 - (int64_t)(i + 1)) fail("count-wrong", fmt("remove reports %u left of at least %llu inserted after %u removals", count, (unsigned long long)i0, i + 1));
					break;
				}
				empties++;
				rem_begun = i;
				if (wc && count != 0) fail("count-wrong", fmt("an empty queue reports %u elements", count));
				if (sc && i0 > i) fail("false-empty", fmt("remove fails with %llu elements in the queue", (unsigned long long)(i0 - i)));
				sched_yield_to_others("empty");
			}
			for (unsigned k = 0; k < pc; k++) sched_point("consume");
		}
		free(b);
	});
	sched_run();
	mm_flush();
	SIM.count("queue_elements", items); SIM.count("queue_full", fulls); SIM.count("queue_empty", empties); SIM.count("buffered_stores", mm_buffered());
	if (o->remove(q, g.data(), nullptr)) fail("invented", "an element is left after all were removed");
	mm_reset(MM_SC, 0, 1);
	{ Track t; o->destroy(&q); }
	if (q) fail("destroy-null", "my_queue_destroy leaves the pointer set");
	if (heap_live()) fail("leak", "my_queue_destroy leaks:" + heap_report());
	sched_stuck = nullptr;
	OUT.nontrivial = true;
}
}
const Profile P_QUEUE = {"queue", gen, run};
