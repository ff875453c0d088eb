// Simulated libmtbl.  Tables are in memory; every leaf operation is a storage
// step that costs simulated time and may stall.  Keys and values are handed
// out in exactly-sized heap blocks that die at the next call on the iterator,
// so ASan sees any read outside them or after them.
#include "mtbl_sim.h"
#include <algorithm>
#include <cassert>
#include <cerrno>

Disk DISK;
StoreCfg STORE;
uint64_t store_steps, store_open_iters, store_open_sources, store_open_filesets, store_open_mergers, store_open_readers, store_open_options;
static uint64_t n_merge_calls, n_fs_merges;
uint64_t store_merge_calls() { return n_merge_calls; }
uint64_t store_fileset_merges() { return n_fs_merges; }
static uint64_t n_seeks[2]; static int seek_depth;
uint64_t store_seeks(bool ok) { return n_seeks[ok]; }	// seeks asked of storage by the code above it; those that found something
static mtbl_res ri_seek(void *p, const uint8_t *key, size_t len);
static mtbl_res mi_seek(void *p, const uint8_t *key, size_t len);
static mtbl_res fi_seek(void *p, const uint8_t *key, size_t len);
static uint64_t n_rows; static int next_depth;
uint64_t store_rows() { return n_rows; }	// rows storage gave to the code above it
[[noreturn]] void sim_hang(const char *what);

static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
	return x;
}

uint64_t store_deadline = UINT64_MAX, store_late;	// steps begun after the armed deadline

static void step()
{
	store_steps++;
	if (SIM.now_ns > store_deadline) store_late++;
	SIM.now_ns += STORE.lat_ns;
	if (STORE.stall_every && mix(store_steps ^ STORE.lat_salt) % STORE.stall_every == 0) {
		SIM.now_ns += STORE.stall_ns;
		SIM.count("fault_storage_stall");
	}
	if (store_steps > STORE.step_cap)
		sim_hang("storage step cap exceeded");
}

static int cmp(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
	size_t l = la < lb ? la : lb;
	int r = l ? memcmp(a, b, l) : 0;
	if (r) return r;
	return la < lb ? -1 : la > lb ? 1 : 0;
}
static int scmp(const std::string &a, const std::string &b)
{
	return cmp((const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size());
}

/* ---- iter / source ---- */
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func fr; void *clos; };
struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func get_prefix;
	mtbl_source_get_range_func get_range; mtbl_source_free_func fr; void *clos;
};

extern "C" {
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *clos)
{
	assert(s && n);
	store_open_iters++;
	return new mtbl_iter{s, n, f, clos};
}
void mtbl_iter_destroy(struct mtbl_iter **it)
{
	if (*it) {
		if ((*it)->fr) (*it)->fr((*it)->clos);
		delete *it;
		*it = nullptr;
		store_open_iters--;
	}
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *key, size_t len)
{
	if (!it) return mtbl_res_failure;
	if (it->seek != ri_seek && it->seek != mi_seek && it->seek != fi_seek) return it->seek(it->clos, key, len);
	n_seeks[0] += seek_depth++ == 0;
	mtbl_res r = it->seek(it->clos, key, len);
	if (--seek_depth == 0) n_seeks[1] += r == mtbl_res_success;
	return r;
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	if (!it) return mtbl_res_failure;
	if (it->seek != ri_seek && it->seek != mi_seek && it->seek != fi_seek) return it->next(it->clos, k, lk, v, lv);
	next_depth++;
	mtbl_res r = it->next(it->clos, k, lk, v, lv);
	if (--next_depth == 0) n_rows += r == mtbl_res_success;
	return r;
}
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p,
	mtbl_source_get_range_func r, mtbl_source_free_func f, void *clos)
{
	store_open_sources++;
	return new mtbl_source{i, g, p, r, f, clos};
}
void mtbl_source_destroy(struct mtbl_source **s)
{
	if (*s) {
		if ((*s)->fr) (*s)->fr((*s)->clos);
		delete *s;
		*s = nullptr;
		store_open_sources--;
	}
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->get(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->get_prefix(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { return s->get_range(s->clos, k, l, k2, l2); }
}

/* ---- bounds shared by reader and merger iterators ---- */
enum Kind { K_ALL, K_GET, K_PREFIX, K_RANGE };
struct Bound {
	Kind kind; std::string a, b;
	bool in(const std::string &k) const {
		switch (kind) {
		case K_ALL: return true;
		case K_GET: return k == a;
		case K_PREFIX: return k.size() >= a.size() && k.compare(0, a.size(), a) == 0;
		default: return scmp(k, a) >= 0 && scmp(k, b) <= 0;
		}
	}
};

struct Hold {	// exactly-sized key and value block
	uint8_t *k = nullptr, *v = nullptr;
	void drop() { delete[] k; delete[] v; k = v = nullptr; }
	void set(const std::string &ks, const std::string &vs) {
		drop();
		k = new uint8_t[ks.size()]; memcpy(k, ks.data(), ks.size());
		v = new uint8_t[vs.size()]; memcpy(v, vs.data(), vs.size());
	}
	~Hold() { drop(); }
};

/* ---- reader ---- */
struct mtbl_reader { TableP t; struct mtbl_source *src; };
struct ReaderIter {
	TableP t; Bound b; size_t pos; bool valid; Hold h;
};
static size_t lower(const Table &t, const std::string &k)
{
	return std::lower_bound(t.kv.begin(), t.kv.end(), k,
		[](const KV &a, const std::string &key) { return scmp(a.first, key) < 0; }) - t.kv.begin();
}
static mtbl_res ri_seek(void *p, const uint8_t *key, size_t len)
{
	ReaderIter *it = (ReaderIter *)p;
	step();
	it->h.drop();
	it->pos = lower(*it->t, std::string((const char *)key, len));
	it->valid = it->pos < it->t->kv.size();
	return it->valid ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res ri_next(void *p, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	ReaderIter *it = (ReaderIter *)p;
	step();
	it->h.drop();
	if (!it->valid || it->pos >= it->t->kv.size() || !it->b.in(it->t->kv[it->pos].first)) {
		it->valid = false;
		return mtbl_res_failure;
	}
	const KV &kv = it->t->kv[it->pos++];
	it->h.set(kv.first, kv.second);
	*k = it->h.k; *lk = kv.first.size(); *v = it->h.v; *lv = kv.second.size();
	return mtbl_res_success;
}
static void ri_free(void *p) { delete (ReaderIter *)p; }
static struct mtbl_iter *r_open(void *clos, Bound b)
{
	mtbl_reader *r = (mtbl_reader *)clos;
	step();
	ReaderIter *it = new ReaderIter{r->t, std::move(b), 0, true, {}};
	if (it->b.kind != K_ALL)
		it->pos = lower(*it->t, it->b.a);
	if (STORE.null_iters && (it->pos >= it->t->kv.size() || (STORE.null_iters > 1 && !it->b.in(it->t->kv[it->pos].first) && it->b.kind != K_ALL))) {
		delete it;
		return nullptr;
	}
	return mtbl_iter_init(ri_seek, ri_next, ri_free, it);
}
#define S(k, l) std::string((const char *)(k), (l))
static struct mtbl_iter *r_iter(void *c) { return r_open(c, {K_ALL, "", ""}); }
static struct mtbl_iter *r_get(void *c, const uint8_t *k, size_t l) { return r_open(c, {K_GET, S(k, l), ""}); }
static struct mtbl_iter *r_prefix(void *c, const uint8_t *k, size_t l) { return r_open(c, {K_PREFIX, S(k, l), ""}); }
static struct mtbl_iter *r_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { return r_open(c, {K_RANGE, S(k, l), S(k2, l2)}); }

static mtbl_reader *reader_from(TableP t)
{
	mtbl_reader *r = new mtbl_reader{t, nullptr};
	store_open_readers++;
	r->src = mtbl_source_init(r_iter, r_get, r_prefix, r_range, nullptr, r);
	return r;
}

struct mtbl_reader_options { int x; };
struct mtbl_merger_options { mtbl_merge_func mf = nullptr; void *mc = nullptr; mtbl_dupsort_func df = nullptr; void *dc = nullptr; };

extern "C" {
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *)
{
	step();
	auto f = DISK.files.find(fname);
	if (f == DISK.files.end()) {	// missing, or torn by a crashed writer: no trailer
		SIM.count("fault_open_failed");
		errno = ENOENT;
		return nullptr;
	}
	return reader_from(f->second);
}
void mtbl_reader_destroy(struct mtbl_reader **r)
{
	if (*r) {
		mtbl_source_destroy(&(*r)->src);
		delete *r;
		*r = nullptr;
		store_open_readers--;
	}
}
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->src; }
struct mtbl_reader_options *mtbl_reader_options_init(void) { store_open_options++; return new mtbl_reader_options{0}; }
void mtbl_reader_options_destroy(struct mtbl_reader_options **o) { if (*o) store_open_options--; delete *o; *o = nullptr; }
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *, bool) {}
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *, bool) {}
}

/* ---- merger ---- */
struct mtbl_merger { mtbl_merger_options opt; std::vector<const struct mtbl_source *> srcs; struct mtbl_source *src; bool of_fileset = false; };
struct MergeEnt { struct mtbl_iter *it; bool have; std::string k, v; };
struct MergeIter {
	mtbl_merger *m; Bound b; std::vector<MergeEnt> e;
	std::vector<std::pair<std::string, std::string>> pend;	// unmerged duplicates waiting
	size_t pend_pos = 0;
	bool failed = false;
	Hold h;
};
static void me_fill(MergeEnt &e)
{
	const uint8_t *k, *v; size_t lk, lv;
	if (mtbl_iter_next(e.it, &k, &lk, &v, &lv) == mtbl_res_success) {
		e.have = true; e.k.assign((const char *)k, lk); e.v.assign((const char *)v, lv);
	} else
		e.have = false;
}
static mtbl_res mi_next(void *p, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	MergeIter *it = (MergeIter *)p;
	it->h.drop();
	if (it->failed) return mtbl_res_failure;
	if (it->pend_pos < it->pend.size()) {
		auto &kv = it->pend[it->pend_pos++];
		it->h.set(kv.first, kv.second);
		*k = it->h.k; *lk = kv.first.size(); *v = it->h.v; *lv = kv.second.size();
		return mtbl_res_success;
	}
	int best = -1;
	for (size_t i = 0; i < it->e.size(); i++)
		if (it->e[i].have && (best < 0 || scmp(it->e[i].k, it->e[best].k) < 0))
			best = i;
	if (best < 0) return mtbl_res_failure;
	std::string key = it->e[best].k;
	std::vector<std::string> vals;
	for (size_t i = 0; i < it->e.size(); i++)
		while (it->e[i].have && it->e[i].k == key) {
			vals.push_back(it->e[i].v);
			me_fill(it->e[i]);
		}
	mtbl_merger *m = it->m;
	if (m->opt.df && vals.size() > 1) {
		// insertion sort: stable, and calls the comparator on exact blocks
		for (size_t i = 1; i < vals.size(); i++)
			for (size_t j = i; j > 0; j--) {
				Hold a, c;
				a.set(key, vals[j - 1]); c.set(key, vals[j]);
				if (m->opt.df(m->opt.dc, a.k, key.size(), a.v, vals[j - 1].size(), c.v, vals[j].size()) <= 0)
					break;
				std::swap(vals[j - 1], vals[j]);
			}
	}
	if (m->opt.mf == nullptr) {
		it->pend.clear(); it->pend_pos = 0;
		for (auto &x : vals) it->pend.push_back({key, x});
		return mi_next(p, k, lk, v, lv);
	}
	std::string acc = vals[0];
	for (size_t i = 1; i < vals.size(); i++) {
		uint8_t *mv = nullptr; size_t lmv = 0;
		Hold a, c;
		a.set(key, acc); c.set(key, vals[i]);
		n_merge_calls++; n_fs_merges += m->of_fileset;
		m->opt.mf(m->opt.mc, a.k, key.size(), a.v, acc.size(), c.v, vals[i].size(), &mv, &lmv);
		if (mv == nullptr) {
			it->failed = true;
			return mtbl_res_failure;
		}
		acc.assign((const char *)mv, lmv);
		free(mv);
	}
	it->h.set(key, acc);
	*k = it->h.k; *lk = key.size(); *v = it->h.v; *lv = acc.size();
	return mtbl_res_success;
}
static mtbl_res mi_seek(void *p, const uint8_t *key, size_t len)
{
	MergeIter *it = (MergeIter *)p;
	it->h.drop();
	it->pend.clear(); it->pend_pos = 0;
	bool any = false;
	std::string k((const char *)key, len);
	for (auto &e : it->e) {
		if (mtbl_iter_seek(e.it, (const uint8_t *)k.data(), k.size()) == mtbl_res_success) {
			me_fill(e);
			any = any || e.have;
		} else
			e.have = false;
	}
	return any ? mtbl_res_success : mtbl_res_failure;
}
static void mi_free(void *p)
{
	MergeIter *it = (MergeIter *)p;
	for (auto &e : it->e) mtbl_iter_destroy(&e.it);
	delete it;
}
static struct mtbl_iter *m_open(void *clos, Bound b)
{
	mtbl_merger *m = (mtbl_merger *)clos;
	MergeIter *it = new MergeIter{m, b, {}, {}, 0, false, {}};
	for (auto s : m->srcs) {
		struct mtbl_iter *i = nullptr;
		const uint8_t *a = (const uint8_t *)b.a.data(), *c = (const uint8_t *)b.b.data();
		switch (b.kind) {
		case K_ALL: i = mtbl_source_iter(s); break;
		case K_GET: i = mtbl_source_get(s, a, b.a.size()); break;
		case K_PREFIX: i = mtbl_source_get_prefix(s, a, b.a.size()); break;
		case K_RANGE: i = mtbl_source_get_range(s, a, b.a.size(), c, b.b.size()); break;
		}
		if (!i) continue;
		it->e.push_back({i, false, "", ""});
		me_fill(it->e.back());
	}
	if (STORE.null_iters && it->e.empty()) {
		delete it;
		return nullptr;
	}
	return mtbl_iter_init(mi_seek, mi_next, mi_free, it);
}
static struct mtbl_iter *m_iter(void *c) { return m_open(c, {K_ALL, "", ""}); }
static struct mtbl_iter *m_get(void *c, const uint8_t *k, size_t l) { return m_open(c, {K_GET, S(k, l), ""}); }
static struct mtbl_iter *m_prefix(void *c, const uint8_t *k, size_t l) { return m_open(c, {K_PREFIX, S(k, l), ""}); }
static struct mtbl_iter *m_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { return m_open(c, {K_RANGE, S(k, l), S(k2, l2)}); }

extern "C" {
struct mtbl_merger_options *mtbl_merger_options_init(void) { store_open_options++; return new mtbl_merger_options; }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { if (*o) store_open_options--; delete *o; *o = nullptr; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mc = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dc = c; }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o)
{
	mtbl_merger *m = new mtbl_merger{*o, {}, nullptr};
	store_open_mergers++;
	m->src = mtbl_source_init(m_iter, m_get, m_prefix, m_range, nullptr, m);
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m)
{
	if (*m) {
		mtbl_source_destroy(&(*m)->src);
		delete *m;
		*m = nullptr;
		store_open_mergers--;
	}
}
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) { m->srcs.push_back(s); }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }
}

/* ---- fileset ---- */
struct FsReader { std::string name; mtbl_reader *r; ~FsReader() { mtbl_reader_destroy(&r); } };
typedef std::shared_ptr<FsReader> FsReaderP;
struct FsShared {
	std::string setfile;
	std::vector<FsReaderP> readers;
	unsigned handles = 0, iters = 0;
	bool reload_needed = false;
	uint64_t gen = 0;
};
struct mtbl_fileset_options {
	mtbl_merge_func mf = nullptr; void *mc = nullptr; mtbl_dupsort_func df = nullptr; void *dc = nullptr;
	mtbl_filename_filter_func ff = nullptr; void *fc = nullptr; mtbl_reader_filter_func rf = nullptr; void *rc = nullptr;
};
struct mtbl_fileset {
	std::shared_ptr<FsShared> sh;
	mtbl_fileset_options opt;
	struct mtbl_merger *m;
	std::vector<FsReaderP> pinned;	// what m reads
	std::vector<std::vector<FsReaderP>> graveyard;	// for iterators still open on an older merger
	std::vector<struct mtbl_merger *> oldm;
	uint64_t gen;
	unsigned my_iters;
	struct mtbl_source *src;
};
static std::map<std::string, std::weak_ptr<FsShared>> shared_by_path;

static void fs_read(FsShared &sh)
{
	step();
	SIM.count("fileset_reloads");
	std::vector<FsReaderP> nu;
	auto sf = DISK.setfiles.find(sh.setfile);
	if (sf == DISK.setfiles.end()) return;	// unreadable set file: keep what is loaded
	for (auto &n : sf->second) {
		FsReaderP keep;
		for (auto &r : sh.readers)
			if (r->name == n) keep = r;
		if (!keep) {
			mtbl_reader *r = mtbl_reader_init(n.c_str(), nullptr);
			if (!r) continue;
			keep = std::make_shared<FsReader>();
			keep->name = n; keep->r = r;
		}
		nu.push_back(keep);
	}
	sh.readers = nu;
	sh.gen++;
}
static void fs_remerge(mtbl_fileset *f)
{
	if (f->m) {
		if (f->my_iters) { f->oldm.push_back(f->m); f->graveyard.push_back(f->pinned); }
		else mtbl_merger_destroy(&f->m);
	}
	mtbl_merger_options o;
	o.mf = f->opt.mf; o.mc = f->opt.mc; o.df = f->opt.df; o.dc = f->opt.dc;
	f->m = mtbl_merger_init(&o); f->m->of_fileset = true;
	f->pinned.clear();
	f->gen = f->sh->gen;
	for (auto &r : f->sh->readers) {
		if (f->opt.ff && !f->opt.ff(r->name.c_str(), f->opt.fc)) continue;
		f->pinned.push_back(r);
		if (f->opt.rf && !f->opt.rf(r->r, f->opt.rc)) continue;
		mtbl_merger_add_source(f->m, mtbl_reader_source(r->r));
	}
}
struct FsIter { mtbl_fileset *f; struct mtbl_iter *it; };
static mtbl_res fi_seek(void *p, const uint8_t *k, size_t l) { return mtbl_iter_seek(((FsIter *)p)->it, k, l); }
static mtbl_res fi_next(void *p, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) { return mtbl_iter_next(((FsIter *)p)->it, k, lk, v, lv); }
static void fi_free(void *p)
{
	FsIter *i = (FsIter *)p;
	mtbl_iter_destroy(&i->it);
	i->f->my_iters--; i->f->sh->iters--;
	if (i->f->sh->iters == 0 && i->f->sh->reload_needed) {
		i->f->sh->reload_needed = false;
		fs_read(*i->f->sh);
		SIM.count("deferred_reload_done");
	}
	delete i;
}
static struct mtbl_iter *fi_wrap(mtbl_fileset *f, struct mtbl_iter *it)
{
	if (!it) return nullptr;
	f->my_iters++; f->sh->iters++;
	return mtbl_iter_init(fi_seek, fi_next, fi_free, new FsIter{f, it});
}
static struct mtbl_iter *f_iter(void *c) { auto f = (mtbl_fileset *)c; return fi_wrap(f, mtbl_source_iter(mtbl_merger_source(f->m))); }
static struct mtbl_iter *f_get(void *c, const uint8_t *k, size_t l) { auto f = (mtbl_fileset *)c; return fi_wrap(f, mtbl_source_get(mtbl_merger_source(f->m), k, l)); }
static struct mtbl_iter *f_prefix(void *c, const uint8_t *k, size_t l) { auto f = (mtbl_fileset *)c; return fi_wrap(f, mtbl_source_get_prefix(mtbl_merger_source(f->m), k, l)); }
static struct mtbl_iter *f_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { auto f = (mtbl_fileset *)c; return fi_wrap(f, mtbl_source_get_range(mtbl_merger_source(f->m), k, l, k2, l2)); }

static mtbl_fileset *fs_new(std::shared_ptr<FsShared> sh, const mtbl_fileset_options *o)
{
	mtbl_fileset *f = new mtbl_fileset{sh, *o, nullptr, {}, {}, {}, 0, 0, nullptr};
	store_open_filesets++;
	sh->handles++;
	f->src = mtbl_source_init(f_iter, f_get, f_prefix, f_range, nullptr, f);
	fs_remerge(f);
	return f;
}
extern "C" {
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { store_open_options++; return new mtbl_fileset_options; }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { if (*o) store_open_options--; delete *o; *o = nullptr; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *, uint32_t) {}
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mc = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dc = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->fc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rc = c; }
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o)
{
	auto sh = std::make_shared<FsShared>();
	sh->setfile = fname;
	fs_read(*sh);
	shared_by_path[fname] = sh;
	return fs_new(sh, o);
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o)
{
	return fs_new(f->sh, o);
}
void mtbl_fileset_destroy(struct mtbl_fileset **pf)
{
	mtbl_fileset *f = *pf;
	if (!f) return;
	mtbl_source_destroy(&f->src);
	for (auto &m : f->oldm) mtbl_merger_destroy(&m);
	mtbl_merger_destroy(&f->m);
	f->sh->handles--;
	store_open_filesets--;
	delete f;
	*pf = nullptr;
}
void mtbl_fileset_reload_now(struct mtbl_fileset *f)
{
	if (STORE.defer_reload && f->sh->iters > 0) {
		f->sh->reload_needed = true;
		SIM.count("reload_deferred");
	} else {
		if (f->sh->iters > 0) SIM.count("reload_during_iteration");
		fs_read(*f->sh);
	}
	if (f->gen != f->sh->gen) fs_remerge(f);
}
void mtbl_fileset_reload(struct mtbl_fileset *f) { (void)f; }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f)
{
	if (f->gen != f->sh->gen) fs_remerge(f);
	return f->src;
}
}

std::vector<std::string> store_loaded(const std::string &setfile)
{
	std::vector<std::string> r;
	auto sh = shared_by_path[setfile].lock();
	if (sh) for (auto &x : sh->readers) r.push_back(x->name);
	return r;
}
void store_reset()
{
	DISK = Disk(); STORE = StoreCfg();
	store_steps = 0; n_merge_calls = n_fs_merges = 0; n_seeks[0] = n_seeks[1] = 0; seek_depth = 0; n_rows = 0; next_depth = 0;
	store_deadline = UINT64_MAX; store_late = 0;
	store_open_iters = store_open_sources = store_open_filesets = store_open_mergers = store_open_readers = store_open_options = 0;
	shared_by_path.clear();
}

/* ---- varint ---- */
extern "C" {
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t len)
{
	for (size_t i = 0; i < len && i < 10; i++)
		if (!(b[i] & 0x80)) return i + 1;
	return 0;
}
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v)
{
	size_t n = 0;
	while (v >= 128) { p[n++] = (uint8_t)(v | 0x80); v >>= 7; }
	p[n++] = (uint8_t)v;
	return n;
}
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return mtbl_varint_encode64(p, v); }
size_t mtbl_varint_decode64(const uint8_t *p, uint64_t *v)
{
	uint64_t r = 0;
	for (unsigned i = 0; i < 10; i++) {
		r |= (uint64_t)(p[i] & 0x7f) << (7 * i);
		if (!(p[i] & 0x80)) { *v = r; return i + 1; }
	}
	*v = 0;
	return 0;
}
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v)
{
	uint32_t r = 0;
	for (unsigned i = 0; i < 5; i++) {
		r |= (uint32_t)(p[i] & 0x7f) << (7 * i);
		if (!(p[i] & 0x80)) { *v = r; return i + 1; }
	}
	*v = 0;
	return 0;
}
}
