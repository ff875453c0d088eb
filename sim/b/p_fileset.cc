// my_fileset: a reader reloads while an operator replaces the set file and adds
// and removes data files.
#include "harness.h"
#include <algorithm>
extern "C" {
#include "libmy/my_fileset.h"
}
namespace {
const std::string SET = "/sim/sets/db.set", DIRP = "/sim/sets/";
struct Tok { std::string fname; bool live; bool isnull; };
struct St {
	my_fileset *fs = nullptr;
	std::vector<std::unique_ptr<Tok>> toks;
	std::multimap<std::string, Tok *> live;			// by file name
	std::string nullname; bool useload = true;
	uint64_t version = 0; std::vector<std::string> names; uint64_t published = 0;
	std::set<std::string> ever;
	std::map<std::string, uint64_t> since;			// when the file began to exist, or to be absent
	std::set<std::string> touched; uint64_t now = 0;
	std::vector<std::pair<std::set<std::string>, bool>> hist;	// names of each version, rewritten in place?
	std::set<std::string> rl_loads, rl_unloads;
	uint64_t loads = 0, unloads = 0, in_reload_loads = 0, in_reload_unloads = 0;
	bool setmissing = false; int64_t maxmt = 0; uint64_t rl_v0 = 0, rl_faults = 0;
} *S;
void *on_load(my_fileset *fs, const char *fname)
{
	Pause pz;
	sched_point("load callback");
	if (fs != S->fs) fail("callback-fileset", "load called with another fileset");
	if (my_fileset_user(fs) != S) fail("callback-user", "user pointer lost");
	std::string f = fname;
	if (S->live.count(f)) fail("load-twice", f + " is loaded while it is loaded");
	bool torn = false;	// a set file rewritten under the reader may read as names in neither version
	for (uint64_t v = S->rl_v0; v < S->version; v++) torn = torn || S->hist[v].second;
	torn = torn || fault_taken() != S->rl_faults;		// nor one whose reading failed; the reload then takes it back
	if (!torn && !S->ever.count(f)) fail("load-unnamed", f + " was never named by the set file");
	S->toks.emplace_back(new Tok{f, true, f == S->nullname});
	S->live.emplace(f, S->toks.back().get());
	S->loads++; S->in_reload_loads++; S->rl_loads.insert(f);
	SIM.log("load %s", fname); SIM.count("fileset_loads");
	return f == S->nullname ? nullptr : S->toks.back().get();
}
void on_unload(my_fileset *fs, const char *fname, void *ptr)
{
	Pause pz;
	sched_point("unload callback");
	std::string f = fname;
	auto i = S->live.find(f);
	if (i == S->live.end()) fail("unload-unloaded", f + " is unloaded but was not loaded, or was unloaded before");
	void *want = i->second->isnull ? nullptr : i->second;
	if (ptr != want) fail("unload-pointer", f + " is unloaded with a pointer its load did not return");
	i->second->live = false;
	S->live.erase(i);
	S->unloads++; S->in_reload_unloads++; S->rl_unloads.insert(f);
	SIM.log("unload %s", fname); SIM.count("fileset_unloads");
	(void)fs;
}
std::vector<std::pair<std::string, void *>> snapshot()
{
	std::vector<std::pair<std::string, void *>> v; const char *n; void *p;
	for (size_t i = 0; my_fileset_get(S->fs, i, &n, &p); i++) { v.push_back({n, p}); if (v.size() > 1000) fail("get-endless", "my_fileset_get does not end"); }
	return v;
}
void check_listing()
{
	auto v = snapshot();
	for (size_t i = 0; i < v.size(); i++) {
		if (i && v[i - 1].first >= v[i].first) fail("listing-order", "my_fileset_get lists " + v[i - 1].first + " before " + v[i].first);
		if (!S->useload) { if (v[i].second) fail("listing-pointer", v[i].first); continue; }
		auto k = S->live.find(v[i].first);
		if (k == S->live.end()) fail("listing-unloaded", v[i].first + " is listed but is not loaded");
		if (v[i].second != (k->second->isnull ? nullptr : (void *)k->second)) fail("listing-pointer", v[i].first + " is listed with another pointer than its load returned");
	}
	if (S->useload && v.size() != S->live.size()) fail("listing-incomplete", fmt("%zu files listed, %zu loaded", v.size(), S->live.size()));
}
std::vector<std::string> comma(const std::string &s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); if (j > i) r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
std::string dec(std::string f) { for (auto &c : f) if (c == '~') c = ' '; return f; }
void pub(const Line &l)
{
	std::string d; auto n = comma(dec(l.str("names")));
	for (size_t i = 0; i < n.size(); i++) { d += n[i]; if (i + 1 < n.size() || !l.num("nonl")) d += "\n"; S->ever.insert(DIRP + n[i]); }
	int64_t m = l.num("mtime", 5);
	InodeP old = VFS.get(SET); bool inplace = false;
	if (l.str("mode") == "inplace" && old && m > S->maxmt) { inplace = true; old->data = d; old->mtime = m; SIM.count("set_rewritten_in_place"); }
	else {			// the usual way: write aside, rename over
		InodeP t = VFS.put(SET + ".tmp", d, m);
		VFS.rename(SET + ".tmp", SET);
		SIM.count("set_replaced");
	}
	S->maxmt = std::max(S->maxmt, m);
	S->version++; S->names.clear(); for (auto &x : n) S->names.push_back(DIRP + x);
	S->hist.push_back({std::set<std::string>(S->names.begin(), S->names.end()), inplace});
	S->published = ++S->now; S->setmissing = false;
	SIM.log("op set v%llu %s", (unsigned long long)S->version, l.str("names").c_str());
}
void apply(const Line &l)
{
	std::string w = l.w.size() ? l.w[0] : "";
	if (w == "pub") pub(l);
	else if (w == "add") { std::string f = DIRP + dec(l.str("f")); if (!VFS.exists(f)) { VFS.put(f, "x", 1); S->since[f] = ++S->now; } SIM.log("op add %s", f.c_str()); }
	else if (w == "del") { std::string f = DIRP + dec(l.str("f")); if (VFS.exists(f)) { VFS.unlink(f); S->since[f] = ++S->now; } SIM.log("op del %s", f.c_str()); }
	else if (w == "rmset") { VFS.unlink(SET); S->setmissing = true; SIM.log("op rmset"); }
}
uint64_t last_v0, last_v1; bool have_last;
void reload(bool quiet)
{
	auto before = snapshot();
	uint64_t v0 = S->version; bool miss0 = S->setmissing;
	S->in_reload_loads = S->in_reload_unloads = 0; S->rl_loads.clear(); S->rl_unloads.clear(); S->rl_v0 = v0; uint64_t now0 = S->now;
	uint64_t faults0 = S->rl_faults = fault_taken();
	{ Track t; my_fileset_reload(S->fs); }
	check_listing();
	bool faulted = fault_taken() != faults0;
	uint64_t v1 = S->version;
	auto after = snapshot();
	if (faulted && before != after) fail("faulted-reload", fmt("a reload that could not read the set file changed the loaded files from %zu to %zu", before.size(), after.size()));
	if (have_last && last_v0 == last_v1 && last_v1 == v1 && v0 == v1 && (S->in_reload_loads || S->in_reload_unloads || before != after))
		fail("reload-unchanged", "a reload with an unchanged set file loaded or unloaded files");
	if (!faulted && !miss0 && !S->setmissing) { have_last = true; last_v0 = v0; last_v1 = v1; }
	bool mixed = false; for (uint64_t v = v0; v < v1; v++) mixed = mixed || S->hist[v].second;
	auto steady = [&](const std::string &n) { auto i = S->since.find(n); return i == S->since.end() || i->second <= now0; };
	auto in_all = [&](const std::string &n) { for (uint64_t v = v0; v <= v1; v++) if (!S->hist[v - 1].first.count(n)) return false; return true; };
	// a loaded file is kept when every version this reload could see names it and it was there all along
	if (!mixed) for (auto &b : before) if (in_all(b.first) && steady(b.first) && VFS.exists(b.first)) {
		if (S->rl_unloads.count(b.first) || S->rl_loads.count(b.first)) fail("not-kept", b.first + " was loaded and is named and there, but the reload unloaded it or loaded it again");
		bool still = false; for (auto &a : after) still = still || a == b;
		if (!still) fail("not-kept", b.first + " was loaded and is named and there, but is gone after the reload");
	}
	// what is loaded now is what one of these versions names
	if (!mixed && before != after) {
		bool some = false; std::set<std::string> have; for (auto &a : after) have.insert(a.first);
		for (uint64_t v = v0; v <= v1 && !some; v++) {
			auto &nm = S->hist[v - 1].first; some = true;
			for (auto &h : have) if (!nm.count(h)) some = false;
			bool before_had;
			for (auto &n : nm) { before_had = false; for (auto &b : before) before_had = before_had || b.first == n; if (steady(n) && VFS.exists(n) && !have.count(n)) some = false; if (steady(n) && !VFS.exists(n) && have.count(n) && !before_had) some = false; }
		}
		if (!some) fail("no-version", "the loaded files are those of no version of the set file that was current during the reload");
	}
	(void)quiet;
	SIM.log("reload %zu -> %zu%s", before.size(), after.size(), faulted ? " faulted" : "");
	for (auto &a : after) SIM.log("  has %s", a.first.c_str());
}
Plan gen(Rng &r)
{
	Plan p;
	std::vector<std::string> F; bool many = r.chance(1, 80); unsigned nf = many ? r.range(12, r.chance(1, 2) ? 40 : 300) : r.range(1, 6);
	for (unsigned i = 0; i < nf; i++) F.push_back(fmt("f%u", i));
	static const char *alike[] = {"f", "F", "f0", "F0", "f.mtbl", "F.mtbl", "ff", "f~", "~f", "f~0", "f-", "%s", "sub/f", "\xe9", "\xc3\xa9", "f#1", "a.very.long.name.of.a.data.file.that.does.not.fit.into.the.first.sixty.four.bytes.of.a.buffer.mtbl"};
	if (!many && r.chance(1, 3)) {		// names that are easily taken for each other
		std::set<std::string> u; while (u.size() < nf) u.insert(alike[r.below(17)]);
		F.assign(u.begin(), u.end());
		for (size_t i = nf; i > 1; i--) std::swap(F[i - 1], F[r.below(i)]);
	}
	static const unsigned chunks[] = {1, 3, 7, 4096};
	p.push_back(fmt("cfg - chunk=%u null=%s noload=%d", chunks[many ? 3 : r.below(4)], r.chance(1, 4) ? F[r.below(nf)].c_str() : "", r.chance(1, 12)));
	unsigned mt = 5; bool dups = r.chance(1, 3);
	auto pubs = [&](const char *verb) {
		std::vector<std::string> n; for (auto &f : F) if (r.chance(3, 5)) n.push_back(f);
		for (size_t i = n.size(); i > 1; i--) std::swap(n[i - 1], n[r.below(i)]);
		if (dups && n.size() && r.chance(1, 2)) { unsigned k = r.range(1, 2); while (k--) { std::string d = n[r.below(n.size())]; n.insert(n.begin() + r.below(n.size() + 1), d); } }
		std::string s; for (auto &x : n) s += (s.empty() ? "" : ",") + x;
		unsigned k = r.below(4);		// mtime may stand still or go back when the inode is new
		if (k) mt = k == 1 ? mt + 1 : k == 2 ? mt + r.range(1, 1000) : mt > 3 ? mt - r.range(1, 2) : mt + 1;
		std::string head = fmt("%s pub mode=%s names=", verb, r.chance(1, 4) ? "inplace" : "rename");
		p.push_back(head + s + fmt(" mtime=%u%s", mt, r.chance(1, 6) ? " nonl=1" : ""));
	};
	for (auto &f : F) if (r.chance(4, 5)) p.push_back("init add f=" + f);
	pubs("init");
	unsigned no = r.range(0, 8);
	for (unsigned i = 0; i < no; i++) {
		unsigned k = r.below(10);
		if (k < 4) pubs("op");
		else if (k < 6) p.push_back("op add f=" + F[r.below(nf)]);
		else if (k < 8) p.push_back("op del f=" + F[r.below(nf)]);
		else if (k < 9) p.push_back(fmt("op wait n=%u", (unsigned)r.range(1, 30)));
		else p.push_back("op rmset -");
	}
	unsigned nr = r.range(1, 6);
	for (unsigned i = 0; i < nr; i++) p.push_back(fmt("rl wait n=%u", (unsigned)r.below(12)));
	unsigned nfault = r.chance(1, 2) ? r.range(1, 4) : 0;
	while (nfault--) {
		static const char *ops[] = {"fopen", "fread", "fread", "statset"}; static const char *es[] = {"EIO", "EMFILE", "EINTR", "ENOMEM"};
		p.push_back(fmt("fault %s %u %s", ops[r.below(4)], (unsigned)r.range(1, r.chance(1, 2) ? 6 : 25), es[r.below(4)]));
	}
	gen_sched(r, p, 2, 40 + 40 * nr);
	pubs("fin");
	if (r.chance(1, 3)) p.push_back("fin del f=" + F[r.below(nf)]);
	if (r.chance(1, 3)) p.push_back("fin add f=" + F[r.below(nf)]);
	if (r.chance(1, 2)) pubs("fin");
	return p;
}
void converge(const char *when)
{
	auto v = snapshot(); std::set<std::string> have; for (auto &x : v) have.insert(x.first);
	std::set<std::string> named(S->names.begin(), S->names.end());
	for (auto &h : have) if (!named.count(h)) fail("loaded-unnamed", h + " stays loaded though the set file does not name it " + when);
	for (auto &n : named) {
		bool there = VFS.exists(n); uint64_t at = S->since.count(n) ? S->since[n] : 0;
		if (at > S->published) continue;		// came or went after the set file was written
		if (there && !have.count(n)) fail("not-loaded", n + " is named and exists but is not loaded " + when);
		if (!there && have.count(n)) fail("loaded-missing", n + " does not exist but is loaded " + when);
	}
}
void run(const std::vector<Line> &p)
{
	St st; S = &st; have_last = false;
	VFS.mkdir("/sim/sets");
	for (auto &l : p) if (l.verb == "cfg") { VFS.chunk = l.num("chunk", 4096); std::string n = l.str("null"); if (!n.empty()) st.nullname = DIRP + dec(n); st.useload = !l.num("noload"); }
	for (auto &l : p) if (l.verb == "init") apply(l);
	if (!VFS.exists(SET)) pub(parse_line("init pub names=f0 mtime=5"));
	fault_stop();
	sched_spawn(0, [&] { Track t; st.fs = my_fileset_init(SET.c_str(), st.useload ? on_load : nullptr, st.useload ? on_unload : nullptr, &st); });
	sched_run();
	fault_start();
	sched_spawn(0, [&] {
		for (auto &l : p) if (l.verb == "rl") { for (uint64_t i = l.num("n"); i; i--) sched_point("idle"); reload(false); OUT.nontrivial = true; }
	});
	sched_spawn(1, [&] {
		for (auto &l : p) if (l.verb == "op") {
			sched_point("operator");
			if (l.w.size() && l.w[0] == "wait") { for (uint64_t i = l.num("n"); i; i--) sched_point("wait"); continue; }
			apply(l);
		}
	});
	sched_run();
	// everything settles: no more faults, the operator's last word, one reload
	sched_spawn(0, [&] {
		fault_stop();
		if (!st.setmissing) { reload(true); converge("after faults stopped"); }
		std::vector<const Line *> fin; for (auto &l : p) if (l.verb == "fin") fin.push_back(&l);
		for (auto l : fin) { apply(*l); }
		if (st.setmissing) pub(parse_line("fin pub names=f0 mtime=77777"));
		reload(true); converge("at the end");
		reload(true); converge("at the end");
		{ Track t; my_fileset_destroy(&st.fs); }
		if (st.fs) fail("destroy-null", "my_fileset_destroy leaves the pointer set");
		if (!st.live.empty()) fail("never-unloaded", fmt("%zu files loaded are never unloaded, e.g. %s", st.live.size(), st.live.begin()->first.c_str()));
		if (st.loads != st.unloads) fail("unload-count", fmt("%llu loads, %llu unloads", (unsigned long long)st.loads, (unsigned long long)st.unloads));
	});
	sched_run();
	if (heap_live()) fail("leak", fmt("%llu blocks not freed:%s", (unsigned long long)heap_live(), heap_report().c_str()));
	if (VFS.open_handles) fail("leak-handle", fmt("%llu files left open", (unsigned long long)VFS.open_handles));
}
}
const Profile P_FILESET = {"fileset", gen, run};
