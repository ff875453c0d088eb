// spooldir: several processes, some with several threads on one handle, claim
// files that producers drop into one spool directory; processes crash.
#include "harness.h"
#include <algorithm>
extern "C" {
#include "libmy/spooldir.h"
}
namespace {
struct File { std::string name; uint64_t ino; std::string data; int claimed_by = -1; unsigned claims = 0; bool removed = false; };
struct St {
	std::map<uint64_t, File> files;		// by inode
	bool crashed = false;
	std::string inc = "/sim/spool/incoming", act = "/sim/spool/active";
} *S;
struct Proc { spooldir *h = nullptr; bool ready = false; };
void on_watch(const char *op, const std::string &a, const std::string &b)
{
	std::string dst = *op == 'r' ? b : a;
	InodeP n = VFS.get(dst);
	if (*op == 'r' && !VFS.get(a)) return;		// will fail
	if (*op == 'r') {
		InodeP src = VFS.get(a);
		if (src && a.compare(0, S->inc.size() + 1, S->inc + "/") == 0) {
			std::string nm = a.substr(S->inc.size() + 1);
			if (nm[0] == '.') fail("claimed-dotfile", "the unfinished file " + a + " is moved");
			if (src->dir) fail("claimed-directory", "the directory " + a + " is moved");
			if (src->special) fail("claimed-special", a + ", which is a pipe, socket or device, is moved");
		}
	}
	if (n && S->files.count(n->ino)) {
		File &f = S->files[n->ino];
		fail("file-destroyed", fmt("%s destroys %s, which %s", op, dst.c_str(), f.claims ? "a consumer had claimed" : "no consumer had been given"));
	}
	if (n && n->dir) fail("directory-destroyed", dst);
}
// one call; returns what came
bool call(spooldir *h, int who)
{
	char *r;
	{ Track t; r = spooldir_next(h); }
	if (!r) { SIM.count("spool_empty"); SIM.log("P%d got nothing", who); return false; }
	std::string path = r;
	{ Track t; free(r); }
	SIM.log("P%d got %s", who, path.c_str()); SIM.count("spool_claims");
	OUT.nontrivial = true;
	if (path.compare(0, S->act.size() + 1, S->act + "/")) fail("claim-outside", "spooldir_next returned " + path);
	InodeP n = VFS.get(path);
	if (!n) fail("claim-missing", "spooldir_next returned " + path + ", which does not exist");
	auto i = S->files.find(n->ino);
	if (i == S->files.end()) fail("claim-foreign", "spooldir_next returned " + path + ", which no producer finished");
	File &f = i->second;
	if (n->data != f.data) fail("claim-incomplete", path + " is incomplete");
	if (path != S->act + "/" + f.name) fail("claim-name", f.name + " is returned as " + path);
	if (f.claims++) fail("claimed-twice", fmt("%s is given to consumer %d and before to consumer %d", path.c_str(), who, f.claimed_by));
	f.claimed_by = who;
	return true;
}
Plan gen(Rng &r)
{
	Plan p;
	unsigned procs = r.range(1, 3), files = r.range(1, 7), threads = 1; bool many = r.chance(1, 80); unsigned few = r.below(3); if (many) files = r.range(12, r.chance(1, 2) ? 40 : 300);
	static const unsigned work[] = {0, 1, 5, 40};
	p.push_back(fmt("cfg - salt=%u work=%u preinit=%d", (unsigned)r.below(1 << 16), work[r.below(4)], (int)r.chance(1, 2)));
	for (unsigned i = 0; i < procs; i++) {
		unsigned th = r.chance(1, 3) ? 2 : 1;
		threads += th;
		for (unsigned t = 0; t < th; t++) p.push_back(fmt("cons %u calls=%u", i, (unsigned)r.range(1, 6)));
	}
	static const char *names[] = {"a", "b", "c", "x.1", "x.2", "zz", "data.mtbl", "with space", "f%s", "e"};
	std::vector<std::string> used;
	for (unsigned i = 0; i < files; i++) {
		static const char *none[] = {"dir name=d", "dot name=.h", "fifo name=p"};
		if (many && r.chance(few, 2) && !r.chance(1, 20)) { p.push_back(std::string("prod ") + none[r.below(3)] + std::to_string(i)); continue; }
		if (many) { p.push_back(fmt("prod file name=n%u wait=0 size=1", i)); continue; }
		unsigned k = r.below(20);
		if (k == 3 && r.chance(1, 2)) { p.push_back(fmt("prod stuck name=%c%u wait=%u", r.chance(1, 2) ? 'm' : 's', i, (unsigned)r.below(25))); continue; }
		if (k == 4 && r.chance(1, 2)) { p.push_back(fmt("prod link name=%c%u wait=%u", r.chance(1, 2) ? 'l' : 'w', i, (unsigned)r.below(25))); continue; }
		if (k == 0) p.push_back("prod dir name=d" + std::to_string(i));
		else if (k == 1) p.push_back("prod dot name=.h" + std::to_string(i));
		else if (k == 2) p.push_back("prod fifo name=p" + std::to_string(i));
		else {
			std::string n = r.chance(1, 5) && !used.empty() ? r.pick(used) : names[r.below(10)];
			for (auto &c : n) if (c == ' ') c = '_';
			used.push_back(n);
			p.push_back(fmt("prod file name=%s wait=%u size=%u", n.c_str(), (unsigned)r.below(25), (unsigned)r.range(1, 50)));
		}
	}
	for (unsigned i = 0; i < procs; i++) if (r.chance(1, 4)) p.push_back(fmt("crash %u %u", i, (unsigned)r.range(1, 50)));
	unsigned nf = r.chance(1, 3) ? r.range(1, 3) : 0;
	while (nf--) {
		static const char *ops[] = {"fstatat", "rename", "readdir", "rename", "sleep"};
		unsigned o = r.below(5);
		p.push_back(fmt("fault %s %u %s", ops[o], (unsigned)r.range(1, 12), o == 4 ? "EINTR" : r.chance(1, 2) ? "EIO" : "EACCES"));
	}
	gen_sched(r, p, threads, 150);
	return p;
}
void run(const std::vector<Line> &p)
{
	St st; S = &st;
	unsigned work = 0; bool preinit = false; uint64_t stuck = 0;
	VFS.mkdir("/sim/spool");
	for (auto &l : p) if (l.verb == "cfg") { VFS.salt = l.num("salt"); work = l.num("work"); preinit = l.num("preinit"); }
	if (preinit) { VFS.mkdir(st.inc); VFS.mkdir(st.act); }
	VFS.watch = on_watch;
	std::map<int, Proc> procs; std::map<int, int> users;
	for (auto &l : p) if (l.verb == "cons" && l.w.size()) users[atoi(l.w[0].c_str())]++;
	for (auto &l : p) if (l.verb == "cons" && l.w.size()) {
		int P = atoi(l.w[0].c_str()); uint64_t calls = l.num("calls", 3);
		procs[P];
		bool first = true; for (auto &m : p) { if (&m == &l) break; if (m.verb == "cons" && m.w.size() && m.w[0] == l.w[0]) first = false; }
		sched_spawn(P, [&, P, calls, first] {
			Proc &pr = procs[P];
			if (first) { spooldir *h; { Track t; h = spooldir_init("/sim/spool"); } if (!h) fail("init-null", "spooldir_init failed"); pr.h = h; pr.ready = true; }
			else while (!pr.ready) sched_yield_to_others("wait for handle");
			for (uint64_t i = 0; i < calls; i++) {
				uint64_t ino = 0;
				std::set<uint64_t> before; for (auto &f : st.files) if (f.second.claims) before.insert(f.first);
				if (!call(pr.h, sched_self())) continue;
				for (auto &f : st.files) if (f.second.claimed_by == sched_self() && !f.second.removed) ino = f.first;
				for (unsigned w = 0; w < work; w++) sched_point("work");
				// done with it: the consumer removes its own file
				if (ino) { std::string path = st.act + "/" + st.files[ino].name; InodeP n = VFS.get(path); if (!n || n->ino != ino) fail("claim-lost", "the claimed file " + path + " vanished while its consumer worked on it"); VFS.unlink(path); st.files[ino].removed = true; SIM.log("P%d removed %s", P, path.c_str()); }
			}
			if (--users[P] == 0) { Track t; spooldir_destroy(&pr.h); if (pr.h) fail("destroy-null", "spooldir_destroy leaves the pointer set"); }
		});
	}
	if (procs.empty()) { procs[0]; }
	sched_spawn(100, [&] {
		unsigned k = 0;
		for (auto &l : p) if (l.verb == "prod") {
			std::string kind = l.w.size() ? l.w[0] : "", n = l.str("name", "a");
			for (uint64_t i = l.num("wait"); i; i--) sched_point("producer");
			if (!VFS.exists(st.inc)) VFS.mkdir(st.inc);	// spool directories may be made by whoever comes first
			if (kind == "dir") { VFS.mkdir(st.inc + "/" + n); continue; }
			if (kind == "stuck") { if (!VFS.exists(st.inc + "/" + n)) { VFS.mkdir(st.act + "/" + n); VFS.put(st.inc + "/" + n, "stuck", 1); stuck++; SIM.count("fault_unmovable_file"); } continue; }	// something in active is in its way
			if (kind == "link") { if (!VFS.exists(st.inc + "/" + n)) { VFS.put(st.inc + "/" + n, "", 1)->dangling = true; stuck++; SIM.count("fault_dangling_link"); } continue; }
			if (kind == "fifo") { if (!VFS.exists(st.inc + "/" + n)) VFS.put(st.inc + "/" + n, "", 1)->special = true; continue; }
			// a name is used again only when nobody holds it
			bool busy = VFS.exists(st.inc + "/" + n); for (auto &f : st.files) if (f.second.name == n && !f.second.removed) busy = true;
			if (busy) continue;
			std::string tmp = st.inc + "/.tmp" + std::to_string(k++), data(l.num("size", 1), 'd');
			InodeP i = VFS.put(tmp, data.substr(0, data.size() / 2), 1);
			sched_point("producer writes");
			i->data = data;
			sched_point("producer wrote");
			if (kind == "dot") continue;
			st.files[i->ino] = File{n, i->ino, data};
			VFS.rename(tmp, st.inc + "/" + n);
			SIM.log("produced %s", n.c_str()); SIM.count("spool_produced");
		}
	});
	sched_run();
	// crashed processes are gone; nothing they held is held any more.  A new process finishes the work.
	bool crashed = false; for (auto &x : procs) if (sched_proc_dead(x.first)) crashed = true;
	auto conserve = [&](const char *when) {
		for (auto &x : st.files) {
			File &f = x.second; if (f.removed) continue;
			InodeP a = VFS.get(st.act + "/" + f.name), b = VFS.get(st.inc + "/" + f.name);
			bool ina = a && a->ino == x.first, inb = b && b->ino == x.first;
			if (!ina && !inb) fail("file-lost", f.name + " is in neither directory " + when);
			if (f.claims && !ina) fail("claim-lost", f.name + " was claimed and is not in active " + when);
			if (ina && !f.claims && !crashed) fail("claim-dropped", f.name + " was moved to active but no consumer was given it " + when);
			if ((ina ? a : b)->data != f.data) fail("file-damaged", f.name + " " + when);
		}
	};
	conserve("after the concurrent phase");
	for (auto &x : procs) if (sched_proc_dead(x.first)) { heap_forget_proc(x.first); VFS.open_handles -= VFS.open_handles ? 0 : 0; }
	bool leaked_ok = crashed;
	if (!leaked_ok && heap_live()) fail("leak", fmt("%llu blocks not freed:%s", (unsigned long long)heap_live(), heap_report().c_str()));
	if (!leaked_ok && VFS.open_handles) fail("leak-handle", "a directory is left open");
	uint64_t live0 = heap_live();
	sched_spawn(101, [&] {
		fault_stop();
		uint64_t left = 0; for (auto &x : st.files) { InodeP b = VFS.get(st.inc + "/" + x.second.name); if (b && b->ino == x.first) left++; }
		spooldir *h; { Track t; h = spooldir_init("/sim/spool"); }
		uint64_t nulls = 0, got = 0, calls = 0;
		bool more = false;
		while (nulls < 2 * (stuck + 1) || !more) {	// a pass meets every entry that cannot be moved or examined once, and then the end
			if (nulls >= 2 * (stuck + 1)) {		// files that arrive after the consumer found nothing
				more = true; nulls = 0;
				for (unsigned i = 0; i < 2; i++) { std::string nm = fmt("late%u", i); InodeP n = VFS.put(st.inc + "/" + nm, "late", 1); st.files[n->ino] = File{nm, n->ino, "late"}; left++; }
			}
			uint64_t t0 = SIM.now_ns;
			if (call(h, 100)) { got++; } else nulls++;
			if (SIM.now_ns - t0 > 5ULL * 1000000000) fail("slow-call", "one spooldir_next call took more than 5 s");
			if (++calls > 4 * left + 40 + 4 * stuck) fail("call-bound", "spooldir_next keeps returning without end");
		}
		if (got != left) fail("not-claimed", fmt("%llu of %llu waiting files were given to the consumer in two complete passes", (unsigned long long)got, (unsigned long long)left));
		{ Track t; spooldir_destroy(&h); }
	});
	sched_run();
	conserve("at the end");
	if (heap_live() != live0) fail("leak", fmt("%llu blocks not freed:%s", (unsigned long long)(heap_live() - live0), heap_report().c_str()));
}
}
const Profile P_SPOOL = {"spool", gen, run};
