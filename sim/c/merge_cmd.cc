// The dnstable_merge command: the real script under /bin/sh, in a scratch
// directory of its own.  A stand-in for mtbl_merge records what it was started
// with; the merge it asks for then runs over the simulated storage.
#include "../a/world.h"
#include "../a/mtbl_sim.h"
#include "../simcore.h"
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
[[noreturn]] void sim_die(const std::string &cls, const std::string &msg);
namespace {
typedef std::vector<std::string> V;
const char *DLNAME = "libdnstable-sim.so.7";
void put(const std::string &f, const std::string &s, mode_t m)
{
	int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, m);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) sim_die("harness-scratch", "cannot write " + f);
	close(fd);
}
std::string get(const std::string &f)
{
	std::string s; char b[4096]; ssize_t n; int fd = open(f.c_str(), O_RDONLY);
	if (fd < 0) return s;
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd);
	return s;
}
// a directory with the command, the stand-in and names for wildcards to find
struct Scratch {
	std::string dir;
	Scratch()
	{
		char t[] = "/tmp/simmergeXXXXXX";
		if (!mkdtemp(t)) sim_die("harness-scratch", "mkdtemp");
		dir = t;
		mkdir((dir + "/bin").c_str(), 0755); mkdir((dir + "/wd").c_str(), 0755);
		std::string s = get(MERGE_SCRIPT), mark = "@LIBDNSTABLE_DLNAME@"; size_t p;
		if (s.empty()) sim_die("harness-script", "no " MERGE_SCRIPT);
		while ((p = s.find(mark)) != std::string::npos) s.replace(p, mark.size(), DLNAME);
		put(dir + "/dnstable_merge", s, 0755);
		put(dir + "/bin/mtbl_merge", "#!/bin/sh\nprintf '%s\\0' \"$MTBL_MERGE_DSO\" \"$MTBL_MERGE_FUNC_PREFIX\" \"$@\" >>\"$SIM_REC\"\necho >>\"$SIM_REC\"\nif [ -n \"$SIM_KILL\" ]; then kill -9 $$; fi\nexit \"$SIM_CODE\"\n", 0755);
		for (const char *f : {"xF0", "xF1", "F0", "F1", "F0a", "F1b", "M2", "b", "xM2", "a"}) put(dir + "/wd/" + f, "", 0644);
	}
	~Scratch()
	{
		for (const char *d : {"/bin/", "/wd/", "/"}) {
			DIR *h = opendir((dir + d).c_str()); if (!h) continue;
			while (struct dirent *e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + d + e->d_name).c_str());
			closedir(h);
		}
		rmdir((dir + "/bin").c_str()); rmdir((dir + "/wd").c_str()); rmdir(dir.c_str());
	}
};
std::string called(const std::string &f, unsigned k)
{
	switch (k) {
	case 1: return f + " x"; case 2: return "a " + f; case 3: return "*" + f; case 4: return f + "?"; case 5: return "$" + f; case 6: return "`" + f + "`";
	case 7: return "'" + f; case 8: return "\"" + f; case 9: return "\\" + f; case 10: return f + ";x"; case 11: return "~/" + f; case 12: return "[xF]" + f.substr(1);
	case 13: return f + "\n"; case 14: return "\t" + f; case 15: return f + "|y"; case 16: return "$HOME/" + f; case 17: return "(" + f + ")"; case 18: return f + "  z  w";
	case 19: return "/data/2024 01/" + f; case 20: return f + "#"; case 21: return "!" + f; case 22: return f + "&"; case 23: return ">" + f; case 24: return "$(" + f + ")";
	case 25: return "*"; case 26: return "?"; case 27: return "$1" + f; case 28: return "\xc3\xa4" + f; case 29: return f + "\\";
	default: return f;
	}
}
}
void merge_command(const std::vector<std::string> &v, const ExtraEnv &e)
{
	long salt = 0, opt = 0, env = -1, code = 0, few = -1; bool kill_it = false, gone = false; V files, m = {"merge", v[2]};
	for (size_t i = 2; i < v.size(); i++) {
		size_t q = v[i].find('='); std::string k = v[i].substr(0, q); long x = q == std::string::npos ? 0 : atol(v[i].c_str() + q + 1);
		if (q == std::string::npos) { if (i > 2) files.push_back(v[i]); }
		else if (k == "nm") salt = x; else if (k == "opt") opt = x; else if (k == "env") env = x; else if (k == "code") code = x;
		else if (k == "few") few = x; else if (k == "kill") kill_it = true; else if (k == "gone") gone = true; else m.push_back(v[i]);
	}
	if (DISK.files.count(v[2])) return;
	std::unique_ptr<Scratch> sc(new Scratch);
	uint64_t rnd = salt; auto draw = [&](unsigned n) { rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((rnd >> 33) % n); };
	V args; std::map<std::string, std::string> real;
	if (opt & 1) { args.push_back("-c"); args.push_back(opt & 2 ? "zstd" : "none"); }
	if (opt & 4) { args.push_back("-l"); args.push_back(opt & 8 ? "3" : "-1"); }
	if (opt & 16) args.push_back("-b8192");
	V in = files; in.push_back(v[2]);
	for (auto &f : in) { std::string n = salt ? called(f, draw(40)) : f; if (real.count(n)) n = f; real[n] = f; args.push_back(n); }
	if (few >= 0) args.resize(std::min<size_t>(few, args.size()));
	std::string rec = sc->dir + "/rec", out = sc->dir + "/out";
	unlink(rec.c_str());
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
		if (chdir((sc->dir + "/wd").c_str())) _exit(126);
		clearenv();
		setenv("PATH", gone ? "/nonexistent" : (sc->dir + "/bin:/usr/bin:/bin").c_str(), 1);
		setenv("SIM_REC", rec.c_str(), 1); setenv("SIM_CODE", std::to_string(code).c_str(), 1); if (kill_it) setenv("SIM_KILL", "1", 1);
		setenv("HOME", "/nonexistent", 1);
		if (env >= 0) {
			if (env & 1) setenv("MTBL_MERGE_DSO", "libother.so", 1);
			if (env & 2) setenv("MTBL_MERGE_FUNC_PREFIX", "other_merge", 1);
			if (env & 4) setenv("IFS", "F", 1);
		}
		std::string prog = sc->dir + "/dnstable_merge";
		std::vector<char *> av = {(char *)prog.c_str()}; for (auto &a : args) av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		execv(prog.c_str(), av.data());
		_exit(126);
	}
	int st = 0; waitpid(pid, &st, 0);
	std::string cmd = "dnstable_merge"; for (auto &a : args) cmd += " <" + a + ">";
	SIM.log("%s -> %x", cmd.c_str(), st); SIM.count("merge_commands");
	auto fail = [&](const std::string &c, const std::string &w) { SIM.violation(c, cmd + ": " + w); };
	bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	std::string r = get(rec), said = get(out);
	sc.reset();
	std::vector<V> runs;
	for (size_t p = 0; p < r.size();) {			// words that end with a null, then a newline; no word starts with one
		V w; while (p < r.size() && r[p] != '\n') { w.push_back(r.c_str() + p); p += w.back().size() + 1; }
		runs.push_back(w); p++;
	}
	if (args.size() < 2) {
		SIM.count("merge_command_refusals");
		if (ok) fail("merge-cmd-accepted", "exits with status 0 although it was told too little");
		if (!runs.empty()) fail("merge-cmd-ran", "runs mtbl_merge although it was told too little");
		if (said.empty()) fail("merge-cmd-silent", "does not say how to use it");
		return;
	}
	if (gone) {
		SIM.count("fault_merger_gone");
		if (ok) fail("merge-cmd-status", "exits with status 0 although there is no mtbl_merge");
		return;
	}
	if (runs.size() != 1) { fail("merge-cmd-runs", "runs mtbl_merge " + std::to_string(runs.size()) + " times: " + said.substr(0, 300)); return; }
	V got(runs[0].begin() + std::min<size_t>(2, runs[0].size()), runs[0].end());
	if (got != args) {
		std::string g; for (auto &a : got) g += " <" + a + ">";
		fail("merge-cmd-args", "starts mtbl_merge with" + g);
		return;
	}
	if (runs[0][0] != DLNAME) fail("merge-cmd-dso", "names the library " + runs[0][0]);
	void *fn = dlsym(RTLD_DEFAULT, (runs[0][1] + "_func").c_str());
	if (!fn) { fail("merge-cmd-func", "names a merge function that is not there: " + runs[0][1] + "_func"); return; }
	if (kill_it) {
		SIM.count("fault_merger_killed");
		if (ok) fail("merge-cmd-status", "exits with status 0 although mtbl_merge was killed");
		return;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != code) fail("merge-cmd-status", "exits with status " + std::to_string(st) + " instead of " + std::to_string(code));
	if (code) { SIM.count("fault_merger_failed"); return; }
	++*e.nontrivial;
	for (auto &f : files) m.push_back(f);
	e.merge(m, fn);
}
