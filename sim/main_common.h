// Command line shared by all simulated worlds:
//   sweep <profile> <seed0> <count> <stride> <outfile> <wall_s>   run seeds
//   plan  <profile> <seed>                                        print a plan
//   exec  <profile> <planfile> [-v]                               run one plan
// Every run happens in a child, so a crash, a failed assertion, a sanitizer
// report or a hang in the code under test is a violation of that run.
#pragma once
#include "simcore.h"
#include <functional>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::vector<std::string> Plan;
struct RunOut { uint64_t hash = 0, nontrivial = 0, sim_ns = 0, states = 0; };
// provided by the world
Plan world_plan(const std::string &profile, uint64_t seed);
RunOut world_run(const std::string &profile, const Plan &plan);
uint64_t real_ns();

#ifndef SIM_CPU_S
#define SIM_CPU_S 20
#endif
SimCore SIM;
[[noreturn]] void sim_die(const std::string &cls, const std::string &msg)
{
	SIM.violation(cls, msg);
	_exit(3);
}
[[noreturn]] void sim_hang(const char *what) { sim_die("hang", what); }
static void on_vtalrm(int)
{
	if (SIM.shared && !SIM.shared->violated) {
		SIM.shared->violated = 1; strcpy(SIM.shared->cls, "hang-cpu"); strcpy(SIM.shared->msg, "no progress: one run used more than its CPU allowance"); SIM.shared->hash = 0;
	}
	_exit(4);
}
static void cpu_guard(unsigned s)
{
	struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s;
	setitimer(ITIMER_VIRTUAL, &v, nullptr);
}
static std::string asan_class(const std::string &log, std::string &msg)
{
	size_t p = log.find("ERROR: AddressSanitizer: ");
	if (p == std::string::npos) { msg = "crash\n" + log.substr(0, 1500); return ""; }
	std::string t = log.substr(p + 25, log.find_first_of(" \n(", p + 25) - p - 25);
	std::string fn = "?", frames;
	size_t s = 0;
	// the first frame that belongs to the code under test
	while ((s = log.find("\n    #", s)) != std::string::npos) {
		size_t in = log.find(" in ", s), nl = log.find('\n', s + 1);
		if (nl == std::string::npos) nl = log.size();
		if (in == std::string::npos || in > nl) { s = nl; continue; }
		std::string line = log.substr(in + 4, nl - in - 4);
		std::string f = line.substr(0, line.find_first_of(" ("));
		if (line.find("/dnstable/") != std::string::npos || line.find("/libmy/") != std::string::npos || (line.find("/src/") != std::string::npos && line.find("compiler-rt") == std::string::npos && line.find("libsanitizer") == std::string::npos)) {
			if (fn == "?") fn = f;
			frames += " < " + f;
		}
		s = nl;
		if (frames.size() > 200) break;
	}
	msg = t + frames;
	return "asan:" + t + ":" + fn;
}
static std::string slurp(int fd)
{
	std::string s; char b[4096]; ssize_t n;
	lseek(fd, 0, SEEK_SET);
	while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 200000) s.append(b, n);
	return s;
}
struct Shot { bool violated = false; std::string cls, msg; uint64_t seed = 0, hash = 0; };
// fork a child; fn runs inside; collect what became of it
static Shot in_child(SimShared *sh, bool quiet, const std::function<void()> &fn)
{
	char tn[] = "/tmp/simerrXXXXXX";
	int fd = mkstemp(tn);
	unlink(tn);
	sh->violated = 0;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		if (quiet) dup2(fd, 2);
		SIM.shared = sh;
		signal(SIGVTALRM, on_vtalrm);
		fn();
		_exit(SIM.violated ? 3 : 0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	Shot s;
	if (sh->violated) { s.violated = true; s.cls = sh->cls; s.msg = sh->msg; s.hash = sh->hash; }
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		s.violated = true;
		s.cls = asan_class(slurp(fd), s.msg);
		if (s.cls.empty()) s.cls = WIFSIGNALED(st) ? "crash:signal" + std::to_string(WTERMSIG(st)) : "crash:exit" + std::to_string(WEXITSTATUS(st));
	}
	s.seed = sh->cur_seed;
	close(fd);
	return s;
}
static std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t') c = ' '; return s.substr(0, 1500); }

struct Ring { uint64_t n; uint64_t distinct; };
int main(int argc, char **argv)
{
	SimShared *sh = (SimShared *)mmap(nullptr, sizeof(SimShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string cmd = argc > 1 ? argv[1] : "";
	if (cmd == "plan" && argc == 4) {
		for (auto &l : world_plan(argv[2], strtoull(argv[3], nullptr, 0))) puts(l.c_str());
		return 0;
	}
	if (cmd == "exec" && argc >= 4) {
		bool verbose = argc > 4;
		Plan p;
		FILE *f = fopen(argv[3], "r");
		if (!f) { perror(argv[3]); return 2; }
		char *line = nullptr; size_t cap = 0; ssize_t n;
		while ((n = getline(&line, &cap, f)) > 0) {
			while (n && (line[n - 1] == '\n')) line[--n] = 0;
			if (n && line[0] != '#') p.push_back(line);
		}
		fclose(f);
		Shot s = in_child(sh, !verbose, [&] {
			SIM.verbose = verbose;
			cpu_guard(SIM_CPU_S);
			RunOut r = world_run(argv[2], p);
			sh->hash = r.hash;
		});
		if (s.violated) { printf("VIOLATED %s\t%s\t%016llx\n", s.cls.c_str(), oneline(s.msg).c_str(), (unsigned long long)s.hash); return 1; }
		printf("OK %016llx\n", (unsigned long long)sh->hash);
		return 0;
	}
	if (cmd == "sweep" && argc >= 8) {
		std::string profile = argv[2];
		uint64_t seed = strtoull(argv[3], nullptr, 0), count = strtoull(argv[4], nullptr, 0), stride = strtoull(argv[5], nullptr, 0);
		std::string out = argv[6];
		double wall = atof(argv[7]);
		uint64_t t0 = real_ns();
		FILE *f = fopen(out.c_str(), "w");
		if (!f) { perror(out.c_str()); return 2; }
		uint64_t done = 0; unsigned bad = 0;
		while (done < count && bad < 12) {
			if ((real_ns() - t0) / 1e9 > wall) break;
			sh->ops_done = 0;
			uint64_t base = done;
			Shot s = in_child(sh, true, [&] {
				std::map<std::string, uint64_t> cnt;
				std::vector<uint64_t> hs;
				SIM.counters = &cnt;
				uint64_t simns = 0, k = base, nontriv = 0, st = 0;
				auto flush = [&] {
					for (auto &c : cnt) fprintf(f, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
					for (auto h : hs) fprintf(f, "H\t%016llx\n", (unsigned long long)h);
					fprintf(f, "S\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long)(k - base), (unsigned long long)nontriv, (unsigned long long)simns, (unsigned long long)st);
					fflush(f);
					cnt.clear(); hs.clear(); simns = nontriv = st = 0; base = k;
				};
				for (; k < count; k++) {
					if ((k & 15) == 0 && (real_ns() - t0) / 1e9 > wall) break;
					sh->cur_seed = seed + k * stride;
					cpu_guard(SIM_CPU_S);
					RunOut r = world_run(profile, world_plan(profile, sh->cur_seed));
					sh->ops_done = k + 1;
					simns += r.sim_ns; st += r.states;
					if (r.nontrivial) { nontriv++; hs.push_back(r.hash); }
					if (SIM.violated) { k++; flush(); _exit(3); }
					if (k - base >= 2000) { k++; flush(); k--; }
				}
				flush();
			});
			if (!s.violated) { done = sh->ops_done > base ? sh->ops_done : base; break; }
			fprintf(f, "V\t%llu\t%s\t%s\n", (unsigned long long)s.seed, s.cls.c_str(), oneline(s.msg).c_str());
			fflush(f);
			bad++;
			done = (s.seed - seed) / stride + 1;
		}
		fprintf(f, "E\t%llu\t%.3f\n", (unsigned long long)done, (real_ns() - t0) / 1e9);
		fclose(f);
		return 0;
	}
	fprintf(stderr, "usage: %s sweep|plan|exec ...\n", argv[0]);
	return 2;
}
