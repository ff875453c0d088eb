// Run the command line programs in a child process and keep what they print.
#pragma once
#include "kit.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
extern "C" { int lookup_main(int, char **); int dump_main(int, char **); }
struct Out { int status; std::string out, err; };
static inline std::string all(int fd) { std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static inline Out run(int (*m)(int, char **), std::vector<std::string> args, std::vector<std::string> env = {}, bool full = false)
{
	int o = memfd_create("o", 0), e = memfd_create("e", 0);
	fflush(stdout);
	pid_t p = fork();
	if (!p) {
		dup2(full ? open("/dev/full", 2) : o, 1); dup2(e, 2);
		for (auto &x : env) putenv(strdup(x.c_str()));
		std::vector<char *> v; for (auto &a : args) v.push_back(strdup(a.c_str()));
		v.push_back(nullptr);
		setvbuf(stdout, nullptr, _IOFBF, 4096);
		alarm(20);
		exit(m((int)args.size(), v.data()));
	}
	int st; waitpid(p, &st, 0);
	Out r{WIFEXITED(st) ? WEXITSTATUS(st) : 255, all(o), all(e)};
	close(o); close(e);
	return r;
}
static inline size_t has(const std::string &s, const char *x) { size_t n = 0, p = 0; while ((p = s.find(x, p)) != std::string::npos) { n++; p++; } return n; }
