// In-memory file system, stdio streams, directories and sleeps behind --wrap.
#include "sched.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

Vfs VFS;
uint64_t oversleep_ns;
thread_local int heap_tracking;
#define tracking heap_tracking
static const char *ROOT = "/sim";
static bool ours(const std::string &p) { return p.compare(0, 4, ROOT) == 0 && (p.size() == 4 || p[4] == '/'); }
static std::string norm(const char *p)
{
	std::string s = p, r; std::vector<std::string> c; size_t i = 0;
	while (i < s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string w = s.substr(i, j - i); if (w == "..") { if (!c.empty()) c.pop_back(); } else if (!w.empty() && w != ".") c.push_back(w); i = j + 1; }
	for (auto &w : c) r += "/" + w;
	return r.empty() ? "/" : r;
}
void Vfs::reset() { f.clear(); next_ino = 100; salt = 0; open_handles = 0; chunk = 4096; watch = nullptr; mkdir(ROOT); }
InodeP Vfs::get(const std::string &p) { auto i = f.find(p); return i == f.end() ? nullptr : i->second; }
void Vfs::mkdir(const std::string &p) { f[p] = InodeP(new Inode{next_ino++, true, 1, ""}); }
InodeP Vfs::put(const std::string &p, const std::string &d, int64_t m) { return f[p] = InodeP(new Inode{next_ino++, false, m, d}); }
bool Vfs::rename(const std::string &a, const std::string &b) { auto i = f.find(a); if (i == f.end()) return false; InodeP x = i->second; f.erase(i); f[b] = x; return true; }
bool Vfs::unlink(const std::string &p) { return f.erase(p); }
std::vector<std::string> Vfs::list(const std::string &d)
{
	std::vector<std::string> r;
	for (auto i = f.lower_bound(d + "/"); i != f.end() && i->first.compare(0, d.size() + 1, d + "/") == 0; ++i) { std::string n = i->first.substr(d.size() + 1); if (n.find('/') == std::string::npos) r.push_back(n); }
	return r;
}
static int err_of(const std::string &w)
{
	return w == "EIO" ? EIO : w == "ENOENT" ? ENOENT : w == "EACCES" ? EACCES : w == "EMFILE" ? EMFILE : w == "EINTR" ? EINTR : w == "ENOMEM" ? ENOMEM : w == "ENOSPC" ? ENOSPC : w == "EBUSY" ? EBUSY : EIO;
}
static bool faulty(const char *op) { std::string w = fault_take(op); if (w.empty()) return false; errno = err_of(w); return true; }
static void point(const char *op, const std::string &p) { sched_point((std::string(op) + " " + p).c_str()); }
static void fill(struct stat *s, const Inode &n)
{
	memset(s, 0, sizeof *s);
	s->st_ino = n.ino; s->st_mode = n.dangling ? S_IFLNK | 0777 : n.dir ? S_IFDIR | 0755 : n.special ? S_IFIFO | 0644 : S_IFREG | 0644; s->st_mtime = n.mtime; s->st_size = n.data.size(); s->st_nlink = 1; s->st_dev = 7;
}
static int dostat(const char *op, const std::string &p, struct stat *s, bool follow = true)
{
	point(op, p);
	if (faulty(p.size() > 4 && p.compare(p.size() - 4, 4, ".set") == 0 ? "statset" : op)) return -1;
	InodeP n = VFS.get(p);
	if (!n || (n->dangling && follow)) { errno = ENOENT; return -1; }
	fill(s, *n);
	return 0;
}
struct SimDir { uint32_t magic; std::string path; std::vector<std::string> names; size_t pos; struct dirent de; int fd; };
static std::vector<SimDir *> dirs;
struct SimFd { InodeP n; size_t pos; bool open; };
static std::map<int, SimFd> fds; static int next_fd = 10000;
static std::string dirpath(int fd) { for (auto d : dirs) if (d->fd == fd) return d->path; return "/nonexistent"; }
static std::string at(int fd, const char *p) { return p[0] == '/' || fd == AT_FDCWD ? norm(p) : norm((dirpath(fd) + "/" + p).c_str()); }
static void relist(SimDir *d)
{
	d->names = VFS.list(d->path); d->names.push_back("."); d->names.push_back("..");
	Rng r(VFS.salt * 77 + d->names.size());
	for (size_t i = d->names.size(); i > 1; i--) std::swap(d->names[i - 1], d->names[r.below(i)]);
	d->pos = 0;
}
extern "C" {
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_fstat(int, struct stat *); int __real_fstatat(int, const char *, struct stat *, int);
int __real_access(const char *, int); FILE *__real_fopen(const char *, const char *); FILE *__real_popen(const char *, const char *); int __real_pclose(FILE *);
char *__real_realpath(const char *, char *); int __real_mkdir(const char *, mode_t); DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); void __real_rewinddir(DIR *); int __real_closedir(DIR *); int __real_dirfd(DIR *);
int __real_rename(const char *, const char *); int __real_renameat(int, const char *, int, const char *); int __real_unlink(const char *); int __real_usleep(useconds_t); int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
ssize_t __real_read(int, void *, size_t); int __real_close(int);

int __wrap_stat(const char *p, struct stat *s) { Pause pz; if (!sched_active()) return __real_stat(p, s); return dostat("stat", norm(p), s); }
int __wrap_lstat(const char *p, struct stat *s) { Pause pz; if (!sched_active()) return __real_lstat(p, s); return dostat("stat", norm(p), s, false); }
int __wrap_fstatat(int fd, const char *p, struct stat *s, int flags) { Pause pz; return dostat("fstatat", at(fd, p), s, !(flags & AT_SYMLINK_NOFOLLOW)); }
int __wrap_access(const char *p, int m) { Pause pz; if (!sched_active()) return __real_access(p, m); struct stat s; return dostat("stat", norm(p), &s); }
int __wrap_faccessat(int fd, const char *p, int, int) { Pause pz; struct stat s; return dostat("stat", at(fd, p), &s); }
int __wrap_fstat(int fd, struct stat *s)
{
	Pause pz;
	if (!sched_active()) return __real_fstat(fd, s);
	point("fstat", "");
	auto i = fds.find(fd);
	if (i != fds.end()) { if (faulty("fstat")) return -1; fill(s, *i->second.n); return 0; }
	for (auto d : dirs) if (d->fd == fd) { InodeP n = VFS.get(d->path); if (n) { fill(s, *n); return 0; } }
	errno = EBADF; return -1;
}
struct Cookie { InodeP n; size_t pos; bool pipe; int fd; bool unzip; };
static std::set<FILE *> pipes;
static FILE *reaping;
static ssize_t ck_read(void *c, char *b, size_t n)
{
	Pause pz;
	Cookie *k = (Cookie *)c;
	point("fread", "");
	std::string w = fault_take("fread");
	if (!w.empty() && w != "short" && w != "EOF") { errno = err_of(w); return -1; }
	if (w == "EOF") return 0;
	size_t m = std::min<size_t>(n, VFS.chunk);
	if (w == "short") m = 1;
	if (k->pos >= k->n->data.size()) return 0;
	m = std::min(m, k->n->data.size() - k->pos);
	memcpy(b, k->n->data.data() + k->pos, m);
	if (k->n->gz != k->unzip) for (size_t i = 0; i < m; i++) b[i] ^= 0x95;		// compressed bytes, not the text
	k->pos += m;
	return m;
}
static int ck_close(void *c)
{
	Pause pz; Cookie *k = (Cookie *)c;
	if (k->pipe && !reaping && sched_active()) SIM.violation("pipe-not-reaped", "a pipe is closed as if it were a file: its child stays");
	if (k->fd >= 0) fds.erase(k->fd); delete k; VFS.open_handles--; return 0; }
static int ck_seek(void *c, off64_t *o, int wh)
{
	Cookie *k = (Cookie *)c;
	if (k->pipe) { errno = ESPIPE; return -1; }
	off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)k->pos : (off64_t)k->n->data.size();
	b += *o;
	if (b < 0) { errno = EINVAL; return -1; }
	k->pos = b; *o = b;
	return 0;
}
static FILE *mkstream(InodeP n, bool pipe, int fd, bool unzip = false)
{
	cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close};
	VFS.open_handles++;
	return fopencookie(new Cookie{n, 0, pipe, fd, unzip}, "r", io);
}
FILE *__wrap_fopen(const char *p, const char *m)
{
	Pause pz;
	if (!sched_active()) return __real_fopen(p, m);
	std::string q = norm(p);
	point("fopen", q);
	if (faulty("fopen")) return nullptr;
	InodeP n = VFS.get(q);
	if (!n) { errno = ENOENT; return nullptr; }
	return mkstream(n, false, -1);
}
FILE *__wrap_popen(const char *c, const char *)
{
	Pause pz;
	std::string s = c;
	point("popen", s);
	if (faulty("popen")) return nullptr;
	// what sh makes of the command: words; anything else it would do is not what was asked for
	std::vector<std::string> words; bool in = false, odd = false;
	for (size_t i = 0; i < s.size(); i++) {
		char ch = s[i];
		if (ch == ' ' || ch == '\t') { in = false; continue; }
		if (!in) { words.emplace_back(); in = true; }
		if (ch == '\'') { size_t e = s.find('\'', i + 1); if (e == std::string::npos) { odd = true; break; } words.back() += s.substr(i + 1, e - i - 1); i = e; }
		else if (ch == '"') { for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '$' || s[i] == '`') odd = true; if (s[i] == '\\' && i + 1 < s.size() && strchr("$`\"\\", s[i + 1])) i++; words.back() += s[i]; } if (i >= s.size()) odd = true; }
		else if (ch == '\\' && i + 1 < s.size()) words.back() += s[++i];
		else if (strchr(";|&$`<>()*?[#~\n", ch)) odd = true;
		else words.back() += ch;
	}
	InodeP n;
	if (odd) SIM.violation("shell-command", "the shell is asked to run more than one program on one file: " + s);
	else if (words.size() >= 2) n = VFS.get(norm(words.back().c_str()));
	if (n) for (size_t i = 1; i + 1 < words.size(); i++) if (words[i][0] != '-') { SIM.violation("shell-command", "the shell is asked to read more than one file: " + s); n = nullptr; break; }
	if (!n) n = InodeP(new Inode{1, false, 1, ""});		// the shell started, the command failed
	SIM.count("popen");
	std::string prog = words.empty() ? "" : words[0].substr(words[0].rfind('/') + 1);
	bool unzip = prog == "zcat" || prog == "gzcat" || prog == "gunzip" || prog == "gzip" || prog == "pigz" || prog == "unpigz";
	if (unzip && !n->gz) n = InodeP(new Inode{1, false, 1, ""});		// not in gzip format
	FILE *f = mkstream(n, true, -1, unzip);
	pipes.insert(f);
	return f;
}
int __wrap_pclose(FILE *f)
{
	Pause pz;
	if (!pipes.erase(f)) SIM.violation("pclose-of-file", "pclose is called on a stream popen did not return");
	reaping = f; int r = fclose(f); reaping = nullptr;
	return r ? -1 : 0;
}
int __wrap_open(const char *p, int fl, ...)
{
	Pause pz;
	std::string q = norm(p);
	point("open", q);
	if (faulty("fopen")) return -1;
	InodeP n = VFS.get(q);
	if (!n) { errno = ENOENT; return -1; }
	(void)fl;
	fds[next_fd] = SimFd{n, 0, true}; VFS.open_handles++;
	return next_fd++;
}
int __wrap_close(int fd)
{
	Pause pz;
	auto i = fds.find(fd);
	if (i == fds.end()) return sched_active() ? (errno = EBADF, -1) : __real_close(fd);
	fds.erase(i); VFS.open_handles--;
	return 0;
}
FILE *__wrap_fdopen(int fd, const char *)
{
	Pause pz;
	auto i = fds.find(fd);
	if (i == fds.end()) { errno = EBADF; return nullptr; }
	InodeP n = i->second.n; VFS.open_handles--;
	return mkstream(n, false, fd);
}
}
int sim_open_inode(InodeP n) { fds[next_fd] = SimFd{n, 0, true}; return next_fd++; }
void sim_close_fd(int fd) { fds.erase(fd); }
extern "C" {
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	Pause pz;
	if (!sched_active()) return __real_read(fd, b, n);
	auto i = fds.find(fd);
	point("read", std::to_string(n));
	if (i == fds.end()) { errno = EBADF; return -1; }
	std::string w = fault_take("read");
	if (!w.empty() && w != "short" && w != "EOF") { errno = err_of(w); return -1; }
	if (w == "EOF") return 0;
	size_t m = std::min<size_t>(n, VFS.chunk);
	if (w == "short") m = std::min<size_t>(m, 1);
	SimFd &f = i->second;
	if (f.pos >= f.n->data.size()) return 0;
	m = std::min(m, f.n->data.size() - f.pos);
	memcpy(b, f.n->data.data() + f.pos, m);
	f.pos += m;
	return m;
}
char *__wrap_realpath(const char *p, char *o)
{
	Pause pz;
	if (!sched_active()) return __real_realpath(p, o);
	std::string q = norm(p);
	point("realpath", q);
	if (!VFS.get(q)) { errno = ENOENT; return nullptr; }
	if (o) { strcpy(o, q.c_str()); return o; }
	tracking = pz.s;
	return strdup(q.c_str());
}
static int domkdir(const std::string &q)
{
	point("mkdir", q);
	if (faulty("mkdir")) return -1;
	if (VFS.get(q)) { errno = EEXIST; return -1; }
	VFS.mkdir(q);
	return 0;
}
int __wrap_mkdir(const char *p, mode_t) { Pause pz; return domkdir(norm(p)); }
int __wrap_mkdirat(int fd, const char *p, mode_t) { Pause pz; return domkdir(at(fd, p)); }
DIR *__wrap_opendir(const char *p)
{
	Pause pz;
	if (!sched_active()) return __real_opendir(p);
	std::string q = norm(p);
	point("opendir", q);
	if (faulty("opendir")) return nullptr;
	InodeP n = VFS.get(q);
	if (!n || !n->dir) { errno = n ? ENOTDIR : ENOENT; return nullptr; }
	SimDir *d = new SimDir; d->magic = 0xd1d1; d->path = q; d->fd = next_fd++; dirs.push_back(d); relist(d);
	VFS.open_handles++;
	return (DIR *)d;
}
struct dirent *__wrap_readdir(DIR *dp)
{
	Pause pz;
	SimDir *d = (SimDir *)dp;
	if (d->magic != 0xd1d1) sim_die("bad-dir", "readdir on a closed directory");
	sched_point("readdir");
	if (faulty("readdir")) return nullptr;
	// names that went away since the listing may or may not still be shown
	while (d->pos < d->names.size()) {
		std::string n = d->names[d->pos++];
		if (n != "." && n != ".." && !VFS.exists(d->path + "/" + n) && (VFS.salt >> (d->pos % 13) & 1)) continue;
		memset(&d->de, 0, sizeof d->de);
		snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n.c_str());
		InodeP i = VFS.get(d->path + "/" + n);
		d->de.d_ino = i ? i->ino : 1;
		d->de.d_type = (VFS.salt >> 14 & 1) ? DT_UNKNOWN : (n == "." || n == ".." || (i && i->dir)) ? DT_DIR : i && i->dangling ? DT_LNK : i && i->special ? DT_FIFO : DT_REG;
		return &d->de;
	}
	return nullptr;
}
void __wrap_rewinddir(DIR *dp) { Pause pz; SimDir *d = (SimDir *)dp; if (d->magic != 0xd1d1) sim_die("bad-dir", "rewinddir on a closed directory"); sched_point("rewinddir"); relist(d); }
int __wrap_closedir(DIR *dp) { Pause pz; SimDir *d = (SimDir *)dp; if (!sched_active() && d->magic != 0xd1d1) return __real_closedir(dp); if (d->magic != 0xd1d1) sim_die("bad-dir", "closedir twice"); d->magic = 0; dirs.erase(std::find(dirs.begin(), dirs.end(), d)); VFS.open_handles--; delete d; return 0; }
int __wrap_dirfd(DIR *dp) { Pause pz; return ((SimDir *)dp)->fd; }
DIR *__wrap_fdopendir(int) { Pause pz; errno = ENOSYS; return nullptr; }
static int dorename(const std::string &a, const std::string &b)
{
	point("rename", a + " " + b);
	if (faulty("rename")) return -1;
	{ InodeP x = VFS.get(a), y = VFS.get(b); if (x && y && x->dir != y->dir) { errno = y->dir ? EISDIR : ENOTDIR; return -1; } }
	if (VFS.watch) VFS.watch("rename", a, b);
	if (!VFS.rename(a, b)) { errno = ENOENT; return -1; }
	return 0;
}
int __wrap_rename(const char *a, const char *b) { Pause pz; if (!sched_active()) return __real_rename(a, b); return dorename(norm(a), norm(b)); }
int __wrap_renameat(int fa, const char *a, int fb, const char *b) { Pause pz; return dorename(at(fa, a), at(fb, b)); }
int __wrap_link(const char *a, const char *b)
{
	Pause pz;
	std::string p = norm(a), q = norm(b);
	point("link", p + " " + q);
	if (faulty("link")) return -1;
	InodeP n = VFS.get(p);
	if (!n) { errno = ENOENT; return -1; }
	if (VFS.get(q)) { errno = EEXIST; return -1; }
	VFS.f[q] = n;
	return 0;
}
static int dounlink(const std::string &a)
{
	point("unlink", a);
	if (faulty("unlink")) return -1;
	if (VFS.watch) VFS.watch("unlink", a, "");
	if (!VFS.unlink(a)) { errno = ENOENT; return -1; }
	return 0;
}
int __wrap_unlink(const char *p) { Pause pz; if (!sched_active()) return __real_unlink(p); return dounlink(norm(p)); }
int __wrap_remove(const char *p) { Pause pz; return dounlink(norm(p)); }
int __wrap_unlinkat(int fd, const char *p, int) { Pause pz; return dounlink(at(fd, p)); }
// --- time
static uint64_t clk(clockid_t c) { return SIM.now_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? SIM.rt_off_ns : 0); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	Pause pz;
	if (!sched_active()) return __real_clock_gettime(c, t);
	sched_point("clock");
	uint64_t n = clk(c);
	t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
	return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	Pause pz;
	if (!sched_active()) return __real_gettimeofday(t, z);
	sched_point("clock");
	uint64_t n = clk(CLOCK_REALTIME);
	t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
	return 0;
}
time_t __wrap_time(time_t *t) { Pause pz; time_t r = clk(CLOCK_REALTIME) / 1000000000; if (t) *t = r; return r; }
// 0 or EINTR, with the time left
static int dosleep(uint64_t d, uint64_t *left)
{
	std::string w = fault_take("sleep");
	uint64_t t0 = SIM.now_ns;
	if (!w.empty()) {
		uint64_t part = w == "EINTR0" ? 0 : w == "EINTR9" ? d - d / 10 : d / 2;
		sched_sleep_until(t0 + part);
		*left = d - part;
		return EINTR;
	}
	sched_sleep_until(t0 + d + oversleep_ns);
	*left = 0;
	return 0;
}
int __wrap_usleep(useconds_t u)
{
	Pause pz;
	if (!sched_active()) return __real_usleep(u);
	point("usleep", std::to_string(u));
	uint64_t l; int r = dosleep(u * 1000ULL, &l);
	if (r) { errno = r; return -1; }
	return 0;
}
unsigned __wrap_sleep(unsigned s) { Pause pz; point("sleep", ""); uint64_t l; dosleep(s * 1000000000ULL, &l); return l / 1000000000; }
int __wrap_nanosleep(const struct timespec *q, struct timespec *rem)
{
	Pause pz;
	if (!sched_active()) return __real_nanosleep(q, rem);
	point("nanosleep", std::to_string(q->tv_sec) + "." + std::to_string(q->tv_nsec));
	if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) { errno = EINVAL; return -1; }
	uint64_t l; int r = dosleep(q->tv_sec * 1000000000ULL + q->tv_nsec, &l);
	if (r) { if (rem) { rem->tv_sec = l / 1000000000; rem->tv_nsec = l % 1000000000; } errno = r; return -1; }
	return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem)
{
	Pause pz;
	if (!sched_active()) return __real_clock_nanosleep(c, fl, q, rem);
	point("clock_nanosleep", std::to_string(q->tv_sec) + "." + std::to_string(q->tv_nsec));
	if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) return EINVAL;
	uint64_t t = q->tv_sec * 1000000000ULL + q->tv_nsec, now = clk(c);
	uint64_t d = fl & TIMER_ABSTIME ? (t > now ? t - now : 0) : t;
	if (!d) return 0;
	uint64_t l; int r = dosleep(d, &l);
	if (r && rem && !(fl & TIMER_ABSTIME)) { rem->tv_sec = l / 1000000000; rem->tv_nsec = l % 1000000000; }
	return r;
}
}
extern "C" [[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned, const char *fn)
{
	std::string file = f; size_t sl = file.rfind('/');
	sim_die(std::string("assert:") + fn, std::string("assertion failed in ") + (sl == std::string::npos ? file : file.substr(sl + 1)) + " " + fn + ": " + e);
}
uint64_t real_ns() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }
// --- heap accounting by allocator hooks; blocks allocated while a Track exists
#include <pthread.h>
static const size_t NB = 1 << 12;
static struct Blk { const volatile void *p; size_t n; int proc; } blk[NB]; static uint64_t live;
static void on_malloc(const volatile void *p, size_t n)
{
	if (!tracking || !p) return;
	for (size_t i = ((uintptr_t)p >> 4) % NB, k = 0; k < NB; k++, i = (i + 1) % NB) if (!blk[i].p || blk[i].p == (void *)1) { blk[i].p = p; blk[i].n = n; blk[i].proc = sched_proc(); live++; return; }
}
static void on_free(const volatile void *p)
{
	if (!live || !p) return;
	for (size_t i = ((uintptr_t)p >> 4) % NB, k = 0; k < NB; k++, i = (i + 1) % NB) { if (!blk[i].p) return; if (blk[i].p == p) { blk[i].p = (void *)1; live--; return; } }
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static bool installed;
void heap_reset() { if (!installed) { installed = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } memset(blk, 0, sizeof blk); live = 0; }
uint64_t heap_live() { return live; }
void heap_forget_proc(int proc) { for (auto &b : blk) if (b.p && b.p != (void *)1 && b.proc == proc) { b.p = (void *)1; live--; } }
void heap_blocks(const std::function<void(const volatile void *, size_t)> &f) { for (auto &b : blk) if (b.p && b.p != (void *)1) f(b.p, b.n); }
std::string heap_report() { std::string s; for (auto &b : blk) if (b.p && b.p != (void *)1) s += " " + std::to_string(b.n); return s.substr(0, 200); }
Track::Track() { tracking++; }
Track::~Track() { tracking--; }
