// read_bytes and my_nanosleep under interruptions, short reads, errors and end of file.
#include "harness.h"
#include <climits>
#include <time.h>
#include <algorithm>
extern "C" { bool shim_read_bytes(int, uint8_t *, size_t); void shim_nanosleep(const struct timespec *); }
int sim_open_inode(InodeP n); void sim_close_fd(int fd);
namespace {
Plan gen(Rng &r)
{
	Plan p; static const unsigned chunks[] = {1, 2, 5, 64, 4096};
	bool big = r.chance(1, 60);
	p.push_back(fmt("cfg - chunk=%u over=%u", chunks[big ? r.range(3, 4) : r.below(5)], (unsigned)(r.chance(1, 2) ? 0 : r.below(5000000))));
	unsigned k = r.range(1, 6); static const std::vector<unsigned> longs = {60, 4294, 86400, 2147484, 9000000, 2147483648u};
	p.push_back(fmt("file - size=%u", (unsigned)(big ? r.range(60000, 200000) : r.below(200))));
	while (k--) {
		if (r.chance(2, 3)) p.push_back(fmt("read - n=%u", (unsigned)(r.chance(1, 8) ? 0 : big ? r.below(80000) : r.below(80))));
		else p.push_back(fmt("sleep - s=%u ns=%u", (unsigned)(r.chance(1, 12) ? r.pick(longs) : r.below(4)), (unsigned)(r.chance(1, 5) ? 0 : r.chance(1, 4) ? 999999999 : r.below(1000000000))));
	}
	unsigned f = r.below(7);
	while (f--) {
		if (r.chance(2, 3)) { static const char *w[] = {"EINTR", "EINTR", "short", "short", "EIO", "EOF", "EAGAIN"}; p.push_back(fmt("fault read %u %s", (unsigned)r.range(1, 12), w[r.below(r.chance(1, 2) ? 4 : 7)])); }
		else { static const char *w[] = {"EINTR", "EINTR0", "EINTR9"}; p.push_back(fmt("fault sleep %u %s", (unsigned)r.range(1, 6), w[r.below(3)])); }
	}
	return p;
}
void run(const std::vector<Line> &p)
{
	InodeP n(new Inode{5, false, 1, ""});
	for (auto &l : p) { if (l.verb == "cfg") { VFS.chunk = l.num("chunk", 64); oversleep_ns = l.num("over"); } if (l.verb == "file") for (uint64_t i = 0; i < l.num("size"); i++) n->data += (char)(i * 7 + 1); }
	sched_spawn(0, [&] {
		int fd = sim_open_inode(n); size_t pos = 0; bool known = true;
		for (auto &l : p) {
			if (l.verb == "read") {
				size_t want = l.num("n"); uint8_t *b = (uint8_t *)malloc(want + 1); memset(b, 0xee, want + 1);
				uint64_t hard0 = fault_hard();
				bool ok; { Track t; ok = shim_read_bytes(fd, b, want); }
				bool hard = fault_hard() != hard0;
				SIM.log("read_bytes %zu %d", want, ok);
				if (b[want] != 0xee) fail("overrun", fmt("read_bytes of %zu bytes wrote more", want));
				if (known) {
					size_t have = n->data.size() - pos;
					bool should = want <= have && !hard;
					if (ok != should) fail(ok ? "false-success" : "false-failure", fmt("read_bytes of %zu with %zu available returned %d%s", want, have, ok, hard ? " after a read error" : ""));
					if (ok) { if (memcmp(b, n->data.data() + pos, want)) fail("wrong-bytes", fmt("read_bytes of %zu at %zu", want, pos)); pos += want; }
					else known = false;		// the position after a failure is not specified
				}
				free(b); OUT.nontrivial = true; SIM.count("read_bytes_calls");
			} else if (l.verb == "sleep") {
				struct timespec t = {(time_t)l.num("s"), (long)l.num("ns")}, keep = t; uint64_t d = t.tv_sec * 1000000000ULL + t.tv_nsec, t0 = SIM.now_ns, f0 = fault_taken();
				{ Track k; shim_nanosleep(&t); }
				uint64_t e = SIM.now_ns - t0, slack = (fault_taken() - f0 + 1) * (oversleep_ns + 3000);
				SIM.log("slept %llu", (unsigned long long)e);
				if (memcmp(&t, &keep, sizeof t)) fail("argument-changed", "my_nanosleep changes its argument");
				if (e < d) fail("short-sleep", fmt("my_nanosleep of %llu ns returned after %llu", (unsigned long long)d, (unsigned long long)e));
				if (e > d + slack) fail("long-sleep", fmt("my_nanosleep of %llu ns returned after %llu", (unsigned long long)d, (unsigned long long)e));
				OUT.nontrivial = true; SIM.count("nanosleep_calls");
			}
		}
		sim_close_fd(fd);
	});
	sched_run();
}
}
const Profile P_IO = {"io", gen, run};
