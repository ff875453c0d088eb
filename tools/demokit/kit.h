// Small stand-alone harness for demonstrations: data files in memory, the real dnstable on top.
#pragma once
#include "a/model.h"
#include "a/dns.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
extern "C" {
#include <dnstable.h>
}
typedef std::vector<std::string> Rows;
struct Kit {
	std::map<std::string, FileModel> f;
	Kit() { store_reset(); SIM.begin(1000000000000ULL); }
	static std::string W(const char *n) { std::string w; dns::from_str(n, w); return w; }
	static std::string N(const char *n) { return dns::hex(W(n)); }
	static std::string X(const std::string &h) { std::string b; dns::unhex(h, b); return b; }
	// one RRset observation; rdata in hex
	void rr(const char *file, uint64_t tf, uint64_t tl, uint64_t n, const char *name, const char *type, const char *bail, std::vector<std::string> rd)
	{
		RrKey k; k.name = W(name); k.bail = W(bail);
		dns::str_type(type, k.type);
		for (auto r : rd) k.rd.push_back(X(r));
		f[file].observe(k, Trip{tf, tl, n});
	}
	void put() { for (auto &x : f) if (!DISK.files.count(x.first)) DISK.files[x.first] = encode(x.second); }
	dnstable_reader *open(const char *set, std::vector<std::string> files) { put(); DISK.setfiles[set] = files; return dnstable_reader_init_setfile(set); }
};
static inline std::string canon(dnstable_entry *e)
{
	const uint8_t *p; size_t n, nr = 0; uint16_t ty = 0; uint64_t tf = 0, tl = 0, c = 0;
	auto nm = [&](dnstable_res r) { return r == dnstable_res_success ? dns::to_str(std::string((const char *)p, n)) : std::string("?"); };
	std::string s = nm(dnstable_entry_get_rrname(e, &p, &n));
	dnstable_entry_get_rrtype(e, &ty);
	s += " " + dns::type_str(ty);
	if (dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success) s += " " + dns::to_str(std::string((const char *)p, n));
	dnstable_entry_get_num_rdata(e, &nr);
	for (size_t i = 0; i < nr; i++) if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success) s += " " + dns::hex(std::string((const char *)p, n));
	dnstable_entry_get_time_first(e, &tf); dnstable_entry_get_time_last(e, &tl); dnstable_entry_get_count(e, &c);
	return s + " " + std::to_string(tf) + "-" + std::to_string(tl) + " x" + std::to_string(c);
}
static inline Rows drain(dnstable_iter *it, dnstable_res *end = nullptr)
{
	Rows r; dnstable_entry *e; dnstable_res x = dnstable_res_failure;
	if (it) while ((x = dnstable_iter_next(it, &e)) == dnstable_res_success) { r.push_back(canon(e)); dnstable_entry_destroy(&e); if (r.size() > 100000) break; }
	if (end) *end = x;
	return r;
}
static inline dnstable_query *query(dnstable_query_type t, const char *data, const char *rrtype = nullptr, const char *bail = nullptr, bool agg = true)
{
	dnstable_query *q = dnstable_query_init(t);
	dnstable_query_set_aggregated(q, agg);
	if (dnstable_query_set_data(q, data) != dnstable_res_success) { printf("set_data: %s\n", dnstable_query_get_error(q)); exit(1); }
	if (rrtype && dnstable_query_set_rrtype(q, rrtype) != dnstable_res_success) { printf("set_rrtype: %s\n", dnstable_query_get_error(q)); exit(1); }
	if (bail && dnstable_query_set_bailiwick(q, bail) != dnstable_res_success) { printf("set_bailiwick: %s\n", dnstable_query_get_error(q)); exit(1); }
	return q;
}
static int failures;
static inline void expect(const char *what, Rows got, Rows want, bool sorted = true)
{
	if (sorted) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
	if (got == want) { printf("ok   %s (%zu rows)\n", what, got.size()); return; }
	failures++;
	printf("FAIL %s\n", what);
	for (auto &r : got) printf("  got  %s\n", r.c_str());
	for (auto &r : want) printf("  want %s\n", r.c_str());
}
static inline void check(const char *what, bool ok) { printf("%s %s\n", ok ? "ok  " : "FAIL", what); if (!ok) failures++; }
void demo();
#ifdef KIT_MAIN
SimCore SIM;
[[noreturn]] void sim_die(const std::string &c, const std::string &m) { printf("FAIL %s: %s\n", c.c_str(), m.c_str()); fflush(stdout); _Exit(1); }
[[noreturn]] void sim_hang(const char *m) { sim_die("hang", m); }
int main() { setvbuf(stdout, nullptr, _IONBF, 0); demo(); printf("%d failed\n", failures); return failures ? 1 : 0; }
#endif
