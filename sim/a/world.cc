// Executes a plan against the real dnstable code over the simulated storage,
// clock and heap, and checks it against the model.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <ctime>
extern "C" {
#include <dnstable.h>
}

std::vector<std::string> split(const std::string &s)
{
	std::vector<std::string> v; std::string c;
	for (char x : s) { if (x == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; }
	if (!c.empty()) v.push_back(c);
	return v;
}
static uint64_t num(const std::string &s) { return strtoull(s.c_str(), nullptr, 0); }

bool (*extra_op)(const std::vector<std::string> &, const ExtraEnv &);
struct Hist { std::vector<std::string> ops; uint64_t ord = 0; std::set<std::string> touched; };	// what the setters were told before
struct QueryH { dnstable_query *q = nullptr; QParams p; Hist hist; bool to_set = false, dl_set = false; uint64_t to_ns = 0, dl_ns = 0; };
struct ReaderH {
	dnstable_reader *r = nullptr; std::string set; std::string single; mtbl_reader *mr = nullptr; unsigned open = 0;
	bool pending = false;
};
struct Outer { dnstable_iter *in; unsigned freed; };	// an iterator of the program's own around the library's
struct IterH {
	dnstable_iter *it = nullptr;
	struct Outer *outer = nullptr;
	QueryH *q = nullptr;		// null for scans
	ReaderH *r = nullptr;
	std::multiset<std::string> left;	// rows still owed
	std::vector<std::string> got;
	std::vector<std::string> twin; bool have_twin = false;
	size_t total = 0, nfiles = 0;
	uint64_t off = 0;
	bool done = false, checked = true;
	bool has_to = false;		// opened with a timeout or deadline
	std::map<std::pair<int, int>, uint64_t> last_stat;
	uint64_t merges = 0, fs_merges = 0, all_merges = 0, seeks[2] = {0, 0}, rows_read = 0, rows_given = 0; bool exclusive = true;
	std::vector<FileModel> snap; 
};
struct Kept { dnstable_entry *e; std::string s; };
struct Sample { dnstable_entry *e; std::string s, bail; bool rrset; uint16_t type; Trip t; };	// rows to ask dnstable_query_filter about

struct World {
	Checks ck;
	std::string profile;
	std::map<std::string, FileModel> models;		// staged or published contents
	std::map<std::string, FileModel> pub;			// what is on disk
	std::map<std::string, std::unique_ptr<QueryH>> qs;
	std::map<std::string, std::unique_ptr<ReaderH>> rs;
	std::map<std::string, std::unique_ptr<IterH>> is;
	std::vector<Kept> kept;
	std::vector<Sample> samples;
	std::map<std::string, FileModel> bydata;		// loaded file identity (see snapshot)
	uint64_t nontrivial = 0, formats = 0;

	void fail(const std::string &cls, const std::string &msg) { SIM.violation(cls, msg); }

	std::string canon(dnstable_entry *e)
	{
		dnstable_entry_type t = dnstable_entry_get_type(e);
		const uint8_t *p; size_t n; uint16_t ty = 0; uint64_t tf = 0, tl = 0, c = 0;
		auto name = [&](dnstable_res r) { return r == dnstable_res_success ? dns::to_str(std::string((const char *)p, n)) : std::string("?"); };
		if (t == DNSTABLE_ENTRY_TYPE_RRSET || t == DNSTABLE_ENTRY_TYPE_RDATA) {
			std::string s = t == DNSTABLE_ENTRY_TYPE_RRSET ? "RRSET " : "RDATA ";
			s += name(dnstable_entry_get_rrname(e, &p, &n));
			if (dnstable_entry_get_rrtype(e, &ty) != dnstable_res_success) s += " ?";
			s += " " + dns::type_str(ty);
			if (t == DNSTABLE_ENTRY_TYPE_RRSET) s += " " + name(dnstable_entry_get_bailiwick(e, &p, &n));
			size_t nr = 0;
			if (dnstable_entry_get_num_rdata(e, &nr) != dnstable_res_success) s += " ?";
			for (size_t i = 0; i < nr; i++) {
				if (dnstable_entry_get_rdata(e, i, &p, &n) != dnstable_res_success) { s += " ?"; continue; }
				s += " " + (n ? dns::hex(std::string((const char *)p, n)) : std::string("-"));
			}
			if (dnstable_entry_get_rdata(e, nr, &p, &n) == dnstable_res_success) s += " past-end";
			dnstable_entry_get_time_first(e, &tf); dnstable_entry_get_time_last(e, &tl); dnstable_entry_get_count(e, &c);
			return s + " tf=" + std::to_string(tf) + " tl=" + std::to_string(tl) + " n=" + std::to_string(c);
		}
		if (t == DNSTABLE_ENTRY_TYPE_TIME_RANGE) {
			dnstable_entry_get_time_first(e, &tf); dnstable_entry_get_time_last(e, &tl);
			return "TR tf=" + std::to_string(tf) + " tl=" + std::to_string(tl);
		}
		if (t == DNSTABLE_ENTRY_TYPE_VERSION) {
			uint32_t v = 0; dnstable_entry_type vt = DNSTABLE_ENTRY_TYPE_RRSET;
			dnstable_entry_get_version(e, &v); dnstable_entry_get_version_type(e, &vt);
			return "VER " + std::to_string((unsigned)vt) + " " + std::to_string(v);
		}
		if (t == DNSTABLE_ENTRY_TYPE_SOURCE_INFO) {
			const char *si = nullptr;
			dnstable_entry_get_source_info(e, &si);
			return std::string("SRC ") + (si ? si : "?");
		}
		bool fwd = t == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD;
		std::string s = fwd ? "FWD " + name(dnstable_entry_get_rrname(e, &p, &n)) : "REV " + name(dnstable_entry_get_rdata_name(e, &p, &n));
		char *txt = dnstable_entry_to_text(e);
		const char *b = txt ? strstr(txt, "RRtypes=[") : nullptr, *x = b ? strchr(b, ']') : nullptr;
		s += x ? " [" + std::string(b + 9, x) + "]" : " [?]";
		free(txt);
		return s;
	}
	FileModel *file(const std::string &n) { return &models[n]; }

	/* --- what the reader sees --- */
	std::vector<const FileModel *> loaded(ReaderH *r)
	{
		std::vector<const FileModel *> v;
		if (!r->set.empty()) {
			for (auto &n : store_loaded(r->set)) { auto it = pub.find(n); if (it != pub.end()) v.push_back(&it->second); }
		} else { auto it = pub.find(r->single); if (it != pub.end()) v.push_back(&it->second); }
		return v;
	}

	void apply_time(QueryH *h)
	{
		struct timespec ts;
		if (h->to_set) { ts.tv_sec = h->to_ns / 1000000000; ts.tv_nsec = h->to_ns % 1000000000; dnstable_query_set_timeout(h->q, &ts); }
		else dnstable_query_set_timeout(h->q, nullptr);
		if (h->dl_set) { ts.tv_sec = h->dl_ns / 1000000000; ts.tv_nsec = h->dl_ns % 1000000000; dnstable_query_set_deadline(h->q, &ts); }
		else dnstable_query_set_deadline(h->q, nullptr);
	}
	static dnstable_res fence_set(dnstable_query *q, const std::string &n, const uint64_t *v, size_t len = 8)
	{
		dnstable_filter_parameter_type t = n == "tfb" ? DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE : n == "tfa" ? DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER :
			n == "tlb" ? DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE : n == "tla" ? DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER : (dnstable_filter_parameter_type)99;
		return dnstable_query_set_filter_parameter(q, t, v, len);
	}
	// an earlier setting: '+' is accepted, '-' must be refused, '0' clears; '^' must be refused and comes after the last ones
	void earlier(dnstable_query *q, const std::string &op, Hist &hist)
	{
		size_t eq = op.find('=');
		std::string n = op.substr(1, eq == std::string::npos ? eq : eq - 1), val = eq == std::string::npos ? "" : op.substr(eq + 1);
		if (val.size() && val[0] == '~') { std::string x; dns::unhex(val.substr(1), x); val = x; }
		const char *c = op[0] == '0' ? nullptr : val.c_str();
		uint64_t u = num(val);
		dnstable_res r;
		if (n == "data") r = dnstable_query_set_data(q, c);
		else if (n == "rrtype") r = dnstable_query_set_rrtype(q, c);
		else if (n == "bail") r = dnstable_query_set_bailiwick(q, c);
		else if (n == "cs") r = dnstable_query_set_case_sensitive(q, u);
		else if (n == "agg") r = dnstable_query_set_aggregated(q, u);
		else if (n == "off") r = dnstable_query_set_offset(q, u);
		else if (n == "len") { u = num(val) | (uint64_t)1 << 40; r = fence_set(q, val[0] & 1 ? "tfb" : "tla", &u, num(val)); }
		else if (n.compare(0, 3, "len") == 0) { u = num(val) * 77; r = fence_set(q, n.substr(3), &u, num(val)); }
		else if (n == "ptype") r = fence_set(q, n, &u);
		else if (n == "tfb" || n == "tfa" || n == "tlb" || n == "tla") r = fence_set(q, n, c ? &u : nullptr);
		else return;
		hist.touched.insert(n);
		SIM.count(op[0] == '-' ? "fault_nonsense_parameter" : op[0] == '0' ? "parameters_cleared" : "parameters_replaced");
		if (op[0] == '-') {
			const char *err = dnstable_query_get_error(q);
			if (ck.setters && r == dnstable_res_success) fail("nonsense-accepted", "a value that makes no sense was accepted: " + op);
			if (ck.setters && (!err || !*err)) fail("no-error-text", "no error text after the refused setting " + op);
		} else if (ck.setters && r != dnstable_res_success) fail("query-refused", "valid setting refused: " + op);
	}
	dnstable_query *build(const QParams &p) { Hist h; dnstable_query *q = dnstable_query_init((dnstable_query_type)p.type); setters(q, p, h); return q; }
	void setters(dnstable_query *q, const QParams &p, Hist &hist)
	{
		std::vector<std::string> late;
		for (auto &o : hist.ops) if (o[0] == '^') late.push_back("-" + o.substr(1)); else earlier(q, o, hist);
		hist.ops.clear();
		bool ok = true;
		auto res = [&](dnstable_res r) { if (r != dnstable_res_success) ok = false; };
		auto was = [&](const char *n) { return hist.touched.count(n) > 0; };
		std::vector<std::pair<std::string, std::function<void()>>> st;
		auto put = [&](const char *n, std::function<void()> f) { st.push_back({n, f}); };
		put("cs", [&] { res(dnstable_query_set_case_sensitive(q, p.cs)); });
		if (p.has_data) put("data", [&] { res(dnstable_query_set_data(q, p.data.c_str())); });
		else if (was("data") && p.type != Q_TR) put("data", [&] { res(dnstable_query_set_data(q, nullptr)); });
		if (!p.rrtype.empty()) put("rrtype", [&] { res(dnstable_query_set_rrtype(q, p.rrtype.c_str())); });
		else if (was("rrtype") && p.type != Q_IP) put("rrtype", [&] { res(dnstable_query_set_rrtype(q, hist.ord % 3 == 1 ? "ANY" : nullptr)); });
		if (!p.bail.empty()) put("bail", [&] { res(dnstable_query_set_bailiwick(q, p.bail.c_str())); });
		else if (was("bail") && p.type == Q_RRSET) put("bail", [&] { res(dnstable_query_set_bailiwick(q, nullptr)); });
		put("agg", [&] { res(dnstable_query_set_aggregated(q, p.agg)); });
		if (p.off || was("off")) put("off", [&] { res(dnstable_query_set_offset(q, p.off)); });
		auto f = [&](const char *t, const std::optional<uint64_t> &v) { if (v || was(t)) put(t, [this, &res, q, t, &v] { res(fence_set(q, t, v ? &*v : nullptr)); }); };
		f("tfb", p.tfb); f("tfa", p.tfa); f("tlb", p.tlb); f("tla", p.tla);
		if (hist.ord) {
			Rng r(hist.ord);
			for (size_t i = st.size(); i > 1; i--) std::swap(st[i - 1], st[r.below(i)]);
			auto before = [&](const char *a, const char *b) {	// the order of these two means something
				size_t x = st.size(), y = x;
				for (size_t i = 0; i < st.size(); i++) { if (st[i].first == a) x = i; if (st[i].first == b) y = i; }
				if (x < st.size() && y < st.size() && x > y) std::swap(st[x], st[y]);
			};
			if (p.type == Q_IP) before("data", "rrtype");
			else before("cs", "data");
		}
		for (auto &x : st) x.second();
		for (auto &o : late) earlier(q, o, hist);	// a refused type or filter parameter leaves what was set
		auto t = [&](const char *n, bool set) { if (set) hist.touched.insert(n); };
		t("data", p.has_data); t("rrtype", !p.rrtype.empty()); t("bail", !p.bail.empty()); t("off", p.off);
		t("tfb", !!p.tfb); t("tfa", !!p.tfa); t("tlb", !!p.tlb); t("tla", !!p.tla);
		if (!ok) {
			if (ck.answers) fail("query-refused", std::string("valid query refused: ") + dnstable_query_get_error(q) + " data=" + p.data);
			SIM.log("query refused");
		}
	}
	// would this row match everything but the name of the query?
	bool may_match(const QParams &p, const Sample &s)
	{
		uint16_t t;
		if (p.type == Q_IP && p.rrtype.empty()) { if (s.type != (p.data.find(':') == std::string::npos ? 1 : 28)) return false; }
		else if (!p.rrtype.empty() && !type_any(p.rrtype)) { if (!dns::str_type(p.rrtype.c_str(), t) || t != s.type) return false; }
		else if (p.type == Q_NAME && !rdname_type(s.type)) return false;
		if (!fence_ok(p, s.t)) return false;
		std::string w;
		if (p.type == Q_RRSET && !p.bail.empty() && dns::from_str(p.bail, w) && dns::down(w) != s.bail) return false;
		return true;
	}
	void ask_filter(QueryH *h)
	{
		if (!ck.filter || h->p.type >= 4) return;
		for (auto &s : samples) {
			if (s.rrset != (h->p.type == Q_RRSET)) continue;
			bool pass = false, may = may_match(h->p, s);
			dnstable_res r = dnstable_query_filter(h->q, s.e, &pass);
			SIM.count("filter_asked");
			if (!may && (r != dnstable_res_success || pass)) { IterH d; d.q = h; fail("filter-passes", "dnstable_query_filter accepts a row whose type, times or bailiwick do not match: " + s.s + " " + desc(&d)); }
			if (may && r != dnstable_res_success) { IterH d; d.q = h; fail("filter-fails", "dnstable_query_filter fails for " + s.s + " " + desc(&d)); }
		}
	}
	void sample(dnstable_entry *&e, const std::string &str)
	{
		dnstable_entry_type t = dnstable_entry_get_type(e);
		if (!ck.filter || samples.size() >= 24 || (t != DNSTABLE_ENTRY_TYPE_RRSET && t != DNSTABLE_ENTRY_TYPE_RDATA)) return;
		for (auto &x : samples) if (x.s == str) return;
		Sample s; s.e = e; s.s = str; s.rrset = t == DNSTABLE_ENTRY_TYPE_RRSET; s.type = 0;
		const uint8_t *b = nullptr; size_t n = 0;
		dnstable_entry_get_rrtype(e, &s.type); dnstable_entry_get_time_first(e, &s.t.tf); dnstable_entry_get_time_last(e, &s.t.tl);
		if (s.rrset && dnstable_entry_get_bailiwick(e, &b, &n) == dnstable_res_success) s.bail = std::string((const char *)b, n);
		samples.push_back(s); e = nullptr;
	}
	static bool kvget(const std::string &tok, const char *k, std::string &v)
	{
		size_t l = strlen(k);
		if (tok.compare(0, l, k) == 0 && tok.size() > l && tok[l] == '=') { v = tok.substr(l + 1); return true; }
		return false;
	}

	uint64_t coarse_now() { return SIM.now_ns - SIM.now_ns % SIM.coarse_ns; }

	// one dnstable_iter_next with all per-step oracles; returns the result
	dnstable_res next(IterH *h)
	{
		dnstable_entry *e = nullptr;
		uint64_t t0 = SIM.now_ns;
		bool armed = h->q && h->has_to && (h->q->to_set || h->q->dl_set);
		uint64_t dl = UINT64_MAX;
		if (armed) {
			if (h->q->to_set) dl = t0 + h->q->to_ns;
			if (h->q->dl_set) dl = std::min(dl, h->q->dl_ns);
		}
		uint64_t m0 = store_merge_calls(), f0 = store_fileset_merges(), r0 = store_rows(), a0 = merge_func_calls, s0[2] = {store_seeks(0), store_seeks(1)};
		// count storage steps taken after the deadline has passed
		store_deadline = armed ? dl : UINT64_MAX; store_late = 0;
		if (armed) SIM.count("timed_calls");
		dnstable_res r = dnstable_iter_next(h->it, &e);
		h->merges += store_merge_calls() - m0; h->fs_merges += store_fileset_merges() - f0; h->all_merges += merge_func_calls - a0;
		for (int i = 0; i < 2; i++) h->seeks[i] += store_seeks(i) - s0[i];
		h->rows_read += store_rows() - r0; h->rows_given += r == dnstable_res_success;
		store_deadline = UINT64_MAX;
		if (armed && ck.timeouts) {
			if (r == dnstable_res_timeout) {
				uint64_t slack = h->q->to_set ? SIM.coarse_ns : 0;
				if (SIM.now_ns + slack < dl)
					fail("timeout-early", "timeout reported " + std::to_string(dl - SIM.now_ns) + " ns before the deadline");
			}
			if (store_late > 16 * (h->nfiles + 2))
				fail("timeout-late", "storage was read " + std::to_string(store_late) + " times after the deadline had passed (files " + std::to_string(h->nfiles) + ")");
		}
		if (r == dnstable_res_timeout) {
			SIM.count("timeouts_fired");
			if (!armed && ck.timeouts) fail("timeout-unarmed", "timeout reported although neither timeout nor deadline is set");
			SIM.log("next timeout now=%llu", (unsigned long long)SIM.now_ns);
			return r;
		}
		if (r != dnstable_res_success) {
			SIM.log("next end");
			finish(h);
			return r;
		}
		std::string s = canon(e);
		SIM.logs(s);
		nontrivial++;
		row(h, s);
		if (ck.filter && h->q) {
			bool pass = false;
			dnstable_res fr = dnstable_query_filter(h->q->q, e, &pass);
			if (h->q->p.type < 4 && (fr != dnstable_res_success || !pass))
				fail("filter-disagrees", "dnstable_query_filter rejects a row the query returned: " + s);
		}
		if (ck.format && !formats) type_names();
		if (ck.format && formats++ < 40) check_format(e, s);
		if (ck.leaks && formats++ < 12) {	// every rendering gives back what it took
			for (int mode = 0; mode < 4; mode++) {
				dnstable_formatter *f = dnstable_formatter_init();
				dnstable_formatter_set_output_format(f, mode == 3 ? dnstable_output_format_text : dnstable_output_format_json);
				dnstable_formatter_set_rdata_array(f, mode == 1); dnstable_formatter_set_raw_rdata(f, mode == 2 || (mode & formats));
				char *o = dnstable_entry_format(f, e);
				dnstable_formatter_destroy(&f);
				free(o);
			}
			free(dnstable_entry_to_text(e)); free(dnstable_entry_to_json(e));
		}
		if (ck.persist && kept.size() < 40) { kept.push_back({e, s}); e = nullptr; }
		else sample(e, s);
		if (e) dnstable_entry_destroy(&e);
		return r;
	}
	void check_format(dnstable_entry *e, const std::string &s);
	void row(IterH *h, const std::string &s)
	{
		if (ck.order && !h->got.empty() && !h->q->p.agg && h->q->p.type < 4) {
			// rows with the same key come sorted by first and then last time seen
			const std::string &p = h->got.back();
			size_t a = p.find(" tf="), b = s.find(" tf=");
			if (a != std::string::npos && b != std::string::npos && p.substr(0, a) == s.substr(0, b)) {
				uint64_t f0 = num(p.substr(a + 4)), f1 = num(s.substr(b + 4));
				uint64_t l0 = num(p.substr(p.find(" tl=") + 4)), l1 = num(s.substr(s.find(" tl=") + 4));
				bool sliced = h->q->p.type == Q_RAW;
				if (!sliced && (f1 < f0 || (f1 == f0 && l1 < l0)))
					fail("dup-order", "equal keys out of time order: " + p + " then " + s);
			}
		}
		h->got.push_back(s);
		if (!h->checked) return;
		auto it = h->left.find(s);
		if (it == h->left.end()) {
			if (ck.answers) {
				bool dup = std::count(h->got.begin(), h->got.end(), s) > 1;
				fail(dup ? "answer-duplicate" : "answer-unexpected", (dup ? "row returned too often: " : "row not in the model's answer: ") + s + " " + desc(h));
			}
		} else
			h->left.erase(it);
	}
	std::string desc(IterH *h)
	{
		if (!h->q) return "(scan)";
		const QParams &p = h->q->p;
		std::string s = "(query type " + std::to_string(p.type) + " data " + p.data + " rrtype '" + p.rrtype + "' bailiwick '" + p.bail + "'" + (p.agg ? "" : " unaggregated") + (p.cs ? " case-sensitive" : "");
		if (p.tfb) s += " tfb=" + std::to_string(*p.tfb);
		if (p.tfa) s += " tfa=" + std::to_string(*p.tfa);
		if (p.tlb) s += " tlb=" + std::to_string(*p.tlb);
		if (p.tla) s += " tla=" + std::to_string(*p.tla);
		return s + (h->off ? " offset=" + std::to_string(h->off) : "") + " files " + std::to_string(h->nfiles) + ")";
	}
	void finish(IterH *h)
	{
		if (h->done) return;
		h->done = true;
		SIM.count("iterations_completed");
		SIM.count("rows_checked", h->got.size());
		if (h->total && h->got.size()) SIM.count("answers_nonempty");
		if (h->checked && ck.answers) {
			if (h->left.size() != std::min<uint64_t>(h->off, h->total))
				fail(h->left.size() > std::min<uint64_t>(h->off, h->total) ? "answer-missing" : "offset-not-skipped", std::to_string(h->left.size()) + " of " + std::to_string(h->total) + " rows missing, e.g. " + (h->left.empty() ? std::string("none") : *h->left.begin()) + " " + desc(h));
		}
		if (ck.offset && h->have_twin) {
			std::vector<std::string> want(h->twin.begin() + std::min<size_t>(h->off, h->twin.size()), h->twin.end());
			if (want != h->got)
				fail("offset-wrong", "offset " + std::to_string(h->off) + " over " + std::to_string(h->twin.size()) + " rows returned " + std::to_string(h->got.size()) + " rows, not the last " + std::to_string(want.size()) + " in order");
		}
		if (ck.stats) stats(h, true);
	}
	// An iterator of a program's own, around one of the library's.  Whatever is true of the one is true of the other.
	static dnstable_res outer_next(void *c, dnstable_entry **e) { return dnstable_iter_next(((Outer *)c)->in, e); }
	static void outer_free(void *c) { auto o = (Outer *)c; if (!o->freed++) dnstable_iter_destroy(&o->in); }
	static dnstable_res outer_stat(const void *c, dnstable_stat_stage s, dnstable_stat_category k, bool *e, uint64_t *n) { return dnstable_iter_get_count(((const Outer *)c)->in, s, k, e, n); }
	std::list<Outer> outers;
	uint64_t opened = 0;
	void wrap(IterH *h)
	{
		if (!(ck.leaks || ck.stats || ck.format) || !h->it || opened++ % 5 != 2) return;
		outers.push_back({h->it, 0}); h->outer = &outers.back();
		h->it = dnstable_iter_init(outer_next, outer_free, h->outer);
		bool e; uint64_t n;
		if (dnstable_iter_get_count(h->it, (dnstable_stat_stage)0, (dnstable_stat_category)0, &e, &n) == dnstable_res_success) fail("own-iterator", "a program's iterator without counters has counters");
		dnstable_iter_set_stat_func(h->it, outer_stat);
		SIM.count("own_iterators");
	}
	void type_names()
	{	// likewise for the types of entries
		std::set<std::string> seen;
		for (int i = 0; i < 256; i++) {
			const char *t = dnstable_entry_type_to_string((dnstable_entry_type)i); bool in = i < 4 || i > 252;
			if ((t != nullptr) != in) fail("type-name", "entry type " + std::to_string(i) + (t ? " has a name" : " has no name"));
			if (!t) continue;
			dnstable_entry_type y = (dnstable_entry_type)99;
			if (!seen.insert(t).second || dnstable_entry_type_from_string(&y, t) != dnstable_res_success || y != (dnstable_entry_type)i) fail("type-name", std::string("entry type ") + t + " does not lead back to its number");
			std::string u = t, l = u.substr(0, u.size() - 1), m = u + "s"; y = (dnstable_entry_type)99;
			for (auto &x : {l, m, std::string()}) if (!seen.count(x) && x != "rrset" && x != "rdata" && (dnstable_entry_type_from_string(&y, x.c_str()) == dnstable_res_success || y != (dnstable_entry_type)99)) fail("type-name", "entry type " + x + " does not exist but is accepted");
		}
	}
	void stat_names()
	{	// a number and its name lead to each other; anything else is refused
		auto names = [&](const char *what, int n, auto str, auto val) {
			std::set<std::string> seen;
			for (int i = -2; i < n + 3; i++) {
				const char *t = str(i); bool in = i >= 0 && i < n;
				if ((t != nullptr) != in) fail("stat-name", std::string(what) + " " + std::to_string(i) + (t ? " has a name" : " has no name"));
				if (!in) continue;
				std::string u = t, x; for (char c : u) x += (char)toupper(c);
				if (u.empty() || !seen.insert(u).second) fail("stat-name", std::string(what) + " name " + u + " stands for two of them");
				for (const std::string &y : {u, x}) { int r = 99; if (!val(y.c_str(), &r) || r != i) fail("stat-name", std::string(what) + " name " + y + " leads to " + std::to_string(r) + ", not " + std::to_string(i)); }
				int r = 99; std::string z = u.substr(0, u.size() - 1), w = u + "x";
				if (val(z.c_str(), &r) || val(w.c_str(), &r) || r != 99) fail("stat-name", std::string(what) + " name is accepted that does not exist");
			}
			int r = 99;
			if (val("", &r) || val(nullptr, &r) || r != 99 || val(str(0), nullptr)) fail("stat-name", std::string(what) + " name accepted without a name or a place for the result");
		};
		names("stage", 10, [](int i) { return dnstable_stat_stage_to_str((dnstable_stat_stage)i); }, [](const char *t, int *r) { dnstable_stat_stage x; if (dnstable_stat_str_to_stage(t, r ? &x : nullptr) != dnstable_res_success) return false; *r = x; return true; });
		names("category", 4, [](int i) { return dnstable_stat_category_to_str((dnstable_stat_category)i); }, [](const char *t, int *r) { dnstable_stat_category x; if (dnstable_stat_str_to_category(t, r ? &x : nullptr) != dnstable_res_success) return false; *r = x; return true; });
		bool e; uint64_t n; dnstable_entry *d;
		if (dnstable_iter_get_count(nullptr, (dnstable_stat_stage)0, (dnstable_stat_category)0, &e, &n) == dnstable_res_success || dnstable_iter_next(nullptr, &d) == dnstable_res_success) fail("stat-name", "no iterator, but success");
	}
	void stats(IterH *h, bool end)
	{
		if (!h->q) return;
		std::map<std::pair<int, int>, uint64_t> v; std::map<std::pair<int, int>, bool> ex;
		for (int s = 0; s < 10; s++) for (int c = 0; c < 4; c++) {
			bool e = false; uint64_t n = 0;
			dnstable_iter_get_count(h->it, (dnstable_stat_stage)s, (dnstable_stat_category)c, &e, &n);
			v[{s, c}] = n; ex[{s, c}] = e;
			if (n < h->last_stat[{s, c}]) fail("stat-decreased", "counter " + std::to_string(s) + "/" + std::to_string(c) + " went down " + desc(h));
			if (!e && n) fail("stat-ghost", "counter " + std::to_string(s) + "/" + std::to_string(c) + " is reported as absent but has value " + std::to_string(n) + " " + desc(h));
			h->last_stat[{s, c}] = n;
		}
		stat_names();
		const QParams &p = h->q->p;
		auto V = [&](int s, int c) { return v[{s, c}]; };
		auto E = [&](int s, int c) { return ex[{s, c}]; };
		enum { F, M, S, N };		// filtered merged seek files
		auto bad = [&](const std::string &m) { fail("stat-wrong", m + " " + desc(h)); };
		bool fs = !h->r->set.empty();
		if (fs && p.agg && V(0, N) + V(6, N) + V(5, N) != h->nfiles)
			bad("files used " + std::to_string(V(0, N)) + " + filled " + std::to_string(V(6, N)) + " + removed " + std::to_string(V(5, N)) + " is not the " + std::to_string(h->nfiles) + " files loaded");
		if (fs && p.agg && !p.fences() && V(0, N) != h->nfiles) bad("file count " + std::to_string(V(0, N)));
		if (h->exclusive && V(0, M) + V(6, M) != h->merges && p.agg)
			bad("merge counters " + std::to_string(V(0, M)) + "+" + std::to_string(V(6, M)) + " but storage merged " + std::to_string(h->merges) + " times");
		if (h->exclusive && p.agg && V(0, M) != h->fs_merges) bad("the fileset counts " + std::to_string(V(0, M)) + " merges but made " + std::to_string(h->fs_merges));
		if (h->exclusive && p.agg && V(0, M) + V(6, M) + V(7, M) != h->all_merges)
			bad("merge counters " + std::to_string(V(0, M)) + "+" + std::to_string(V(6, M)) + "+" + std::to_string(V(7, M)) + " but " + std::to_string(h->all_merges) + " merges were made");
		uint64_t seeks = 0;
		for (int s = 0; s < 10; s++) seeks += V(s, S);
		if (h->exclusive && (seeks < h->seeks[1] || seeks > h->seeks[0]))
			bad("seek counters add up to " + std::to_string(seeks) + " but storage was asked for " + std::to_string(h->seeks[0]) + " seeks, of which " + std::to_string(h->seeks[1]) + " found something");
		SIM.count("seeks_accounted", seeks);
		// no row is both returned and counted as dropped, and none twice.  (Some are neither: a row whose
		// filter asked for a seek that found nothing ends the answer without being counted.)
		uint64_t dropped = 0; bool sane = true;
		for (int i : {1, 2, 3, 4, 5, 8, 9}) { sane &= V(i, F) <= h->rows_read; dropped += V(i, F); }
		if (h->exclusive) {
			if (!sane || h->rows_given + dropped > h->rows_read)
				bad("storage gave " + std::to_string(h->rows_read) + " rows, of which " + std::to_string(h->rows_given) + " were returned and " + std::to_string(dropped) + " are counted as dropped");
			SIM.count("rows_accounted", dropped);
		}
		if (E(9, F) != (h->off > 0)) bad("offset stage presence");
		if (E(8, F) != p.fences() || E(4, F) != p.fences()) bad("time filter stage presence");
		if (E(7, M) != (fs && p.agg && p.fences()) || E(6, M) != (fs && p.agg && p.fences())) bad("left join stage presence");
		if (E(5, F) != (fs && p.agg && (p.tfa || p.tlb))) bad("remove stage presence");
		if (dnstable_iter_get_count(h->it, (dnstable_stat_stage)0, (dnstable_stat_category)0, nullptr, nullptr) == dnstable_res_success) bad("no place for the count, but success");
		bool wildplus = plus_query(p);
		if ((p.type == Q_RRSET || p.type == Q_NAME) && E(1, F) != wildplus) bad("single label stage presence");
		if (V(6, N) == 0 && V(7, M)) bad("left join merged rows without fill files");
		if (end && h->off && V(9, F) != std::min<uint64_t>(h->off, h->total) && h->checked) bad("offset skipped " + std::to_string(V(9, F)));
		if (end && h->checked && (p.type == Q_RRSET || p.type == Q_NAME) && !fs) {
			// single file: rows dropped by the filters and rows returned add up to the candidates
			QParams q2 = p; q2.tfb = q2.tfa = q2.tlb = q2.tla = std::nullopt;
			std::vector<const FileModel *> fm; for (auto &m : h->snap) fm.push_back(&m);
			size_t cand = answer(q2, fm).size();
			if (V(4, F) + V(8, F) + V(9, F) + h->got.size() != cand)
				bad("time filters dropped " + std::to_string(V(4, F)) + "+" + std::to_string(V(8, F)) + ", offset " + std::to_string(V(9, F)) + ", returned " + std::to_string(h->got.size()) + " of " + std::to_string(cand) + " candidates");
		}
		SIM.count("stat_checks");
	}
	void close(const std::string &n)
	{
		auto it = is.find(n);
		if (it == is.end()) return;
		IterH *h = it->second.get();
		if (ck.stats && !h->done) stats(h, false);
		if (!h->done) SIM.count("iterations_abandoned");
		dnstable_iter_destroy(&h->it);
		if (h->outer && h->outer->freed != 1) fail("own-iterator", "a program's iterator is released " + std::to_string(h->outer->freed) + " times");
		h->r->open--;
		SIM.log("close %s", n.c_str());
		is.erase(it);
	}
	std::unique_ptr<IterH> open_query(QueryH *q, ReaderH *r)
	{
		auto h = std::make_unique<IterH>();
		h->q = q; h->r = r; h->off = q->p.off;
		h->has_to = q->to_set || q->dl_set;
		ask_filter(q);
		uint64_t m0 = store_merge_calls(), f0 = store_fileset_merges(), r0 = store_rows(), a0 = merge_func_calls, s0[2] = {store_seeks(0), store_seeks(1)};
		h->it = dnstable_reader_query(r->r, q->q);
		h->merges = store_merge_calls() - m0; h->fs_merges = store_fileset_merges() - f0; h->all_merges = merge_func_calls - a0;
		for (int i = 0; i < 2; i++) h->seeks[i] = store_seeks(i) - s0[i];
		auto fm = loaded(r);
		h->nfiles = fm.size();
		auto a = answer(q->p, fm);
		h->total = a.size();
		h->left = std::multiset<std::string>(a.begin(), a.end());
		if (ck.stats && r->set.empty()) for (auto f : fm) h->snap.push_back(*f);
		if (!h->it) {
			if (ck.answers && h->total) fail("query-null", "query with " + std::to_string(h->total) + " answers returned no iterator " + desc(h.get()));
			return h;
		}
		r->open++;
		return h;
	}

	void op(const std::string &line)
	{
		auto v = split(line);
		if (v.empty()) return;
		const std::string &o = v[0];
		auto need = [&](size_t n) { return v.size() > n; };
		std::string x;
		if (o == "cfg") {
			for (size_t i = 1; i < v.size(); i++) {
				if (kvget(v[i], "null", x)) STORE.null_iters = num(x);
				else if (kvget(v[i], "defer", x)) STORE.defer_reload = num(x);
				else if (kvget(v[i], "lat", x)) STORE.lat_ns = num(x);
				else if (kvget(v[i], "salt", x)) STORE.lat_salt = num(x);
				else if (kvget(v[i], "stall", x)) STORE.stall_every = num(x);
				else if (kvget(v[i], "stallns", x)) STORE.stall_ns = num(x);
				else if (kvget(v[i], "coarse", x)) SIM.coarse_ns = std::max<uint64_t>(1, num(x));
				else if (kvget(v[i], "cost", x)) SIM.clock_cost_ns = num(x);
			}
		} else if (o == "bulk" && need(5)) {		// many hosts under one name
			FileModel *m = file(v[1]);
			RrKey k; std::string w;
			if (!dns::from_str(v[3], w) || w.size() > 200 || !dns::str_type("A", k.type)) return;
			k.bail = w;
			// 0 hosts below a name, 1 names that continue it, 2 and 3 the same as data of NS records
			unsigned kind = need(6) ? num(v[6]) : 0;
			for (uint64_t i = 0, n = std::min<uint64_t>(num(v[2]), 2000); i < n; i++) {
				std::string l = "h" + std::to_string(i), nm;
				l = (char)l.size() + l;
				if (kind & 1) { nm = w; nm.pop_back(); nm += l + std::string(1, '\0'); } else nm = l + w;
				if (kind < 2) { k.name = nm; k.rd = {std::string("\x7f\x01") + (char)(i >> 8) + (char)i}; }
				else { k.name = std::string("\1z\0", 3); k.bail = std::string(1, '\0'); k.type = 2; k.rd = {nm}; }
				m->observe(k, Trip{num(v[4]), num(v[5]), 1 + i});
			}
		} else if (o == "obs" && need(7)) {
			FileModel *m = file(v[1]);
			Trip t{num(v[2]), num(v[3]), num(v[4])};
			RrKey k; uint16_t ty;
			if (!dns::from_str(v[5], k.name) || !dns::str_type(v[6].c_str(), ty) || !dns::from_str(v[7], k.bail)) return;
			k.type = ty;
			for (size_t i = 8; i < v.size(); i++) { std::string b; if (v[i] == "-") k.rd.push_back(""); else if (dns::unhex(v[i], b)) k.rd.push_back(b); }
			if (k.rd.empty()) return;
			if (!m->badval.empty()) return;		// what is damaged stays so
			m->observe(k, t);
		} else if (o == "obstypes" && need(8)) {		// rows of many unusual types at one name
			FileModel *m = file(v[1]);
			Trip t{num(v[2]), num(v[3]), num(v[4])};
			RrKey k; if (!dns::from_str(v[5], k.name)) return;
			k.rd.push_back("\x01"); k.bail = std::string(1, 0); unsigned w0 = num(v[6]), nw = num(v[7]), lo = num(v[8]);
			for (unsigned w = w0; w < w0 + nw && w < 256; w++) { k.type = w << 8 | (lo & 255); if (k.type != 255) m->observe(k, t); }
			SIM.count("many_types");
		} else if (o == "legacy" && need(1)) file(v[1])->legacy = true;
		else if (o == "src" && need(2)) file(v[1])->src.insert(v[2]);
		else if (o == "ver" && need(3)) file(v[1])->ver[num(v[2])] = v[3] == "-" ? std::nullopt : std::optional<uint32_t>(num(v[3]));
		else if (o == "raw" && need(2)) {
			std::string k, val;
			dns::unhex(v[2], k); if (need(3)) dns::unhex(v[3], val);
			file(v[1])->raw[k] = val;
		} else if (o == "badunion" && need(3)) {
			std::string w; if (!dns::from_str(v[3], w)) return;
			std::string k = v[2] == "fwd" ? "\x01" + w : "\x03" + dns::reverse(w);
			FileModel *m = file(v[1]);
			if (v[2] == "fwd" ? m->fwd.count(w) : m->rev.count(w)) { m->bad_union.insert(k); SIM.count("fault_bad_union"); }
		} else if (o == "badval" && need(4)) {		// the value of a good key is damaged in this file
			static const std::string bad[] = {"", "\x05", "\x05\x06", "\x05\x06\x80", std::string("\x01\x02\x03\x04", 4), std::string(12, '\xff')};
			FileModel *m = file(v[1]); const std::string &val = bad[num(v[4]) % 6];
			if (v[2] == "rr" && !m->rr.empty()) {
				auto it = std::next(m->rr.begin(), num(v[3]) % m->rr.size());
				m->badval[key_rrset(it->first)] = val; m->rr.erase(it);
			} else if (v[2] == "rd" && !m->rd.empty()) {
				auto it = std::next(m->rd.begin(), num(v[3]) % m->rd.size());
				std::string s = key_sliced(it->first);
				m->badval[key_rdata(it->first)] = val; if (!s.empty()) m->badval[s] = val;
				m->rd.erase(it);
			} else if (v[2] == "tr" && m->tr_present) m->tr_bad = true;
			else if (v[2] == "ver" && m->ver.count(num(v[3]))) m->ver_bad.insert(num(v[3]));
			else return;
			SIM.count("fault_bad_value");
		} else if (o == "put" && need(1)) {
			FileModel *m = file(v[1]);
			if (DISK.files.count(v[1])) return;		// data files are immutable
			// entries that parse as something real but collide with real keys are dropped
			pub[v[1]] = *m;
			DISK.files[v[1]] = encode(*m);
			SIM.count("fault_malformed_entry", m->raw.size());
			SIM.log("put %s entries=%zu", v[1].c_str(), DISK.files[v[1]]->kv.size());
		} else if (o == "merge" && need(3)) merge(v);
		else if (o == "rmf" && need(1)) { DISK.files.erase(v[1]); }
		else if (o == "set" && need(1)) { DISK.setfiles[v[1]] = std::vector<std::string>(v.begin() + 2, v.end()); SIM.log("set %s n=%zu", v[1].c_str(), v.size() - 2); }
		else if (o == "rmset" && need(1)) { DISK.setfiles.erase(v[1]); SIM.count("fault_setfile_missing"); }
		else if (o == "rdr" && need(2)) {
			if (rs.count(v[1])) return;
			auto r = std::make_unique<ReaderH>();
			r->set = v[2]; r->r = dnstable_reader_init_setfile(v[2].c_str());
			rs[v[1]] = std::move(r);
		} else if (o == "rdrf" && need(2)) {
			if (rs.count(v[1])) return;
			auto r = std::make_unique<ReaderH>();
			r->mr = mtbl_reader_init(v[2].c_str(), nullptr);
			if (!r->mr) return;
			r->single = v[2]; r->r = dnstable_reader_init(mtbl_reader_source(r->mr));
			rs[v[1]] = std::move(r);
		} else if (o == "reload" && need(1)) {
			auto it = rs.find(v[1]);
			if (it == rs.end()) return;
			ReaderH *r = it->second.get();
			std::vector<std::string> want, before;
			if (!r->set.empty()) before = store_loaded(r->set);
			if (DISK.setfiles.count(r->set)) {
				for (auto &f : DISK.setfiles[r->set])
					if (DISK.files.count(f) || std::count(before.begin(), before.end(), f)) want.push_back(f);
			} else want = before;
			dnstable_reader_reload_setfile(r->r);
			SIM.count("reloads");
			if (ck.reload && !r->set.empty() && r->open == 0 && store_loaded(r->set) != want)
				fail("reload-lost", "after a reload with nothing open the reader serves " + std::to_string(store_loaded(r->set).size()) + " files, the set file names " + std::to_string(want.size()));
			SIM.log("reload %s files=%zu", v[1].c_str(), r->set.empty() ? 0 : store_loaded(r->set).size());
		} else if (o == "rclose" && need(1)) close_reader(v[1]);
		else if (o == "q" && need(2)) query(v);
		else if (o == "qre" && need(2)) reuse(v);
		else if (o == "qset" && need(2)) {
			auto it = qs.find(v[1]);
			if (it == qs.end()) return;
			QueryH *h = it->second.get();
			for (size_t i = 2; i < v.size(); i++) times(h, v[i]);
			apply_time(h);
		} else if (o == "open" && need(3)) {
			if (is.count(v[1]) || !qs.count(v[2]) || !rs.count(v[3])) return;
			QueryH *q = qs[v[2]].get(); ReaderH *r = rs[v[3]].get();
			std::vector<std::string> twin; bool have = false;
			if (ck.offset && q->p.type < 4) {
				QueryH tw; tw.p = q->p; tw.p.off = 0; tw.q = build(tw.p);
				auto h = open_query(&tw, r);
				if (h->it) {
					dnstable_entry *e;
					while (dnstable_iter_next(h->it, &e) == dnstable_res_success) { twin.push_back(canon(e)); dnstable_entry_destroy(&e); }
					dnstable_iter_destroy(&h->it); r->open--;
					have = true;
				}
				dnstable_query_destroy(&tw.q);
			}
			auto h = open_query(q, r);
			h->twin = twin; h->have_twin = have;
			SIM.log("open %s q=%s rows=%zu files=%zu", v[1].c_str(), v[2].c_str(), h->total, h->nfiles);
			wrap(h.get());
			if (h->it) is[v[1]] = std::move(h);
		} else if (o == "scan" && need(3)) {
			if (is.count(v[1]) || !rs.count(v[2])) return;
			ReaderH *r = rs[v[2]].get();
			int t = (int)strtol(v[3].c_str(), nullptr, 10);
			auto h = std::make_unique<IterH>();
			h->r = r;
			switch (t) {
			case -1: h->it = dnstable_reader_iter(r->r); break;
			case 0: h->it = dnstable_reader_iter_rrset(r->r); break;
			case 1: h->it = dnstable_reader_iter_rrset_names(r->r); break;
			case 2: h->it = dnstable_reader_iter_rdata(r->r); break;
			case 3: h->it = dnstable_reader_iter_rdata_names(r->r); break;
			case 253: h->it = dnstable_reader_iter_source_info(r->r); break;
			case 254: h->it = dnstable_reader_iter_time_range(r->r); break;
			case 255: h->it = dnstable_reader_iter_version(r->r); break;
			default: return;
			}
			if (!h->it) return;
			r->open++;
			auto fm = loaded(r);
			h->nfiles = fm.size();
			auto a = scan_rows(merge_models(fm), t);
			h->total = a.size(); h->left = std::multiset<std::string>(a.begin(), a.end());
			SIM.log("scan %s rows=%zu", v[1].c_str(), h->total);
			wrap(h.get());
			is[v[1]] = std::move(h);
		} else if ((o == "next" || o == "drain") && need(1)) {
			auto it = is.find(v[1]);
			if (it == is.end()) return;
			IterH *h = it->second.get();
			if (o == "next") {
				uint64_t n = need(2) ? num(v[2]) : 1;
				while (n-- && !SIM.violated && next(h) == dnstable_res_success) ;
			} else drain(h);
		} else if (o == "drainall") { for (auto &i : is) if (!SIM.violated) drain(i.second.get()); }
		else if (o == "close" && need(1)) close(v[1]);
		else if (o == "qclose" && need(1)) {
			auto it = qs.find(v[1]);
			if (it == qs.end()) return;
			for (auto &i : is) if (i.second->q == it->second.get()) return;
			dnstable_query_destroy(&it->second->q);
			qs.erase(it);
		} else if (o == "adv" && need(1)) SIM.now_ns += num(v[1]);
		else if (o == "rtjump" && need(1)) { SIM.rt_off_ns += (int64_t)strtoll(v[1].c_str(), nullptr, 10); SIM.count("fault_clock_jump"); }
		else if (extra_op && o == "cli") {
			std::map<std::string, QParams> qp; for (auto &q : qs) qp[q.first] = q.second->p;
			ExtraEnv e{&pub, &qp, &nontrivial, [this](const std::vector<std::string> &m, void *f) { merge(m, (mtbl_merge_func)f); }};
			extra_op(v, e);
		}
		else if (o == "lat" && need(1)) STORE.lat_ns = num(v[1]);
		else if (o == "stall" && need(2)) { STORE.stall_every = num(v[1]); STORE.stall_ns = num(v[2]); }
	}
	void drain(IterH *h)
	{
		// faults stop: the storage is fast again and time limits are lifted after a while
		uint64_t cap = 200000, tos = 0;
		while (cap-- && !SIM.violated) {
			dnstable_res r = next(h);
			if (r == dnstable_res_timeout) {
				if (++tos == 50 && h->q) { h->q->to_set = h->q->dl_set = false; apply_time(h->q); SIM.count("limits_lifted"); }
				continue;
			}
			if (r != dnstable_res_success) return;
		}
		if (!SIM.violated) fail("no-progress", "iteration does not end " + desc(h));
	}
	void times(QueryH *h, const std::string &tok)
	{
		std::string x;
		if (kvget(tok, "to", x)) { h->to_set = x != "none"; if (h->to_set) h->to_ns = num(x); }
		else if (kvget(tok, "dl", x)) {
			h->dl_set = x != "none";
			if (h->dl_set) { int64_t d = strtoll(x.c_str(), nullptr, 10); h->dl_ns = (int64_t)SIM.now_ns + d < 0 ? 0 : SIM.now_ns + d; }
		}
	}
	void parse(QueryH *h, const std::vector<std::string> &v)
	{
		QParams &p = h->p;
		std::string x;
		for (size_t i = 2; i < v.size(); i++) {
			if (strchr("+-0^", v[i][0])) h->hist.ops.push_back(v[i]);
			else if (kvget(v[i], "ord", x)) h->hist.ord = num(x);
			else if (kvget(v[i], "type", x)) p.type = x == "rrset" ? 0 : x == "name" ? 1 : x == "ip" ? 2 : x == "raw" ? 3 : x == "tr" ? 254 : 255;
			else if (kvget(v[i], "data", x)) { p.data = x; p.has_data = true; }
			else if (kvget(v[i], "rrtype", x)) p.rrtype = x;
			else if (kvget(v[i], "bail", x)) p.bail = x;
			else if (kvget(v[i], "cs", x)) p.cs = num(x);
			else if (kvget(v[i], "agg", x)) p.agg = num(x);
			else if (kvget(v[i], "off", x)) p.off = num(x);
			else if (kvget(v[i], "tfb", x)) p.tfb = num(x);
			else if (kvget(v[i], "tfa", x)) p.tfa = num(x);
			else if (kvget(v[i], "tlb", x)) p.tlb = num(x);
			else if (kvget(v[i], "tla", x)) p.tla = num(x);
			else times(h, v[i]);
		}
	}
	void query(const std::vector<std::string> &v)
	{
		if (qs.count(v[1])) return;
		auto h = std::make_unique<QueryH>();
		QParams &p = h->p;
		parse(h.get(), v);
		if (p.type <= 3 && !p.has_data) return;
		h->q = dnstable_query_init((dnstable_query_type)p.type);
		setters(h->q, p, h->hist);
		apply_time(h.get());
		qs[v[1]] = std::move(h);
	}
	// the same query object is used for another question
	void reuse(const std::vector<std::string> &v)
	{
		auto q = qs.find(v[1]);
		if (q == qs.end()) return;
		QueryH *h = q->second.get();
		for (bool again = true; again;) {
			again = false;
			for (auto &i : is) if (i.second->q == h) { close(i.first); again = true; break; }
		}
		int type = h->p.type;
		h->p = QParams(); h->to_set = h->dl_set = false;
		parse(h, v);
		h->p.type = type;
		if (type <= 3 && !h->p.has_data) { h->hist.touched.clear(); dnstable_query_destroy(&h->q); qs.erase(q); return; }
		setters(h->q, h->p, h->hist);
		apply_time(h);
		SIM.count("queries_reused");
	}
	// a merger process: reads every source through a merger with the real
	// merge function and writes the result; may crash part way
	void merge(const std::vector<std::string> &v, mtbl_merge_func fn = dnstable_merge_func)
	{
		uint64_t crash = 0; std::string x;
		std::vector<mtbl_reader *> rd; std::vector<const FileModel *> ms;
		if (DISK.files.count(v[1])) return;
		mtbl_merger_options *o = mtbl_merger_options_init();
		mtbl_merger_options_set_merge_func(o, fn, nullptr);
		mtbl_merger *m = mtbl_merger_init(o);
		mtbl_merger_options_destroy(&o);
		for (size_t i = 2; i < v.size(); i++) {
			if (kvget(v[i], "crash", x)) { crash = num(x); continue; }
			mtbl_reader *r = mtbl_reader_init(v[i].c_str(), nullptr);
			if (!r) continue;
			rd.push_back(r); ms.push_back(&pub[v[i]]);
			mtbl_merger_add_source(m, mtbl_reader_source(r));
		}
		auto t = std::make_shared<Table>();
		mtbl_iter *it = mtbl_source_iter(mtbl_merger_source(m));
		const uint8_t *k, *val; size_t lk, lv; bool crashed = false;
		while (mtbl_iter_next(it, &k, &lk, &val, &lv) == mtbl_res_success) {
			if (crash && t->kv.size() + 1 >= crash) { crashed = true; break; }
			t->kv.push_back({std::string((const char *)k, lk), std::string((const char *)val, lv)});
		}
		mtbl_iter_destroy(&it);
		mtbl_merger_destroy(&m);
		if (crashed || rd.empty()) {
			if (crashed) SIM.count("fault_merger_crash");
			SIM.log("merge %s crashed", v[1].c_str());
		} else {
			DISK.files[v[1]] = t;
			pub[v[1]] = models[v[1]] = merge_models(ms);
			SIM.count("merges");
			SIM.log("merge %s entries=%zu", v[1].c_str(), t->kv.size());
		}
		for (auto &r : rd) mtbl_reader_destroy(&r);
	}
	void close_reader(const std::string &n)
	{
		auto it = rs.find(n);
		if (it == rs.end()) return;
		std::vector<std::string> dead;
		for (auto &i : is) if (i.second->r == it->second.get()) dead.push_back(i.first);
		for (auto &d : dead) close(d);
		dnstable_reader_destroy(&it->second->r);
		if (it->second->mr) mtbl_reader_destroy(&it->second->mr);
		rs.erase(it);
	}
	void shutdown()
	{
		while (!is.empty()) close(is.begin()->first);
		for (auto &k : kept) {
			if (!SIM.violated && canon(k.e) != k.s) fail("entry-changed", "a returned row changed after the iterator moved on: was " + k.s + " now " + canon(k.e));
			dnstable_entry_destroy(&k.e);
		}
		for (auto &x : samples) dnstable_entry_destroy(&x.e);
		while (!rs.empty()) close_reader(rs.begin()->first);
		for (auto &q : qs) dnstable_query_destroy(&q.second->q);
		qs.clear();
		if (ck.leaks) {
			if (store_open_options)
				fail("leak-storage", std::to_string(store_open_options) + " option objects of the storage layer are never released");
			else if (store_open_iters || store_open_sources || store_open_filesets || store_open_mergers || store_open_readers)
				fail("leak-storage", "after everything was closed storage still has " + std::to_string(store_open_iters) + " iterators, " + std::to_string(store_open_sources) + " sources, " +
					std::to_string(store_open_filesets) + " filesets, " + std::to_string(store_open_mergers) + " mergers, " + std::to_string(store_open_readers) + " readers open");
			else if (heap_live())
				fail("leak-memory", std::to_string(heap_live()) + " heap blocks are never released after everything was closed");
			SIM.count("leak_checks");
		}
	}
};

/* ---- output formats: the JSON and text forms carry exactly the row ---- */
struct JV { int k = 0; std::string s; std::vector<JV> a; std::vector<std::pair<std::string, JV>> o; };	// 0 null 1 num 2 str 3 arr 4 obj
static bool jparse(const char *&p, JV &v)
{
	auto str = [&](std::string &s) {
		if (*p++ != '"') return false;
		while (*p && *p != '"') {
			if ((unsigned char)*p < 32) return false;
			if (*p == '\\') {
				p++;
				switch (*p) {
				case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
				case '"': case '\\': case '/': s += *p; break;
				case 'u': { unsigned x = 0; for (int i = 0; i < 4; i++) { p++; if (!isxdigit((unsigned char)*p)) return false; x = x * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (*p | 32) - 'a' + 10); } s += (char)x; break; }
				default: return false;
				}
				p++;
			} else s += *p++;
		}
		return *p++ == '"';
	};
	if (*p == '"') { v.k = 2; return str(v.s); }
	if (isdigit((unsigned char)*p)) { v.k = 1; while (isdigit((unsigned char)*p)) v.s += *p++; return v.s.size() == 1 || v.s[0] != '0'; }
	if (*p == '[') {
		v.k = 3; p++;
		if (*p == ']') { p++; return true; }
		for (;;) { v.a.emplace_back(); if (!jparse(p, v.a.back())) return false; if (*p == ',') { p++; continue; } return *p++ == ']'; }
	}
	if (*p == '{') {
		v.k = 4; p++;
		if (*p == '}') { p++; return true; }
		for (;;) {
			std::string k; if (!str(k) || *p++ != ':') return false;
			v.o.emplace_back(k, JV()); if (!jparse(p, v.o.back().second)) return false;
			if (*p == ',') { p++; continue; } return *p++ == '}';
		}
	}
	return false;
}
static const JV *jget(const JV &v, const char *k) { const JV *r = nullptr; for (auto &x : v.o) if (x.first == k) { if (r) return nullptr; r = &x.second; } return r; }
static std::string jtime(const JV *v, bool rfc)
{
	if (!v) return "?";
	if (!rfc) return v->k == 1 ? v->s : "?";
	if (v->k == 1 && v->s.size() >= 12 && num(v->s) > 253402300799ULL) return v->s;	// RFC 3339 has no years past 9999
	int Y, M, D, h, m, s; char z;
	if (v->k != 2 || v->s.size() != 20 || sscanf(v->s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%c", &Y, &M, &D, &h, &m, &s, &z) != 7 || z != 'Z') return "?";
	struct tm tm; memset(&tm, 0, sizeof tm);
	tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s;
	return std::to_string((uint64_t)timegm(&tm));
}
void World::check_format(dnstable_entry *e, const std::string &s)
{
	auto bad = [&](const std::string &why, const char *out) { fail("format-wrong", why + ": row " + s + " printed as " + (out ? out : "(null)")); };
	auto w = split(s);
	bool rrset = w[0] == "RRSET", rdata = w[0] == "RDATA";
	std::string tf, tl, cnt; std::vector<std::string> rds;
	auto T = [](const std::string &x, const char *k) { size_t l = strlen(k); return x.compare(0, l, k) == 0 ? x.substr(l) : std::string(); };
	for (auto &x : w) { if (!T(x, "tf=").empty()) tf = T(x, "tf="); if (!T(x, "tl=").empty()) tl = T(x, "tl="); if (!T(x, "n=").empty()) cnt = T(x, "n="); }
	uint16_t ty = 0;
	if (rrset || rdata) {
		dns::str_type(w[2].c_str(), ty);
		for (size_t i = rrset ? 4 : 3; i < w.size() && w[i].compare(0, 3, "tf="); i++) { std::string b; if (w[i] != "-") dns::unhex(w[i], b); rds.push_back(b); }
	}
	// what an entry does not have is refused, not made up
	{
		const uint8_t *p; size_t n; uint16_t t; uint64_t u; uint32_t v; const char *si; dnstable_entry_type vt;
		bool fwd = w[0] == "FWD", rev = w[0] == "REV", tr = w[0] == "TR", src = w[0] == "SRC", ver = w[0] == "VER", row = rrset || rdata;
		auto has = [&](const char *what, dnstable_res r, bool want) {
			if ((r == dnstable_res_success) != want) bad(std::string(what) + (want ? " is refused" : " is given although entries of this type have none"), "");
		};
		has("rrname", dnstable_entry_get_rrname(e, &p, &n), row || fwd);
		has("bailiwick", dnstable_entry_get_bailiwick(e, &p, &n), rrset);
		has("rrtype", dnstable_entry_get_rrtype(e, &t), row);
		has("rdata", dnstable_entry_get_rdata(e, 0, &p, &n), row && !rds.empty());
		has("number of rdata", dnstable_entry_get_num_rdata(e, &n), row);
		has("rdata name", dnstable_entry_get_rdata_name(e, &p, &n), rev);
		has("time first", dnstable_entry_get_time_first(e, &u), row || tr);
		has("time last", dnstable_entry_get_time_last(e, &u), row || tr);
		has("count", dnstable_entry_get_count(e, &u), row);
		has("source info", dnstable_entry_get_source_info(e, &si), src);
		has("version", dnstable_entry_get_version(e, &v), ver);
		has("version type", dnstable_entry_get_version_type(e, &vt), ver);
	}
	for (int zone = 0; zone < 2; zone++)
	for (int mode = 0; mode < 10 && !SIM.violated; mode++) {
		bool rfc = mode & 1, arr = mode & 2, raw = mode & 4;
		if (zone && mode > 1 && mode < 8) continue;
		dnstable_entry_set_iszone(e, zone);
		const char *k1 = zone && (rrset || rdata) ? "zone_time_first" : "time_first", *k2 = zone && (rrset || rdata) ? "zone_time_last" : "time_last";
		char *out;
		if (mode == 8) out = dnstable_entry_to_text(e);
		else {
			dnstable_formatter *f = dnstable_formatter_init();
			dnstable_formatter_set_output_format(f, mode == 9 ? dnstable_output_format_text : dnstable_output_format_json);
			dnstable_formatter_set_date_format(f, rfc ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);
			dnstable_formatter_set_rdata_array(f, arr); dnstable_formatter_set_raw_rdata(f, raw);
			out = dnstable_entry_format(f, e);
			dnstable_formatter_destroy(&f);
		}
		if (!out) { bad("no output", out); return; }
		SIM.count("formats_checked");
		if (mode < 8) {
			const char *p = out; JV v;
			if (!jparse(p, v) || *p || v.k != 4) { bad("not a JSON object", out); free(out); return; }
			auto str = [&](const char *k) { const JV *x = jget(v, k); return x && x->k == 2 ? x->s : std::string("?"); };
			auto nm = [&](const char *k) { const JV *x = jget(v, k); return x && x->k == 1 ? x->s : std::string("?"); };
			if (rrset || rdata) {
				if (nm("count") != cnt) bad("count", out);
				if (jtime(jget(v, k1), rfc) != tf || jtime(jget(v, k2), rfc) != tl) bad("times", out);
				if (jget(v, zone ? "time_first" : "zone_time_first") || jget(v, zone ? "time_last" : "zone_time_last")) bad("times of the other kind", out);
				if (str("rrname") != w[1] || str("rrtype") != w[2]) bad("name or type", out);
				if (rrset && str("bailiwick") != w[3]) bad("bailiwick", out);
				const JV *r = jget(v, "rdata"), *rr = jget(v, "rdata_raw");
				std::vector<std::string> a, b;
				auto list = [&](const JV *x, std::vector<std::string> &o) {
					if (!x) return false;
					if (x->k == 2) { o.push_back(x->s); return !(rrset || arr); }
					if (x->k != 3 || !(rrset || arr)) return false;
					for (auto &y : x->a) o.push_back(y.k == 2 ? y.s : "?");
					return true;
				};
				if (!list(r, a) || a.size() != rds.size()) bad("rdata shape", out);
				else for (size_t i = 0; i < a.size(); i++) if (a[i] != dns::rdata_str(rds[i], ty)) bad("rdata", out);
				if ((rr != nullptr) != raw) bad("raw rdata presence", out);
				if (raw && (!list(rr, b) || b.size() != rds.size())) bad("raw rdata shape", out);
				// the rdata of an RRset carries its type along, as a variable-width integer
				std::string suf; if (rrset) for (unsigned t = ty;; t >>= 7) { suf += (char)(t > 127 ? (t & 127) | 128 : t); if (t < 128) break; }
				if (raw) for (size_t i = 0; i < b.size() && i < rds.size(); i++) if (b[i] != dns::hex(rds[i] + suf)) bad("raw rdata", out);
			} else if (w[0] == "TR") {
				if (jtime(jget(v, "time_first"), rfc) != tf || jtime(jget(v, "time_last"), rfc) != tl) bad("times", out);
			} else if (w[0] == "FWD" || w[0] == "REV") {
				if (str(w[0] == "FWD" ? "rrset_name" : "rdata_name") != w[1]) bad("name", out);
				const JV *r = jget(v, "rrtypes"); std::string l;
				if (!r || r->k != 3) bad("rrtypes", out);
				else { for (auto &y : r->a) l += (l.empty() ? "" : " ") + y.s; if ("[" + l + "]" != s.substr(s.rfind('['))) bad("rrtypes", out); }
			} else if (w[0] == "SRC") { if (str("source info") != s.substr(4)) bad("source info", out); }
			else if (w[0] == "VER") {
				static const char *n4[] = {"rrset", "rrset_name", "rdata", "rdata_name"};
				unsigned vt = atoi(w[1].c_str());
				std::string want = vt < 4 ? n4[vt] : vt == 253 ? "source_info" : vt == 254 ? "time_range" : vt == 255 ? "version" : "unknown-" + w[1];
				if (nm("version") != w[2] || str("entry_type") != want) bad("version", out);
			}
		} else if (rrset) {
			// one line per record, after the comment lines
			std::string o = out; size_t pos = 0; std::vector<std::string> ls;
			while (pos < o.size()) { size_t e2 = o.find('\n', pos); if (e2 == std::string::npos) e2 = o.size(); ls.push_back(o.substr(pos, e2 - pos)); pos = e2 + 1; }
			size_t c = 0; while (c < ls.size() && ls[c].compare(0, 2, ";;") == 0) c++;
			if (c != 4 || ls.size() - c != rds.size()) bad("text line count", out);
			else {
				for (size_t i = 0; i < rds.size(); i++) if (ls[c + i] != w[1] + " IN " + w[2] + " " + dns::rdata_str(rds[i], ty)) bad("text record", out);
				auto after = [&](const std::string &l) { size_t x = l.find(": "); return x == std::string::npos ? std::string() : l.substr(x + 2); };
				std::string n = after(ls[1]); n.erase(std::remove(n.begin(), n.end(), ','), n.end());
				if (after(ls[0]) != w[3] || n != cnt) bad("text header", out);
				if ((ls[2].find("in zone file: ") != std::string::npos) != (zone == 1) || (ls[3].find("in zone file: ") != std::string::npos) != (zone == 1)) bad("origin of the times", out);
				JV a, b; a.k = b.k = 2; a.s = after(ls[2]); b.s = after(ls[3]);
				auto norm = [&](JV &x) { if (x.s.size() == 25 && x.s.substr(19) == " -0000") { x.s = x.s.substr(0, 10) + "T" + x.s.substr(11, 8) + "Z"; } };
				norm(a); norm(b);
				if (num(tf) <= 253402300799ULL && jtime(&a, true) != tf) bad("text first seen", out);
				if (num(tl) <= 253402300799ULL && jtime(&b, true) != tl) bad("text last seen", out);
			}
		} else if (rdata) {
			if (std::string(out) != w[1] + " IN " + w[2] + " " + dns::rdata_str(rds[0], ty) + "\n") bad("text record", out);
		} else {
			std::string o = out;
			auto in = [&](const std::string &x) { return !x.empty() && o.find(x) != std::string::npos; };
			if (o.empty() || o.back() != '\n') bad("text line", out);
			if (w[0] == "SRC" && !in(s.substr(4) + "\n")) bad("text source info", out);
			if (w[0] == "VER") {
				static const char *n4[] = {"rrset", "rrset_name", "rdata", "rdata_name"};
				unsigned vt = atoi(w[1].c_str());
				std::string want = vt < 4 ? n4[vt] : vt == 253 ? "source_info" : vt == 254 ? "time_range" : vt == 255 ? "version" : w[1];
				if (!in(" " + want + ": " + w[2] + "\n")) bad("text version", out);
			}
			if ((w[0] == "FWD" || w[0] == "REV") && (o.compare(0, w[1].size() + 1, w[1] + " ") || !in(s.substr(s.rfind('[')) + " "))) bad("text index", out);
			if (w[0] == "TR") for (auto &x : {std::make_pair(std::string("first: "), tf), std::make_pair(std::string("last: "), tl)}) {
				size_t at = o.find(x.first);
				if (at == std::string::npos) { bad("text time range", out); break; }
				if (num(x.second) > 253402300799ULL) continue;
				JV d; d.k = 2; at += x.first.size(); d.s = o.substr(at, o.find('\n', at) - at);
				if (d.s.size() == 25 && d.s.substr(19) == " -0000") d.s = d.s.substr(0, 10) + "T" + d.s.substr(11, 8) + "Z";
				if (jtime(&d, true) != x.second) bad("text time range", out);
			}
		}
		free(out);
	}
	dnstable_entry_set_iszone(e, false);
}

RunResult run_plan(const std::string &profile, const Plan &plan)
{
	store_reset(); heap_reset();
	SIM.begin(1000000000000ULL);
	World w;
	w.profile = profile; w.ck = checks_for(profile);
	for (auto &l : plan) {
		if (SIM.violated) break;
		w.op(l);
	}
	w.shutdown();
	RunResult r;
	SIM.log("end now=%llu steps=%llu", (unsigned long long)SIM.now_ns, (unsigned long long)store_steps);
	r.hash = SIM.hash; r.nontrivial = w.nontrivial; r.sim_ns = SIM.now_ns - SIM.start_ns;
	SIM.count("storage_steps", store_steps);
	return r;
}
