#include "model.h"
#include "dns.h"
#include <algorithm>
#include <arpa/inet.h>

static std::string varint(uint64_t v) { std::string s; while (v >= 128) { s += (char)(v | 0x80); v >>= 7; } s += (char)v; return s; }
static std::string le16(unsigned v) { std::string s; s += (char)(v & 255); s += (char)(v >> 8); return s; }

unsigned slice_off(uint16_t t) { return t == 15 || t == 64 || t == 65 ? 2 : t == 33 ? 6 : 0; }
bool rev_type(uint16_t t) { return t == 6 || t == 2 || t == 5 || t == 39 || t == 12 || t == 15 || t == 33 || t == 64 || t == 65; }
bool rdname_type(uint16_t t) { return rev_type(t) || t == 47 || t == 17 || t == 30; }

// the first domain name of the searchable part of the record data; false if there is none
static bool rdata_name(const std::string &rd, uint16_t t, std::string &n)
{
	size_t i = slice_off(t), b = i;
	for (;;) {
		if (i >= rd.size()) return false;
		unsigned l = (uint8_t)rd[i++];
		if (l == 0) break;
		if (l > 63 || i + l > rd.size()) return false;
		i += l;
	}
	n = rd.substr(b, i - b);
	return n.size() <= 255;
}

std::string key_rrset(const RrKey &k)
{
	std::string s("\0", 1);
	s += dns::reverse(k.name) + varint(k.type) + dns::reverse(k.bail);
	for (auto &r : k.rd) s += varint(r.size()) + r;
	return s;
}
std::string key_rdata(const RdKey &k) { return "\x02" + k.rd + varint(k.type) + dns::reverse(k.name) + le16(k.rd.size()); }
std::string key_sliced(const RdKey &k)
{
	unsigned o = slice_off(k.type);
	if (!o || k.rd.size() <= o) return "";
	return "\x02" + k.rd.substr(o) + varint(k.type) + dns::reverse(k.name) + k.rd.substr(0, o) + le16(k.rd.size() - o);
}

static void add(Trip &a, const Trip &b, bool fresh)
{
	if (fresh) { a = b; return; }
	a.tf = std::min(a.tf, b.tf); a.tl = std::max(a.tl, b.tl); a.cnt += b.cnt;
}
void FileModel::observe(const RrKey &k, const Trip &t)
{
	bool fresh = !rr.count(k);
	add(rr[k], t, fresh);
	fwd[k.name].t.insert(k.type);
	if (legacy) fwd[k.name].any = true;
	std::set<std::string> seen;
	for (auto &r : k.rd) {
		if (!seen.insert(r).second) continue;
		RdKey d{r, k.type, k.name};
		fresh = !rd.count(d);
		add(rd[d], t, fresh);
		std::string n;
		if (rev_type(k.type) && rdata_name(r, k.type, n)) {
			rev[n].t.insert(k.type);
			if (legacy) rev[n].any = true;
		}
	}
	if (!tr_present) { tr_present = true; tr_min = t.tf; tr_max = t.tl; }
	tr_min = std::min(tr_min, t.tf); tr_max = std::max(tr_max, t.tl);
	if (legacy) tr_empty = true;
}

std::string union_str(const Union &u)
{
	if (u.any || u.t.empty()) return "";
	if (u.t.size() == 1) {
		uint16_t t = *u.t.begin();
		return t < 256 ? std::string(1, (char)t) : le16(t);
	}
	std::string s;
	for (int w = 0; w < 256; w++) {
		uint8_t bm[32] = {0}; int len = 0;
		for (auto t : u.t) if (t / 256 == w) { bm[(t & 255) / 8] |= 0x80 >> (t & 7); len = (t & 255) / 8 + 1; }
		if (len) { s += (char)w; s += (char)len; s.append((char *)bm, len); }
	}
	return s;
}
// the union as file f holds it under index key k
static std::string stored_union(const FileModel &f, const std::string &k, const Union &u)
{
	std::string s = union_str(u);
	if (!f.bad_union.count(k)) return s;
	/* a stray byte after the last window, or a window longer than 32 bytes */
	return s + (s.size() >= 3 && k.size() % 2 ? std::string("\x07", 1) : std::string("\xff\xff\x01", 3));
}
static std::string fwd_key(const std::string &n) { return "\x01" + n; }
static std::string rev_key(const std::string &n) { return "\x03" + dns::reverse(n); }

FileModel merge_models(const std::vector<const FileModel *> &fs)
{
	FileModel m;
	for (auto f : fs) {
		for (auto &x : f->rr) { bool fresh = !m.rr.count(x.first); add(m.rr[x.first], x.second, fresh); }
		for (auto &x : f->rd) { bool fresh = !m.rd.count(x.first); add(m.rd[x.first], x.second, fresh); }
		for (auto &x : f->fwd) { auto &u = m.fwd[x.first]; u.any |= x.second.any; u.t.insert(x.second.t.begin(), x.second.t.end()); }
		for (auto &x : f->rev) { auto &u = m.rev[x.first]; u.any |= x.second.any; u.t.insert(x.second.t.begin(), x.second.t.end()); }
		if (f->tr_present) {
			if (!m.tr_present) { m.tr_present = true; m.tr_min = f->tr_min; m.tr_max = f->tr_max; m.tr_bad = f->tr_bad; }
			else if (m.tr_bad || f->tr_bad) { m.tr_bad = false; m.tr_empty = true; }	// unknown
			m.tr_min = std::min(m.tr_min, f->tr_min); m.tr_max = std::max(m.tr_max, f->tr_max);
			m.tr_empty |= f->tr_empty;
		}
		for (auto &v : f->ver) {
			auto it = m.ver.find(v.first);
			bool bad = f->ver_bad.count(v.first);
			if (it == m.ver.end()) { m.ver[v.first] = v.second; if (bad) m.ver_bad.insert(v.first); continue; }
			bad |= m.ver_bad.erase(v.first) > 0;
			if (bad || !it->second || !v.second || v.first > 3) it->second = std::nullopt;
			else it->second = std::min(*it->second, *v.second);
		}
		m.src.insert(f->src.begin(), f->src.end());
		for (auto &r : f->raw) m.raw[r.first] = r.second;
		for (auto &b : f->badval) m.badval.insert(b);
	}
	for (auto &x : m.rr) m.badval.erase(key_rrset(x.first));
	for (auto &x : m.rd) { m.badval.erase(key_rdata(x.first)); m.badval.erase(key_sliced(x.first)); }
	// a damaged union merged with a different value says nothing: the name may have any type
	auto unions = [&](auto &mine, auto theirs, auto key) {
		for (auto &x : mine) {
			std::string k = key(x.first); std::set<std::string> vals; bool bad = false;
			for (auto f : fs) {
				auto &t = theirs(f); auto it = t.find(x.first);
				if (it == t.end()) continue;
				bad |= f->bad_union.count(k) > 0;
				vals.insert(stored_union(*f, k, it->second));
			}
			if (!bad) continue;
			if (vals.size() == 1) m.bad_union.insert(k); else x.second.any = true;
		}
	};
	unions(m.fwd, [](const FileModel *f) -> auto & { return f->fwd; }, fwd_key);
	unions(m.rev, [](const FileModel *f) -> auto & { return f->rev; }, rev_key);
	return m;
}

TableP encode(const FileModel &f)
{
	auto trip = [](const Trip &t) { return varint(t.tf) + varint(t.tl) + varint(t.cnt); };
	std::map<std::string, std::string> kv;
	auto lt = [](const KV &a, const KV &b) {
		size_t l = std::min(a.first.size(), b.first.size());
		int r = memcmp(a.first.data(), b.first.data(), l);
		return r ? r < 0 : a.first.size() < b.first.size();
	};
	for (auto &x : f.rr) kv[key_rrset(x.first)] = trip(x.second);
	for (auto &x : f.rd) {
		kv[key_rdata(x.first)] = trip(x.second);
		std::string s = key_sliced(x.first);
		if (!s.empty()) kv[s] = trip(x.second);
	}
	for (auto &x : f.badval) kv[x.first] = x.second;
	for (auto &x : f.fwd) { std::string k = fwd_key(x.first); kv[k] = stored_union(f, k, x.second); }
	for (auto &x : f.rev) { std::string k = rev_key(x.first); kv[k] = stored_union(f, k, x.second); }
	if (f.tr_present) kv["\xfe"] = f.tr_bad ? varint(f.tr_min) + "\x80" : f.tr_empty ? "" : varint(f.tr_min) + varint(f.tr_max);
	for (auto &v : f.ver) kv[std::string("\xff") + (char)v.first] = f.ver_bad.count(v.first) ? std::string(v.second.value_or(0) % 2 ? "\x85" : "\x05\x05") : v.second ? varint(*v.second) : "";
	for (auto &s : f.src) kv["\xfd" + s] = "";
	for (auto &r : f.raw) kv.insert(r);
	auto t = std::make_shared<Table>();
	for (auto &x : kv) t->kv.push_back(x);
	std::sort(t->kv.begin(), t->kv.end(), lt);
	return t;
}

bool type_any(const std::string &s) { return s.empty() || !strcasecmp(s.c_str(), "ANY") || !strcasecmp(s.c_str(), "TYPE255") || !strcasecmp(s.c_str(), "ANY-DNSSEC"); }
bool fence_ok(const QParams &q, const Trip &t)
{
	if (q.tfb && t.tf > *q.tfb) return false;
	if (q.tfa && t.tf < *q.tfa) return false;
	if (q.tlb && t.tl > *q.tlb) return false;
	if (q.tla && t.tl < *q.tla) return false;
	return true;
}
static std::string tstr(Trip t)
{
	if (t.cnt == 0) t.cnt = 1;
	if (t.tl == 0) t.tl = t.tf;
	return " tf=" + std::to_string(t.tf) + " tl=" + std::to_string(t.tl) + " n=" + std::to_string(t.cnt);
}
std::string row_rrset(const RrKey &k, const Trip &t)
{
	std::string s = "RRSET " + dns::to_str(k.name) + " " + dns::type_str(k.type) + " " + dns::to_str(k.bail);
	for (auto &r : k.rd) s += " " + (r.empty() ? std::string("-") : dns::hex(r));
	return s + tstr(t);
}
std::string row_rdata(const RdKey &k, const Trip &t)
{
	return "RDATA " + dns::to_str(k.name) + " " + dns::type_str(k.type) + " " + (k.rd.empty() ? std::string("-") : dns::hex(k.rd)) + tstr(t);
}

static bool addr(const std::string &s, std::string &out)
{
	uint8_t b[16];
	if (inet_pton(AF_INET, s.c_str(), b) == 1) { out.assign((char *)b, 4); return true; }
	if (inet_pton(AF_INET6, s.c_str(), b) == 1) { out.assign((char *)b, 16); return true; }
	return false;
}
bool ip_range(const std::string &s, std::string &lo, std::string &hi)
{
	size_t p;
	if ((p = s.find('-')) != std::string::npos)
		return addr(s.substr(0, p), lo) && addr(s.substr(p + 1), hi) && lo.size() == hi.size();
	if ((p = s.find('/')) != std::string::npos) {
		if (!addr(s.substr(0, p), lo)) return false;
		hi = lo;
		unsigned pl = atoi(s.c_str() + p + 1);
		for (unsigned b = pl; b < lo.size() * 8; b++) { lo[b / 8] &= ~(0x80 >> b % 8); hi[b / 8] |= 0x80 >> b % 8; }
		return true;
	}
	if (!addr(s, lo)) return false;
	hi = lo;
	return true;
}

// how a row's labels may relate to the queried labels
struct NamePat {
	enum { EXACT, LEFT, RIGHT } k; bool plus; std::vector<std::string> l;
	bool match(const std::string &w) const {
		std::vector<std::string> r;
		if (!dns::labels(w, r)) return false;
		if (k == EXACT) return r == l;
		if (r.size() < l.size()) return false;
		if (plus && r.size() != l.size() + 1) return false;
		return k == LEFT ? std::equal(l.begin(), l.end(), r.end() - l.size()) : std::equal(l.begin(), l.end(), r.begin());
	}
};
static bool pattern(const QParams &q, bool left_first, NamePat &p)
{
	std::string w;
	if (!dns::from_str(q.data, w)) return false;
	if (!q.cs) w = dns::down(w);
	std::vector<std::string> l;
	if (!dns::labels(w, l)) return false;
	auto wild = [&](const std::string &s) { return s == "*" || s == "+"; };
	bool L = !l.empty() && wild(l.front()), R = !l.empty() && wild(l.back());
	if (L && R && !left_first) L = false;
	if (L) p = {NamePat::LEFT, l.front() == "+", std::vector<std::string>(l.begin() + 1, l.end())};
	else if (R) p = {NamePat::RIGHT, l.back() == "+", std::vector<std::string>(l.begin(), l.end() - 1)};
	else p = {NamePat::EXACT, false, l};
	return true;
}

bool plus_query(const QParams &q)
{
	NamePat p;
	return (q.type == Q_RRSET || q.type == Q_NAME) && pattern(q, q.type == Q_RRSET, p) && p.k != NamePat::EXACT && p.plus;
}

std::vector<std::string> answer(const QParams &q, const std::vector<const FileModel *> &files)
{
	std::vector<std::string> out;
	std::vector<FileModel> parts;
	if (q.agg) parts.push_back(merge_models(files));
	else for (auto f : files) parts.push_back(*f);
	uint16_t want = 0;
	bool do_type = !type_any(q.rrtype) && dns::str_type(q.rrtype.c_str(), want);
	std::string bail, lo, hi, raw;
	NamePat pat;
	if (!q.bail.empty()) { dns::from_str(q.bail, bail); bail = dns::down(bail); }
	if (q.type == Q_RRSET && !pattern(q, true, pat)) return out;
	if (q.type == Q_NAME && !pattern(q, false, pat)) return out;
	if (q.type == Q_IP && !ip_range(q.data, lo, hi)) return out;
	if (q.type == Q_RAW && !dns::unhex(q.data, raw)) return out;
	for (auto &m : parts) {
		if (q.type == Q_RRSET) {
			for (auto &x : m.rr) {
				if (do_type && x.first.type != want) continue;
				if (!bail.empty() && x.first.bail != bail) continue;
				if (!pat.match(x.first.name) || !fence_ok(q, x.second)) continue;
				out.push_back(row_rrset(x.first, x.second));
			}
		} else if (q.type == Q_NAME || q.type == Q_IP || q.type == Q_RAW) {
			for (auto &x : m.rd) {
				unsigned n = 0;
				const RdKey &k = x.first;
				if (q.type == Q_IP) {
					if (k.type != (lo.size() == 4 ? 1 : 28) || k.rd.size() != lo.size()) continue;
					if (memcmp(k.rd.data(), lo.data(), lo.size()) < 0 || memcmp(k.rd.data(), hi.data(), hi.size()) > 0) continue;
					n = 1;
				} else {
					if (do_type && k.type != want) continue;
					if (q.type == Q_NAME) {
						std::string nm;
						if (!rdname_type(k.type) || !rdata_name(k.rd, k.type, nm) || !pat.match(nm)) continue;
						n = 1;
					} else {
						n = key_rdata(k).compare(0, raw.size() + 1, "\x02" + raw) == 0;
						std::string s = key_sliced(k);
						if (!s.empty()) n += s.compare(0, raw.size() + 1, "\x02" + raw) == 0;
					}
				}
				if (!n || !fence_ok(q, x.second)) continue;
				while (n--) out.push_back(row_rdata(k, x.second));
			}
		} else if (q.type == Q_TR) {
			if (m.tr_present && !m.tr_empty && !m.tr_bad) out.push_back("TR tf=" + std::to_string(m.tr_min) + " tl=" + std::to_string(m.tr_max));
		} else if (q.type == Q_VER) {
			for (auto &v : m.ver) {
				static const char *nm[] = {"rrset", "rrset_name", "rdata", "rdata_name"};
				if (q.has_data && (v.first > 3 || q.data != nm[v.first])) continue;
				if (v.second && !m.ver_bad.count(v.first)) out.push_back("VER " + std::to_string(v.first) + " " + std::to_string(*v.second));
			}
		}
	}
	return out;
}

static std::string ustr(const Union &u, const std::string &sep)
{
	std::string s;
	if (u.any) return s;
	for (auto t : u.t) s += (s.empty() ? "" : sep) + dns::type_str(t);
	return s;
}
std::vector<std::string> scan_rows(const FileModel &m, int type)
{
	std::vector<std::string> out;
	if (type == -1 || type == 0) for (auto &x : m.rr) out.push_back(row_rrset(x.first, x.second));
	if (type == -1 || type == 2) for (auto &x : m.rd) {
		out.push_back(row_rdata(x.first, x.second));
		if (!key_sliced(x.first).empty()) out.push_back(row_rdata(x.first, x.second));
	}
	if (type == -1 || type == 1) for (auto &x : m.fwd) out.push_back("FWD " + dns::to_str(x.first) + " [" + (m.bad_union.count("\x01" + x.first) ? "<failure>" : ustr(x.second, " ")) + "]");
	if (type == -1 || type == 3) for (auto &x : m.rev) out.push_back("REV " + dns::to_str(x.first) + " [" + (m.bad_union.count("\x03" + dns::reverse(x.first)) ? "<failure>" : ustr(x.second, " ")) + "]");
	if ((type == -1 || type == 254) && m.tr_present && !m.tr_empty && !m.tr_bad) out.push_back("TR tf=" + std::to_string(m.tr_min) + " tl=" + std::to_string(m.tr_max));
	if (type == -1 || type == 253) for (auto &s : m.src) out.push_back("SRC " + s);
	if (type == -1 || type == 255) for (auto &v : m.ver) if (v.second && !m.ver_bad.count(v.first)) out.push_back("VER " + std::to_string(v.first) + " " + std::to_string(*v.second));
	return out;
}
