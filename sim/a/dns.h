// DNS name and rrtype helpers shared by the stub libwdns and the model.
#pragma once
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <string>
#include <vector>
namespace dns {
struct TypeName { const char *n; uint16_t t; };
static const TypeName TYPES[] = {
	{"A", 1}, {"NS", 2}, {"CNAME", 5}, {"SOA", 6}, {"NULL", 10}, {"PTR", 12}, {"HINFO", 13}, {"MX", 15},
	{"TXT", 16}, {"RP", 17}, {"AAAA", 28}, {"NXT", 30}, {"SRV", 33}, {"NAPTR", 35}, {"DNAME", 39},
	{"DS", 43}, {"RRSIG", 46}, {"NSEC", 47}, {"DNSKEY", 48}, {"NSEC3", 50}, {"TLSA", 52}, {"SVCB", 64},
	{"HTTPS", 65}, {"SPF", 99}, {"ANY", 255}, {"CAA", 257}, {"DLV", 32769},
};
inline const char *type_name(uint16_t t) { for (auto &x : TYPES) if (x.t == t) return x.n; return nullptr; }
inline std::string type_str(uint16_t t) { const char *n = type_name(t); return n ? n : "TYPE" + std::to_string(t); }
inline bool str_type(const char *s, uint16_t &t)
{
	for (auto &x : TYPES) if (!strcasecmp(x.n, s)) { t = x.t; return true; }
	if (!strncasecmp(s, "TYPE", 4) && isdigit((unsigned char)s[4])) {
		char *e; unsigned long v = strtoul(s + 4, &e, 10);
		if (*e == 0 && v <= 65535) { t = (uint16_t)v; return true; }
	}
	return false;
}
inline bool labels(const std::string &w, std::vector<std::string> &out)	// well-formed wire name -> labels
{
	size_t i = 0;
	out.clear();
	for (;;) {
		if (i >= w.size()) return false;
		unsigned l = (uint8_t)w[i++];
		if (l == 0) return i == w.size() && w.size() <= 255;
		if (l > 63 || i + l > w.size()) return false;
		out.push_back(w.substr(i, l));
		i += l;
	}
}
inline std::string wire(const std::vector<std::string> &ls)
{
	std::string w;
	for (auto &l : ls) { w += (char)l.size(); w += l; }
	w += '\0';
	return w;
}
inline std::string reverse(const std::string &w)
{
	std::vector<std::string> ls;
	if (!labels(w, ls)) return w;
	return wire(std::vector<std::string>(ls.rbegin(), ls.rend()));
}
inline std::string down(std::string w) { for (auto &c : w) if (c >= 'A' && c <= 'Z') c += 32; return w; }
inline std::string to_str(const std::string &w)		// presentation, tolerant of garbage
{
	std::string s;
	size_t i = 0;
	if (w.size() <= 1) return ".";
	while (i < w.size()) {
		unsigned l = (uint8_t)w[i++];
		if (l == 0) break;
		for (unsigned j = 0; j < l && i < w.size(); j++, i++) {
			uint8_t c = w[i];
			if (c == '.' || c == '\\' || c == '"' || c == '(' || c == ')' || c == ';' || c == '@' || c == '$') { s += '\\'; s += (char)c; }
			else if (c > 32 && c < 127) s += (char)c;
			else { char b[8]; snprintf(b, sizeof b, "\\%03u", c); s += b; }
		}
		s += '.';
	}
	if (s.empty()) s = ".";
	return s;
}
inline bool from_str(const std::string &s, std::string &w)
{
	std::vector<std::string> ls;
	std::string cur;
	bool any = false;
	if (s.empty()) return false;
	if (s == ".") { w = std::string(1, '\0'); return true; }
	for (size_t i = 0; i < s.size(); i++) {
		char c = s[i];
		if (c == '\\') {
			if (i + 1 >= s.size()) return false;
			if (isdigit((unsigned char)s[i + 1])) {
				if (i + 3 >= s.size() || !isdigit((unsigned char)s[i + 2]) || !isdigit((unsigned char)s[i + 3])) return false;
				int v = (s[i + 1] - '0') * 100 + (s[i + 2] - '0') * 10 + (s[i + 3] - '0');
				if (v > 255) return false;
				cur += (char)v; i += 3;
			} else { cur += s[i + 1]; i++; }
			any = true;
		} else if (c == '.') {
			if (!any) return false;
			ls.push_back(cur); cur.clear(); any = false;
		} else { cur += c; any = true; }
	}
	if (any) ls.push_back(cur);
	for (auto &l : ls) if (l.empty() || l.size() > 63) return false;
	w = wire(ls);
	return w.size() <= 255;
}
inline std::string hex(const std::string &s)
{
	std::string r; char b[4];
	for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
	return r;
}
inline bool unhex(const std::string &h, std::string &out)
{
	out.clear();
	if (h.size() % 2) return false;
	for (size_t i = 0; i < h.size(); i += 2) {
		int v = 0;
		for (int j = 0; j < 2; j++) {
			char c = h[i + j];
			int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
			if (d < 0) return false;
			v = v * 16 + d;
		}
		out += (char)v;
	}
	return true;
}
// record data in presentation form; both the stub and the oracle print through this
std::string rdata_str(const std::string &rd, uint16_t t);
}
