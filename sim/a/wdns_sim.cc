// Simulated libwdns (strict, bounds-checked).
#include "dns.h"
#include "../simcore.h"
#include <wdns.h>
#include <arpa/inet.h>

namespace dns {
static bool take_name(const std::string &d, size_t &i, std::string &s)
{
	size_t b = i;
	for (;;) {
		if (i >= d.size()) return false;
		unsigned l = (uint8_t)d[i++];
		if (l == 0) break;
		if (l > 63 || i + l > d.size()) return false;
		i += l;
	}
	s = to_str(d.substr(b, i - b));
	return true;
}
static std::string generic(const std::string &rd)
{
	return "\\# " + std::to_string(rd.size()) + (rd.empty() ? "" : " ") + hex(rd);
}
static unsigned u16(const std::string &d, size_t i) { return (uint8_t)d[i] << 8 | (uint8_t)d[i + 1]; }
static unsigned long u32(const std::string &d, size_t i) { return (unsigned long)u16(d, i) << 16 | u16(d, i + 2); }
std::string rdata_str(const std::string &rd, uint16_t t)
{
	char b[80];
	std::string n, m;
	size_t i = 0;
	switch (t) {
	case 1:
		if (rd.size() != 4) break;
		inet_ntop(AF_INET, rd.data(), b, sizeof b);
		return b;
	case 28:
		if (rd.size() != 16) break;
		inet_ntop(AF_INET6, rd.data(), b, sizeof b);
		return b;
	case 2: case 5: case 12: case 39:
		if (take_name(rd, i, n) && i == rd.size()) return n;
		break;
	case 15:
		if (rd.size() < 3) break;
		i = 2;
		if (take_name(rd, i, n) && i == rd.size()) return std::to_string(u16(rd, 0)) + " " + n;
		break;
	case 33:
		if (rd.size() < 7) break;
		i = 6;
		if (take_name(rd, i, n) && i == rd.size())
			return std::to_string(u16(rd, 0)) + " " + std::to_string(u16(rd, 2)) + " " + std::to_string(u16(rd, 4)) + " " + n;
		break;
	case 6:
		if (take_name(rd, i, n) && take_name(rd, i, m) && i + 20 == rd.size()) {
			std::string s = n + " " + m;
			for (int k = 0; k < 5; k++) s += " " + std::to_string(u32(rd, i + 4 * k));
			return s;
		}
		break;
	case 16: case 99: {
		std::string s;
		while (i < rd.size()) {
			unsigned l = (uint8_t)rd[i++];
			if (i + l > rd.size()) return generic(rd);
			if (!s.empty()) s += " ";
			s += "\"";
			for (unsigned j = 0; j < l; j++, i++) {
				uint8_t c = rd[i];
				if (c == '"' || c == '\\') { s += '\\'; s += (char)c; }
				else if (c >= 32 && c < 127) s += (char)c;
				else { snprintf(b, sizeof b, "\\%03u", c); s += b; }
			}
			s += "\"";
		}
		if (!s.empty()) return s;
		break;
	}
	}
	return generic(rd);
}
}

extern "C" {
const char *wdns_rrtype_to_str(uint16_t t) { return dns::type_name(t); }
uint16_t wdns_str_to_rrtype(const char *s) { uint16_t t; return dns::str_type(s, t) ? t : 0; }
size_t wdns_domain_to_str(const uint8_t *src, size_t len, char *dst)
{
	std::string s = dns::to_str(std::string((const char *)src, len));
	if (s.size() > WDNS_PRESLEN_NAME - 1) s.resize(WDNS_PRESLEN_NAME - 1);
	memcpy(dst, s.c_str(), s.size() + 1);
	return s.size();
}
char *wdns_rdata_to_str(const uint8_t *rd, uint16_t len, uint16_t t, uint16_t)
{
	return strdup(dns::rdata_str(std::string((const char *)rd, len), t).c_str());
}
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n)
{
	std::string w;
	if (!dns::from_str(s, w)) return wdns_res_parse_error;
	n->len = (uint8_t)w.size();
	n->data = (uint8_t *)malloc(w.size());
	memcpy(n->data, w.data(), w.size());
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *n)
{
	for (unsigned i = 0; i < n->len; i++)
		if (n->data[i] >= 'A' && n->data[i] <= 'Z') n->data[i] += 32;
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *n)
{
	wdns_res r = wdns_str_to_name_case(s, n);
	if (r == wdns_res_success) wdns_downcase_name(n);
	return r;
}
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
{
	const uint8_t *b = p;
	for (;;) {
		if (p >= eop) return wdns_res_out_of_bounds;
		unsigned l = *p++;
		if (l == 0) break;
		if (l > 63) return wdns_res_invalid_length_octet;
		if (l > (size_t)(eop - p)) return wdns_res_out_of_bounds;
		p += l;
		if (p - b >= WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
	}
	*sz = p - b;
	return wdns_res_success;
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t len, uint8_t *rev)
{
	if (name == nullptr || len == 0) return wdns_res_parse_error;
	std::string w((const char *)name, len);
	std::vector<std::string> ls;
	if (!dns::labels(w, ls)) return wdns_res_parse_error;
	std::string r = dns::reverse(w);
	memcpy(rev, r.data(), r.size());
	return wdns_res_success;
}
}
