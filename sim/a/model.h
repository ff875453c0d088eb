// Executable reference model of a dnstable data set and of query answers.
#pragma once
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "mtbl_sim.h"

struct Trip { uint64_t tf = 0, tl = 0, cnt = 0; };
struct RrKey {		// one RRset
	std::string name; uint16_t type; std::string bail; std::vector<std::string> rd;
	bool operator<(const RrKey &o) const { return std::tie(name, type, bail, rd) < std::tie(o.name, o.type, o.bail, o.rd); }
};
struct RdKey {		// one record
	std::string rd; uint16_t type; std::string name;
	bool operator<(const RdKey &o) const { return std::tie(rd, type, name) < std::tie(o.rd, o.type, o.name); }
};
struct Union { bool any = false; std::set<uint16_t> t; };

struct FileModel {
	std::map<RrKey, Trip> rr;
	std::map<RdKey, Trip> rd;
	std::map<std::string, Union> fwd, rev;
	bool tr_present = false, tr_empty = false;
	uint64_t tr_min = 0, tr_max = 0;
	std::map<uint8_t, std::optional<uint32_t>> ver;
	std::set<std::string> src;
	std::map<std::string, std::string> raw;		// foreign or malformed entries
	std::set<std::string> bad_union;		// index keys whose value is damaged
	std::map<std::string, std::string> badval;	// keys of rows whose value is damaged (the rows are in no map)
	bool tr_bad = false; std::set<uint8_t> ver_bad;	// damaged time range, damaged versions
	bool legacy = false;

	void observe(const RrKey &k, const Trip &t);
};
FileModel merge_models(const std::vector<const FileModel *> &);
TableP encode(const FileModel &);
std::string key_rrset(const RrKey &), key_rdata(const RdKey &), key_sliced(const RdKey &);	// key_sliced: "" if none
unsigned slice_off(uint16_t type);
bool rdname_type(uint16_t type);		// searchable by rdata name
bool rev_type(uint16_t type);			// indexed for left wildcards
std::string union_str(const Union &);

enum QType { Q_RRSET = 0, Q_NAME = 1, Q_IP = 2, Q_RAW = 3, Q_TR = 254, Q_VER = 255 };
struct QParams {
	int type = Q_RRSET;
	std::string data;		// as given to dnstable_query_set_data
	bool has_data = false;
	std::string rrtype, bail;	// text, empty if unset
	bool cs = false, agg = true;
	std::optional<uint64_t> tfb, tfa, tlb, tla;
	uint64_t off = 0;
	bool fences() const { return tfb || tfa || tlb || tla; }
};
bool fence_ok(const QParams &q, const Trip &t);
std::string row_rrset(const RrKey &, const Trip &), row_rdata(const RdKey &, const Trip &);
// all rows the query must return from a set of loaded files, as canonical strings (multiset)
std::vector<std::string> answer(const QParams &q, const std::vector<const FileModel *> &files);
// every entry of a full scan over the merged files; filter by entry type unless -1
std::vector<std::string> scan_rows(const FileModel &m, int type);
bool ip_range(const std::string &text, std::string &lo, std::string &hi);
bool plus_query(const QParams &q);	// asks for exactly one more label
bool type_any(const std::string &rrtype);
