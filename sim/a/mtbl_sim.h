#pragma once
#include "../simcore.h"
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <mtbl.h>

typedef std::pair<std::string, std::string> KV;
struct Table { std::vector<KV> kv; };		// sorted by key, keys unique
typedef std::shared_ptr<const Table> TableP;

// the simulated disk
struct Disk {
	std::map<std::string, TableP> files;			// complete data files
	std::map<std::string, bool> torn;			// present but unreadable (crashed writer)
	std::map<std::string, std::vector<std::string>> setfiles;	// path -> names
};
extern Disk DISK;

struct StoreCfg {
	unsigned null_iters = 0;	// a lookup that finds nothing (1: and nothing after it) returns no iterator
	bool defer_reload = false;	// reloads wait until no iterator is open
	uint64_t lat_ns = 1000;		// cost of one storage step
	uint64_t lat_salt = 0;		// picks which steps stall
	unsigned stall_every = 0;	// about one step in this many stalls
	uint64_t stall_ns = 0;
	uint64_t step_cap = 2000000;	// storage steps in one run: more is a hang
};
extern StoreCfg STORE;
extern uint64_t store_deadline, store_late;
extern uint64_t store_steps;		// leaf storage steps so far
extern uint64_t store_open_iters, store_open_sources, store_open_filesets, store_open_mergers, store_open_readers, store_open_options;
void store_reset();
// Files currently loaded by the handle for this setfile path (newest reload), in setfile order.
std::vector<std::string> store_loaded(const std::string &setfile);
uint64_t store_merge_calls();
uint64_t store_fileset_merges();
uint64_t store_seeks(bool ok), store_rows();
extern uint64_t merge_func_calls;	// of dnstable's merge function, by anybody
