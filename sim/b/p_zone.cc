// zonefile (real libldns): every record once and in order, whatever the reads
// deliver; truncated, empty and failing files end.
#include "harness.h"
#include <algorithm>
extern "C" {
#include <ldns/ldns.h>
#include "libmy/zonefile.h"
}
namespace {
// plan: "rr - owner=.. type=.. rd=.." with "_" for space; "junk" and "dir" lines between
std::string sp(std::string s) { for (auto &c : s) if (c == '_') c = ' '; return s; }
std::string canon(const std::string &text)
{
	ldns_rr *rr = nullptr;
	if (ldns_rr_new_frm_str(&rr, text.c_str(), 0, nullptr, nullptr) != LDNS_STATUS_OK) return "";
	char *s = ldns_rr2str(rr); std::string r = s; free(s); ldns_rr_free(rr);
	return r;
}
std::string of(ldns_rr *rr) { char *s = ldns_rr2str(rr); std::string r = s ? s : "?"; free(s); return r; }
Plan gen(Rng &r)
{
	Plan p; static const unsigned chunks[] = {1, 7, 100, 4096};
	static const char *zones[] = {"example.com.", "com.", "z.", "a.b.c.", "xn--p1ai."};
	std::string z = zones[r.below(5)];
	unsigned gz = r.chance(1, 4);
	p.push_back(fmt("cfg - chunk=%u zone=%s gz=%u serial=%u head=%d name=%u", chunks[r.below(4)], z.c_str(), gz, (unsigned)r.below(4294967295u), !r.chance(1, 4), (unsigned)(r.chance(1, 3) ? r.below(96) : 0)));
	auto filler = [&] {
		switch (r.below(8)) {
		case 0: p.push_back("text - s=;_a_comment"); break;
		case 1: p.push_back("text - s="); break;
		case 2: p.push_back("ttl - v=" + std::to_string(r.range(1, 90000))); break;
		case 3: p.push_back("origin - v=" + std::string(r.chance(1, 2) ? "sub." : "") + z); break;
		case 4: p.push_back("text - s=_____"); break;
		}
	};
	unsigned pre = r.below(3); while (pre--) filler();
	bool nosoa = r.chance(1, 12);
	if (!nosoa) p.push_back(fmt("soa - multi=%d", (int)r.chance(1, 2)));
	bool many = r.chance(1, 150); unsigned n = many ? r.range(100, 700) : r.chance(1, 10) ? 0 : r.range(1, 12);
	for (unsigned i = 0; i < n; i++) {
		if (r.chance(1, 2)) filler();
		static const char *ty[] = {"A", "AAAA", "NS", "MX", "TXT", "CNAME"}; unsigned t = r.below(6);
		static const char *ow[] = {"www", "a", "@", "*", "b.c", "-", "FULL", "x-1"};
		std::string rd = t == 0 ? fmt("192.0.2.%u", (unsigned)r.below(256)) : t == 1 ? fmt("2001:db8::%x", (unsigned)r.below(65536)) : t == 2 || t == 5 ? (r.chance(1, 2) ? "ns" + std::to_string(i) : "ns.other.net.") : t == 3 ? fmt("%u_mail", (unsigned)r.below(99)) : fmt("\"t%u;x\"", i);
		p.push_back(fmt("rr - owner=%s type=%s rd=%s ttl=%d cls=%d", ow[r.below(8)], ty[t], rd.c_str(), (int)r.chance(1, 3), (int)r.chance(1, 2)));
		if (r.chance(1, many ? 2000 : 25)) p.push_back("bad - k=" + std::to_string(r.below(3)));
	}
	if (!nosoa && r.chance(1, 4)) { p.push_back("soa - again=1"); unsigned k = r.below(3); while (k--) p.push_back("rr - owner=after type=A rd=192.0.2.1 ttl=1 cls=1"); }
	if (r.chance(1, 5)) p.push_back("nonl -");
	if (r.chance(1, 5)) p.push_back(fmt("cut - permille=%u", (unsigned)r.below(1001)));
	if (r.chance(1, 5)) { static const char *w[] = {"EIO", "EINTR", "short"}; p.push_back(fmt("fault fread %u %s", (unsigned)r.range(1, r.chance(1, 2) ? 3 : 60), w[r.below(3)])); }
	if (r.chance(1, 20)) p.push_back(fmt("fault %s 1 %s", gz ? "popen" : "fopen", r.chance(1, 2) ? "EMFILE" : "ENOENT"));
	if (r.chance(1, 25)) p.push_back("missing -");
	if (r.chance(1, 8)) p.push_back(fmt("stop - after=%u", (unsigned)r.below(6)));
	return p;
}
void run(const std::vector<Line> &p)
{
	std::string zone = "example.com.", text, origin, prevowner; bool gz = false, missing = false; unsigned name = 0; uint64_t serial = 1, ttl = 3600; long stop_after = -1;
	for (auto &l : p) { if (l.verb == "cfg") { VFS.chunk = l.num("chunk", 4096); zone = l.str("zone", "example.com."); gz = l.num("gz"); name = l.num("name"); serial = l.num("serial", 1); } if (l.verb == "missing") missing = true; if (l.verb == "stop") stop_after = l.num("after"); }
	bool head = true; for (auto &l : p) if (l.verb == "cfg") head = l.num("head", 1);
	// without $ORIGIN, the owner of the SOA record is the origin
	origin = zone; text = (head ? "$ORIGIN " + zone + "\n" : std::string()) + "$TTL 3600\n";
	struct Want { std::string rr; size_t end; bool bad; };
	std::vector<Want> want; bool ended = false, soa = false, badseen = false;
	bool anyrr_before_soa = false;
	for (auto &l : p) {
		if (l.verb == "text") text += sp(l.str("s")) + "\n";
		else if (l.verb == "ttl") { ttl = l.num("v", 60); text += "$TTL " + std::to_string(ttl) + "\n"; }
		else if (l.verb == "origin") { origin = l.str("v", "com."); text += "$ORIGIN " + origin + "\n"; }
		else if (l.verb == "soa") {
			std::string rd = l.num("multi") ? fmt("ns1.%s hostmaster.%s (\n\t%llu ; serial\n\t3600 600\n\t86400 60 )", zone.c_str(), zone.c_str(), (unsigned long long)serial) : fmt("ns1.%s hostmaster.%s %llu 3600 600 86400 60", zone.c_str(), zone.c_str(), (unsigned long long)serial);
			text += zone + " 3600 IN SOA " + rd + "\n"; prevowner = zone;
			if (soa) ended = true;
			else if (!ended) want.push_back({canon(zone + " 3600 IN SOA " + fmt("ns1.%s hostmaster.%s %llu 3600 600 86400 60", zone.c_str(), zone.c_str(), (unsigned long long)serial)), text.size(), false});
			soa = true;
		} else if (l.verb == "rr") {
			std::string ow = l.str("owner", "@"), full, rd = sp(l.str("rd", "192.0.2.9")), ty = l.str("type", "A");
			if (ow == "-" && (prevowner.empty() || badseen)) ow = "@";
			if (ow == "FULL") { ow = "full." + zone; full = ow; }
			else if (ow == "-") { ow = ""; full = prevowner; }
			else if (ow == "@") full = origin;
			else full = ow + "." + origin;
			text += ow + (l.num("ttl") ? "\t77" : "") + (l.num("cls") ? " IN" : "") + " " + ty + " " + rd + "\n";
			prevowner = full;
			std::string frd = rd;
			if ((ty == "NS" || ty == "CNAME" || ty == "MX") && frd.back() != '.') frd += "." + origin;
			if (!soa) anyrr_before_soa = true;
			if (!ended) want.push_back({canon(full + " " + std::to_string(l.num("ttl") ? 77 : ttl) + " IN " + ty + " " + frd), text.size(), false});
		} else if (l.verb == "bad") {
			static const char *b[] = {"broken IN A not-an-address", "broken IN MX", "broken IN NOSUCHTYPE x"};
			text += b[l.num("k") % 3]; text += "\n"; badseen = true; prevowner.clear();
			if (!ended) want.push_back({"", text.size(), true});
		} else if (l.verb == "nonl" && !text.empty() && text.back() == '\n') { text.pop_back(); if (!want.empty() && want.back().end > text.size()) want.back().end = text.size(); }
	}
	bool cut = false;
	for (auto &l : p) if (l.verb == "cut") { size_t k = text.size() * l.num("permille", 1000) / 1000; if (k < text.size()) { text.resize(k); cut = true; } }
	static const char *plain[] = {".zone", "gz", ".gz.bak", ".gx", ".tz", "", ".gz.", ".xgz"};
	static const char *names[] = {"z", "a b", "it's", "x;y", "$(x)", "q\"q", "a  b", "&", "b\\c", "*", "\xc3\xa9", "''"};
	std::string fname = std::string("/sim/") + names[name % 12] + (gz ? ".gz" : plain[name / 12 % 8]);
	if (!missing) VFS.put(fname, text, 1)->gz = gz;
	auto failed = [] { return fault_taken() > fault_short(); };
	sched_spawn(0, [&] {
		zonefile *z; { Track t; z = zonefile_init_fname(fname.c_str()); }
		bool hard = failed();
		bool soa_first = !want.empty() && soa && !anyrr_before_soa && !want[0].bad && want[0].end <= text.size();
		SIM.log("init %d", z != nullptr);
		if (!z) {
			if (soa_first && !hard && !missing) fail("init-failed", "a file that starts with a SOA record is refused");
			return;
		}
		OUT.nontrivial = true;
		if (!hard && !soa_first && !cut) fail("init-accepted", "a file without a leading SOA record is accepted");
		bool told = false, hit = false; size_t k = 0, errs = 0, calls = 0, returned = 0; bool end = false;
		auto meta = [&] {
			if (hard || cut) return;
			{ uint32_t s; { Track t; s = zonefile_get_serial(z); } if (s != (uint32_t)serial) fail("serial", fmt("serial %u, not %u", s, (unsigned)serial)); }
			char *d; d = ldns_rdf2str(zonefile_get_domain(z)); std::string ds = d; free(d);
			if (ds != zone) fail("domain", "domain " + ds + ", not " + zone);
			size_t c = zonefile_get_count(z);
			if (c != std::max<size_t>(returned, 1)) fail("count", fmt("count %zu after %zu records", c, returned));
		};
		meta();
		unsigned after_end = 0;
		while (after_end < 2) {
			if (stop_after >= 0 && (long)calls >= stop_after) break;
			if (++calls > 2 * want.size() + 60) fail("no-end", "zonefile_read does not come to an end");
			ldns_rr *rr = (ldns_rr *)1; ldns_status st; { Track t; st = zonefile_read(z, &rr); }
			if (failed() && !hard) { hard = true; hit = true; }
			if (st != LDNS_STATUS_OK) {
				SIM.log("error"); SIM.count("zone_read_errors");
				if (hard) told = true;
				if (!hard && !cut) { if (k >= want.size() || !want[k].bad) fail("read-error", fmt("zonefile_read fails (%d) at record %zu of a good file", (int)st, k)); k++; }
				else if (cut && !hard) { if (k < want.size() && !want[k].bad && want[k].end <= text.size()) fail("read-error", "zonefile_read fails on a complete record"); k++; }
				if (++errs > want.size() + 20) break;	// a stream that keeps failing; the caller gives up
				continue;
			}
			if (!rr) { end = true; after_end++; SIM.log("end"); if (hard && !told && k < want.size() && !cut) fail("error-hidden", fmt("reading fails but zonefile_read reports the end after %zu of %zu records", k, want.size())); if (!hard && !cut && k < want.size()) fail("records-missing", fmt("the end comes after %zu of %zu records", k, want.size())); if (cut && !hard && k < want.size() && want[k].end < text.size()) fail("records-missing", fmt("the end comes after %zu records though record %zu is complete", k, k)); continue; }
			if (end) fail("after-end", "a record comes after the end");
			if (rr == (ldns_rr *)1) fail("no-result", "zonefile_read succeeds without a result");
			std::string s = of(rr); { Track t; ldns_rr_free(rr); }
			returned++; SIM.count("zone_records"); SIM.log("rr %s", s.c_str());
			if (hard && told) fail("after-error", "zonefile_read gives a record after a read error: " + s);
			if (!hard || !cut) {
				while (cut && k < want.size() && want[k].bad) k++;
				if (k >= want.size() && cut) break;	// what is left of the closing SOA record
				if (k >= want.size()) fail("record-invented", s);
				if (want[k].bad) fail("bad-accepted", s);
				if (want[k].rr.empty()) { fprintf(stderr, "oracle: no canonical form\n"); _exit(2); }
				if (s != want[k].rr && !(cut && want[k].end > text.size())) fail("record-wrong", s + " instead of " + want[k].rr);
				k++;
				meta();
			}
		}
		meta();
		{ Track t; zonefile_destroy(&z); }
		if (z) fail("destroy-null", "zonefile_destroy leaves the pointer set");
	});
	sched_run();
	if (heap_live()) fail("leak", fmt("%llu blocks not freed:%s", (unsigned long long)heap_live(), heap_report().c_str()));
	if (VFS.open_handles) fail("leak-handle", "the zone file is left open");
}
}
const Profile P_ZONE = {"zone", gen, run};
