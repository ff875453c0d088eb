"""The properties, as written to properties.jsonl, and what MANIFEST.json says of each check."""
TECH = 'deterministic simulation with fault injection: seeded schedules of '
NOTE = ('Seeded search, not proof. Trusts the simulated libmtbl and libwdns, the reference model and the encoder in /verif/sim/a; real code is '
        'compiled from /repo with AddressSanitizer, so memory errors, failed assertions and hangs met on the way are violations too.')

NOTE_B = ('Seeded search, not proof. Trusts the simulated system calls, scheduler and memory model in /verif/sim/b; real code is compiled from /repo, with AddressSanitizer '
          'except where memory accesses are scheduling points; failed assertions, hangs and leaks met on the way are violations too.')


def P(id, title, statement, over, text, why, files, mech, tech, note=NOTE, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a, technique=TECH + tech, note=note)


PROPS = [
    P('C01', 'Aggregated query answers are exactly the matching rows',
      'For every set of dnstable files and every rrset, rdata-name, rdata-ip and rdata-raw query (exact, left or right wildcard, "+" single-label wildcard, rrtype, bailiwick, case rules), '
      'the aggregated answer is exactly the set of matching rows merged over all loaded files: each once, with minimum first time, maximum last time and summed count, and none missing. '
      'dnstable_query_filter accepts every row the query returns and rejects rows of another rrtype, of another bailiwick or outside the time fences. Name searches with no literal label at all are outside the statement.',
      ['inputs', 'histories'], 'all data sets, file partitions, queries, and states of the storage layer (slow, missing files, lookups that return no iterator)',
      'wildcard seeks, type skipping and index lookups depend on which keys are neighbours; a test fixes one data set and one query',
      ['dnstable/query.c', 'dnstable/query_mtbl.c', 'dnstable/merge.c', 'dnstable/entry.c'],
      [('query planning', 'dnstable/query.c query_init_*'), ('skip-seeking filters', 'dnstable/query.c filter_single_label, filter_rrtype, filter_bailiwick'), ('merge', 'dnstable/merge.c dnstable_merge_func')],
      'files, storage faults and interleaved queries over a simulated libmtbl, checked against an executable reference model'),
    P('C02', 'Merge order, grouping and crashes never change the merged data',
      'However the input files are grouped, ordered and repeatedly merged by mergers that may crash and be run again, the data served afterwards (every entry of a full scan and every query answer) '
      'equals the one-step merge of the original inputs: times, counts, rrtype unions, time ranges and versions included. A merge that crashed leaves no trace.',
      ['histories', 'crash_points'], 'all merge trees, source orders and crash points of merger processes',
      'associativity and commutativity over all merge trees and restarts are statements about histories, not about one merge call',
      ['dnstable/merge.c', 'dnstable/triplet.c', 'dnstable/entry.c'],
      [('merge function', 'dnstable/merge.c dnstable_merge_func'), ('rrtype union', 'dnstable/merge.c merge_rrtype_bitmaps')],
      'merger processes with crash and restart, checked against a reference model of the union'),
    P('C03', 'Unaggregated answers give every stored row once, in time order',
      'An unaggregated query returns each matching row of each loaded file exactly once, unmerged, and rows with equal key come sorted by first time seen and then last time seen.',
      ['inputs', 'histories'], 'all data sets, overlaps between files, queries and interleavings',
      'needs every overlap of keys between files; tests sample a few',
      ['dnstable/query.c', 'dnstable/merge.c'],
      [('unmerged fileset', 'dnstable/query.c dnstable_query_iter_fileset (fs_no_merge)'), ('duplicate order', 'dnstable/merge.c dnstable_dupsort_func')],
      'overlapping files and interleaved unaggregated queries against a reference model'),
    P('C04', 'Time fences never lose or leak a row, whatever file holds it',
      'A time-fenced query (any combination of time_first_before/after and time_last_before/after) returns exactly the rows whose merged (or, unaggregated, stored) times pass all fences, with full merged times and counts, '
      'no matter how the observations are spread over files or which files lack a time range.',
      ['inputs', 'configurations'], 'all fence combinations, time distributions and partitions into files',
      'file pruning, fill merging and key removal interact only for particular spreads of observations over files',
      ['dnstable/query.c', 'dnstable/query_mtbl.c'],
      [('file pruning', 'dnstable/query.c reader_time_filter'), ('fill merge', 'dnstable/query_mtbl.c ljoin_mtbl'), ('removal', 'dnstable/query_mtbl.c remove_mtbl'), ('filters', 'dnstable/query.c filter_time_common')],
      'fenced queries over many file partitions against a reference model'),
    P('C05', 'Timeouts are prompt, never early, and lose no rows',
      'A query step with a timeout or deadline reports timeout only when that limit has passed (within one granule of the coarse clock), reads only a bounded amount of storage after it has passed, and never reports timeout when no limit is set. '
      'After a timeout the same iterator can be stepped again with new, changed or removed limits, and the rows returned overall are exactly the answer: none lost, none repeated.',
      ['schedules', 'fault_sequences'], 'all latencies and stalls of storage steps, clock granularities, clock jumps, and changes of the limits between steps',
      'which storage step crosses the deadline depends on timing a test cannot control',
      ['dnstable/query.c', 'dnstable/query_mtbl.c'],
      [('deadline', 'dnstable/query.c query_iter_set_deadline'), ('expiry jump', 'dnstable/query_mtbl.c timeout_iter_next'), ('resume', 'dnstable/query.c query_iter_next, query_iter_next_name_indirect')],
      'storage stalls, clock jumps and limit changes on a simulated clock'),
    P('C06', 'An offset skips exactly that many rows, for every iterator',
      'A query with offset n returns exactly the rows the same query without offset would return, in the same order, from row n+1 on; this holds for every iterator made from the query, however they are interleaved.',
      ['inputs', 'schedules'], 'all queries, offsets and interleavings of iterators sharing a query',
      'sharing and ordering of iterators are not sampled by tests',
      ['dnstable/query.c'], [('offset filter', 'dnstable/query.c filter_offset')],
      'interleaved iterators sharing queries, compared with a twin run without offset'),
    P('C07', 'Iterators are isolated from reloads, and reloads take effect',
      'An open iterator keeps returning exactly the rows of the files loaded when it was opened, while set files change, files vanish and reloads happen; entries already returned stay valid and unchanged. '
      'After a reload with no iterator open the reader serves exactly the files the set file names, and a missing set file or data file never unloads others.',
      ['histories', 'schedules'], 'all interleavings of iteration with set-file changes, file removal and reloads',
      'needs a reload between two particular steps of an iteration',
      ['dnstable/reader.c', 'dnstable/query.c', 'dnstable/iter.c', 'dnstable/entry.c'],
      [('reload', 'dnstable/reader.c dnstable_reader_reload_setfile'), ('per-query filesets', 'dnstable/query.c dnstable_query_iter_fileset'), ('entry copies', 'dnstable/entry.c dnstable_entry_decode')],
      'set-file changes, deletions and reloads between iterator steps'),
    P('C08', 'Damaged entries are skipped without harm to the rest',
      'Entries that are truncated, malformed, of unknown type or carry a damaged rrtype index never crash a reader, are never read past their end and are never returned as rows; all undamaged rows are still returned, and queries through a damaged index lose nothing.',
      ['inputs', 'fault_sequences'], 'all positions and kinds of damaged entries among good ones',
      'tests do not contain damaged files',
      ['dnstable/entry.c', 'dnstable/triplet.c', 'dnstable/query.c'],
      [('decoding', 'dnstable/entry.c decode_rrset, decode_rdata, decode_version'), ('index fallback', 'dnstable/entry.c rrtype_union_check'), ('filters on raw keys', 'dnstable/query.c filter_rrtype, filter_bailiwick')],
      'corrupted storage under queries and scans, with exactly sized buffers'),
    P('C09', 'Everything is released, wherever an iteration stops',
      'When iterators are destroyed at any point (before the first step, in the middle, after the end, after a timeout, in any order) and then queries and readers are destroyed, no heap block and no storage object (iterator, source, fileset, merger) stays allocated, and nothing is used after it was released.',
      ['schedules', 'fault_sequences'], 'all points of abandonment, orders of destruction and storage outcomes',
      'abandonment in the middle of each internal structure is not something a test enumerates',
      ['dnstable/query.c', 'dnstable/query_mtbl.c', 'dnstable/iter.c', 'dnstable/reader.c'],
      [('teardown', 'dnstable/query.c query_iter_free'), ('layer teardown', 'dnstable/query_mtbl.c *_iter_free, *_mtbl_destroy')],
      'abandonment at every step with heap and storage accounting'),
    P('C10', 'Iterator statistics describe the work that was done',
      'Counters of an iterator never decrease; stages that are not part of the query report absence and zero; every loaded file is accounted for exactly once as used, filled or removed; merge counters equal the merges storage performed; the offset counter equals the rows skipped.',
      ['inputs', 'schedules'], 'all queries, data sets and points of observation',
      'the counters are spread over layers whose combination depends on query and data',
      ['dnstable/query.c', 'dnstable/query_mtbl.c', 'dnstable/util.c'],
      [('counters', 'dnstable/query.c query_iter_get_count'), ('layer counters', 'dnstable/query_mtbl.c filter_mtbl_get_counter, ljoin, remove')],
      'counters observed at arbitrary steps and compared with what simulated storage saw'),
    P('C11', 'dnstable_lookup prints exactly the answer to the question it was given',
      'For every data set, query and combination of options, dnstable_lookup prints (as text, as JSON with Unix or RFC 3339 times, or as a count) exactly the rows of the answer under the time fences, strictness, offset, case and aggregation asked for, '
      'with times given absolutely, as dates or as time ago. With a time limit it may stop early, never later than the limit and, in text, saying so; statistics, at the end or at intervals, are those of the query and do not change what is printed. '
      'Arguments that make no sense, unusable data files and failed writes of the output end with a failure status, a message and no rows of a wrong answer; memory does not grow with the rows printed.',
      ['inputs', 'configurations', 'fault_sequences'], 'all data sets, command lines, storage stalls and full output disks',
      'options combine, and interval and timeout handling depends on when storage stalls',
      ['src/dnstable_lookup.c', 'dnstable/query.c', 'dnstable/entry.c'],
      [('options', 'src/dnstable_lookup.c main'), ('times', 'src/dnstable_lookup.c parse_time'), ('output loop', 'src/dnstable_lookup.c do_dump, print_entry')],
      'commands run as processes over simulated storage and clocks, checked against an executable reference model'),
    P('C15', 'dnstable_dump prints every entry of the kind asked for, once',
      'For every data file, dnstable_dump prints every decodable entry of the chosen kind exactly once, with its names, types, rdata, times and counts, as text or JSON, and nothing else. '
      'It ends with a failure status if its arguments make no sense, the file cannot be opened or standard output cannot be written in full, and its memory does not grow with the entries printed.',
      ['inputs', 'configurations', 'fault_sequences'], 'all data files, including merged and damaged ones, option combinations and full output disks',
      'what is printed depends on the data of the whole file and on when the output disk fills',
      ['src/dnstable_dump.c', 'dnstable/reader.c', 'dnstable/entry.c'],
      [('dump loop', 'src/dnstable_dump.c do_dump'), ('options', 'src/dnstable_dump.c main'), ('text and JSON', 'dnstable/entry.c dnstable_entry_to_text, dnstable_entry_format')],
      'commands run as processes over simulated storage, checked against an executable reference model'),
    P('C12', 'Full scans and every output format reproduce the stored data',
      'Iterating a reader (all entries or one entry type) over any set of files yields exactly the merged entries, and every text and JSON rendering of an entry (date format, rdata array, raw rdata options) is well formed and carries exactly the entry\'s names, types, data, times and counts.',
      ['inputs', 'histories'], 'all data sets, entry types, formatting options and reloads between scans',
      'the value space of names, types, data and times is not sampled by tests',
      ['dnstable/reader.c', 'dnstable/entry.c', 'dnstable/iter.c'],
      [('scan', 'dnstable/reader.c dnstable_reader_iter*'), ('formatting', 'dnstable/entry.c dnstable_entry_format, dnstable_entry_to_text')],
      'scans interleaved with reloads; each row re-parsed from every output format'),
    P('C13', 'IP searches are exact among arbitrary neighbouring records',
      'An rdata IP search (address, range or prefix of any length) returns exactly the A or AAAA rows whose address lies in the range, whatever other record data shares its leading bytes in the key space, and terminates without reading outside any key.',
      ['inputs'], 'all address ranges and prefixes, and all other records whose keys fall between',
      'the skip-seek logic depends on adversarial byte patterns of unrelated records',
      ['dnstable/query.c', 'libmy/ip_arith.h'],
      [('skip seek', 'dnstable/query.c filter_rrtype_ip'), ('range arithmetic', 'libmy/ip_arith.h ip4_lower, ip4_upper, ip6_lower, ip6_upper')],
      'IP searches over data sets with colliding neighbours'),
    P('C14', 'The rrtype index never hides a row',
      'Queries answered through the rrset-name and rdata-name indexes (left wildcard rdata, and left or right wildcards with an rrtype) return exactly the rows a full scan would select, for any mix of rrtypes and windows, for files with and without rrtype information, and after merging them.',
      ['inputs', 'histories'], 'all rrtype sets per name, legacy and current files, and merges between them',
      'union encodings change form with the number and window of rrtypes and with merge history',
      ['dnstable/query.c', 'dnstable/entry.c', 'dnstable/merge.c'],
      [('indirect lookup', 'dnstable/query.c query_iter_next_name_indirect'), ('union test', 'dnstable/entry.c rrtype_test'), ('union merge', 'dnstable/merge.c merge_rrtype_bitmaps')],
      'indexed queries over mixed legacy and current files against a reference model'),
    P('C16', 'A query asks for what its setters were last told, and refuses nonsense',
      'The answer of a query depends only on the value each of its settings was last given (NULL clears a setting), in whatever order they were given, whatever was set, refused or cleared before, and however often the query was run in between. '
      'Values that make no sense for the setting (malformed names, addresses, prefixes, ranges, hex, types, or filter parameters of the wrong length) are refused (a refused type or filter parameter leaves that setting as it was), and values that make sense are accepted.',
      ['histories', 'inputs'], 'all histories of setter calls, sensible, refused and clearing, interleaved with runs of the query',
      'state that an earlier setting leaves behind shows only under particular sequences of calls',
      ['dnstable/query.c', 'libmy/ip_arith.h', 'libmy/hex_decode.h'],
      [('data', 'dnstable/query.c dnstable_query_set_data, query_set_data_*'), ('type, bailiwick, offset, case', 'dnstable/query.c dnstable_query_set_*'), ('times and limits', 'dnstable/query.c dnstable_query_set_filter_parameter, dnstable_query_set_timeout')],
      'setter histories interleaved with queries over simulated storage, checked against a reference model of the last values'),
    P('C17', 'dnstable_merge merges the files it is told to, whatever they are called',
      'dnstable_merge runs mtbl_merge once, on exactly the arguments it was given, in order and unchanged whatever characters they hold, with the merge function of this library whatever the environment held before, so that the output file holds the merge of the inputs. '
      'It ends with the status of mtbl_merge, fails if mtbl_merge is missing or killed, and with fewer than two arguments runs nothing, explains itself and fails.',
      ['configurations', 'fault_sequences', 'histories'], 'all argument lists, file names, environments, failures of the merger, and orders of merges',
      'unusual file names, environments and a failing merger are not met in a test',
      ['src/dnstable_merge.sh.in', 'dnstable/merge.c'],
      [('arguments', 'src/dnstable_merge.sh.in exec'), ('library and function', 'src/dnstable_merge.sh.in MTBL_MERGE_DSO, MTBL_MERGE_FUNC_PREFIX'), ('merge function', 'dnstable/merge.c dnstable_merge_func')],
      'the script run as a process with a failing stand-in merger, its merges carried out over simulated storage and checked against a reference model'),
    P('C18', 'Base64 and base32 texts hold exactly the data, whoever codes them',
      'Base64 encoding of data handed over in pieces of any size gives the standard text, and decoding that text in pieces of any size, with or without its padding and with characters foreign to the alphabet in between, gives the data back; base32 (extended hex alphabet, unpadded) likewise in one piece, in either case and with or without padding, and refuses foreign characters. '
      'This holds from the first call on for any number of threads at once, and nothing outside the given buffers is read or written: too little room cuts the result short.',
      ['schedules', 'inputs', 'histories'], 'all data, cuts into pieces, rooms for the result and interleavings of threads in a fresh process',
      'tables built at first use and state kept between pieces fail for particular interleavings and cuts',
      ['libmy/b64_encode.c', 'libmy/b64_decode.c', 'libmy/b32_encode.c', 'libmy/b32_decode.c'],
      [('base64 steps', 'libmy/b64_encode.c base64_encode_block, libmy/b64_decode.c base64_decode_block'), ('base32 groups', 'libmy/b32_encode.c base32_encode, libmy/b32_decode.c base32_decode')],
      'threads at every memory access in a fresh process, with data in pieces and buffers that end at unmapped pages', NOTE_B),
    P('C19', 'The checksum is right on every processor, from the first call of any thread',
      'my_crc32c returns the CRC-32C of the bytes it is given for every length, content and alignment, on processors with and without SSE 4.2, from any number of threads at once, and before as well as after the processor has been examined. '
      'It reads nothing outside the bytes it is given and never runs instructions the processor lacks.',
      ['schedules', 'configurations', 'inputs'], 'all buffers, processors, and interleavings of first calls',
      'the tests check a few buffers on one processor, in one thread, after start-up',
      ['libmy/crc32c.c', 'libmy/crc32c-slicing.c', 'libmy/crc32c-sse42.c'],
      [('choice of implementation', 'libmy/crc32c.c my_crc32c_runtime_detection, my_crc32c_first'), ('tables', 'libmy/crc32c-slicing.c my_crc32c_slicing'), ('instructions', 'libmy/crc32c-sse42.c my_crc32c_sse42')],
      'threads at every memory access in a fresh process on simulated processors', NOTE_B),
    P('C20', 'The file set converges to what the set file names',
      'After every reload the loaded files are those that a version of the set file current during that reload named and that existed; once failing system calls stop, one reload reaches the set file\'s last state whatever was replaced, rewritten or failed before. '
      'A reload that cannot read the set file changes nothing, a reload of an unchanged set file loads and unloads nothing, and the listing stays sorted and complete.',
      ['histories', 'schedules', 'fault_sequences'], 'all histories of set file replacements, file arrivals and removals, failing calls, and their interleavings with reloads',
      'a lost update needs a failed read or a replacement at one particular system call of a reload',
      ['libmy/my_fileset.c', 'libmy/my_fileset.h'],
      [('set file reading', 'libmy/my_fileset.c my_fileset_reload'), ('change test', 'libmy/my_fileset.c setfile_updated'), ('listing', 'libmy/my_fileset.c my_fileset_get')],
      'an operator, a reloading reader and failing system calls over an in-memory file system', NOTE_B),
    P('C21', 'File set load and unload callbacks pair up exactly',
      'For every history of reloads, each file is loaded at most once at a time, only if the set file named it, and every load is followed by exactly one unload with the pointer that load returned, at the latest when the file set is destroyed; files kept across a reload are neither unloaded nor loaded again. '
      'No memory or file handle is leaked, whatever fails on the way.',
      ['histories', 'fault_sequences'], 'all histories of set files (duplicates, reorderings, missing files, empty files) and reloads',
      'a double unload or a leak needs a particular sequence of set files, not one reload',
      ['libmy/my_fileset.c', 'libmy/my_fileset.h'],
      [('merge of old and new listing', 'libmy/my_fileset.c my_fileset_reload'), ('teardown', 'libmy/my_fileset.c my_fileset_destroy')],
      'set file replacements and failing calls with callback and heap accounting', NOTE_B),
    P('C22', 'A spooled file goes to exactly one consumer and is never lost',
      'With any number of producers and of consumer processes and threads on one spool directory, every finished file is returned by spooldir_next exactly once, complete and under its name in the active directory, and no file is ever deleted or overwritten by the spool code; dot files, directories, pipes and other special files are never claimed. '
      'A consumer that crashes loses no file: each is still in one of the two directories; an entry that cannot be examined or moved keeps no other from being handed out.',
      ['schedules', 'crash_points', 'fault_sequences'], 'all interleavings of the system calls of producers and consumers, crash points and failing calls',
      'double claims and lost files need two processes between the same two system calls',
      ['libmy/spooldir.c', 'libmy/spooldir.h'],
      [('claim by rename', 'libmy/spooldir.c spooldir_next'), ('lock', 'libmy/spooldir.c struct spooldir')],
      'several consumer processes, threads and producers at every system call, with crashes and failing calls', NOTE_B),
    P('C23', 'Spool consumers start together, finish their work and leak nothing',
      'Any number of processes may initialise the same spool directory at the same time and none aborts; once faults stop, one consumer is given every waiting file within two passes of the directory, each call returns within bounded time, and an empty spool yields NULL. '
      'Destroying the handle releases all its memory and directory streams, after any failures.',
      ['schedules', 'fault_sequences'], 'all start-up interleavings, failing calls and crashes of other consumers',
      'start-up races and skipped files need a second process at one particular call',
      ['libmy/spooldir.c', 'libmy/spooldir.h'],
      [('start-up', 'libmy/spooldir.c spooldir_init, make_dir'), ('directory pass', 'libmy/spooldir.c spooldir_next'), ('teardown', 'libmy/spooldir.c spooldir_destroy')],
      'simultaneous start-up, failing calls and crashes over an in-memory file system', NOTE_B),
    P('C24', 'The queues deliver every element once, in order and intact',
      'With one producer and one consumer, the lock-free and the mutex queue return exactly the elements whose insertion succeeded, each once, in order and undamaged, under every interleaving and memory reordering; an insertion fails only when the queue is full and a removal only when it is empty. '
      'The reported free space is a value the queue could have had, and the capacity is never exceeded.',
      ['schedules', 'configurations'], 'all interleavings of memory accesses, memory models, element sizes and capacities',
      'ordering errors need an interleaving of single memory accesses or a reordering that test hardware seldom shows',
      ['libmy/my_queue.c', 'libmy/my_queue_mutex.c', 'libmy/my_queue.h', 'libmy/my_memory_barrier.h'],
      [('insert and remove', 'libmy/my_queue.c my_queue_insert, my_queue_remove'), ('barriers', 'libmy/my_memory_barrier.h'), ('locked variant', 'libmy/my_queue_mutex.c')],
      'producer and consumer at every memory access, with simulated store buffers and delayed loads', NOTE_B),
    P('C25', 'Atomic counters and pointers lose no update and tear no answer',
      'Every history of operations on one atomic counter (32 or 64 bit) or pointer is that of some order in which each operation happens at once between its call and its return: no update is lost, each answer (value, zero, negative, old value) is the one of its place in that order, with amounts and values of the full width of the counter. '
      'A pointer is left unset only if another thread set it meanwhile.',
      ['schedules', 'inputs'], 'all interleavings of memory accesses of up to four threads, all operations, amounts of any width',
      'a lost update needs a switch between two particular memory accesses, and a lost high word an amount no test uses',
      ['libmy/atomic.h', 'libmy/atomic_64.h', 'libmy/atomic_ptr.h'],
      [('counter', 'libmy/atomic.h'), ('64 bit counter', 'libmy/atomic_64.h'), ('pointer', 'libmy/atomic_ptr.h atomic_ptr_get, atomic_ptr_set')],
      'threads at every memory access; histories of up to 20 operations checked for linearizability by exhaustive search over orders', NOTE_B),
    P('C26', 'The rate limiter keeps its rate and starves no caller',
      'Without adjustment (freq 0) my_rate_sleep lets at most one event through per tick of the nominal period and holds a caller no longer than to the next tick after its last event, whatever signals, late timers and slow callers do. '
      'With adjustment (freq of 10 or more) the average rate over the limiter\'s life comes within about 10 % of the nominal rate for a caller that keeps up or makes up for its pauses, and no call is delayed by more than a few periods.',
      ['schedules', 'fault_sequences'], 'all rates, work patterns of the caller, timer lateness and signals, over simulated hours',
      'long-run averages and rare interruptions cannot be waited for in a test',
      ['libmy/my_rate.c', 'libmy/my_time.h'],
      [('tick', 'libmy/my_rate.c calc_next_tick'), ('adjustment', 'libmy/my_rate.c adjust_rate'), ('sleep', 'libmy/my_rate.c my_rate_sleep')],
      'events under a virtual clock with late timers and signals', NOTE_B),
    P('C27', 'Reads and sleeps complete despite interruptions',
      'read_bytes returns true exactly when all requested bytes were read, in order, across short reads and interruptions, and never writes past the buffer; an early end of file or a real error returns false. '
      'my_nanosleep sleeps at least as long as asked however often it is interrupted, and not noticeably longer.',
      ['fault_sequences'], 'all sequences of short reads, EINTR, errors and ends of file, and of interrupted sleeps',
      'interruptions at chosen calls do not occur in a test',
      ['libmy/read_bytes.h', 'libmy/my_time.h'],
      [('read loop', 'libmy/read_bytes.h read_bytes'), ('sleep loop', 'libmy/my_time.h my_nanosleep')],
      'faults injected into single reads and sleeps', NOTE_B),
    P('C28', 'Zone files yield every record once, and every read ends',
      'For every zone file that starts with a SOA record, zonefile_read returns each record of the zone exactly once and in order, with names completed by the current origin and TTLs by the current default, then ends and stays ended; serial, domain and count are right at every moment. '
      'Empty, truncated, failing, missing and malformed input is reported without hanging, crashing or leaking, and only the named file is opened, whatever its name.',
      ['inputs', 'fault_sequences'], 'all zone files (directives, multi-line records, relative names, compressed files), truncations, chunkings and read errors',
      'hangs at the end of input and errors in the middle need particular input and particular failures',
      ['libmy/zonefile.c', 'libmy/zonefile.h'],
      [('first record', 'libmy/zonefile.c read_soa'), ('records', 'libmy/zonefile.c zonefile_read'), ('serial', 'libmy/zonefile.c zonefile_get_serial')],
      'generated zone files with truncations, read errors and early destruction, with real libldns', NOTE_B),
    P('C29', 'Every thread gets its own number',
      'Under every interleaving of registrations, the threads of a process get distinct consecutive numbers, and the number of a thread never changes.',
      ['schedules'], 'all interleavings of the memory accesses of registering threads',
      'two threads must meet inside one counter update',
      ['libmy/threadnum.c', 'libmy/threadnum.h'],
      [('counter', 'libmy/threadnum.c my_threadnum_register')],
      'registering threads at every memory access', NOTE_B),
]

# stated, not decided by simulation
PROPS.append(P('C30', 'Containers and number codings of libmy follow their definitions',
      'The heap yields its items in order after any sequence of operations, variable-width integers and hex text decode to what was encoded, and the vectors, lists, trees and hashes of libmy hold what was put into them.',
      ['histories', 'inputs'], 'all sequences of operations and values', 'tests sample a few',
      ['libmy/heap.c', 'libmy/varint.c', 'libmy/hex_decode.h', 'libmy/vector.h', 'libmy/list.h', 'libmy/tree.h', 'libmy/lookup3.c'],
      [('heap', 'libmy/heap.c siftup, siftdown'), ('variable-width integers', 'libmy/varint.c')], ''))

NOT_CLAIMED = [
    {'property': 'C30', 'reason': 'Pure functions and single-threaded data structures: no schedule, time, I/O, chunking or second party for a simulation to vary. Where dnstable uses them their effect is checked inside C01-C17.'},
]
HOOKS = None
