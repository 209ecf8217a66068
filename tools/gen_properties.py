#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, sys, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- tree
prop("T01", "A tree behaves as a nested map from unique string keys to subtrees",
  "After any sequence of set, get, unset, extract, unset-all and element operations, a tree holds exactly the keys that an ordinary nested map would hold after the same sequence, each key once, each with the subtree last given to it. Lookups, size and a full iteration all agree with that map at every step, for any non-NULL string keys (empty, long, or with any byte values) and any number of keys. Setting an existing key replaces its old subtree, and operations on one key never disturb another key.",
  ["histories", "inputs"],
  "All sequences of operations on one or several trees, all key strings, all tree shapes.",
  "The unit tests run a dozen fixed sequences with short, distinct keys and at most a few elements; replacement, extraction, unset in the middle of the list, prefix/empty/long keys and interleavings are never sampled.",
  ["src/kvtree.c", "src/kvtree.h", "src/queue.h"],
  [("set replaces or inserts", "src/kvtree.c kvtree_set"), ("lookup", "src/kvtree.c kvtree_elem_get"),
   ("unlinking", "src/queue.h LIST_REMOVE / LIST_INSERT_HEAD"), ("extraction", "src/kvtree.c kvtree_extract, kvtree_elem_extract*")],
  [("element list", "key/subtree pairs of one level", "src/kvtree.h struct kvtree_struct")],
  ["kvtree_get", "kvtree_size", "kvtree_elem_first/next"])

prop("T02", "Merging is a deep union that copies and leaves the source alone",
  "After merging tree B into tree A, A contains every path of the old A and every path of B and nothing else, at every depth. B is unchanged, and A shares nothing with B: later changes to or deletion of either tree never affect the other. Merging the same tree again changes nothing, and merging an empty or NULL tree is a no-op.",
  ["inputs", "histories"],
  "All pairs of trees (overlapping, disjoint, nested, with keys that have no subtree), and all later mutations of either one.",
  "No unit test calls merge directly; the tests that reach it through file reads and exchanges merge into empty trees only.",
  ["src/kvtree.c"], [("recursive merge", "src/kvtree.c kvtree_merge")])

prop("T03", "Key/value-pair helpers create, find and prune exactly one pair",
  "Setting a key/value pair makes that pair present, creates at most the missing levels, returns the subtree under the pair, and keeps every existing value of the key and everything below them; setting an existing pair again returns the same subtree unchanged. Unsetting a pair removes that pair only, and removes the key as well exactly when no value is left under it. The integer variants are equivalent to using the decimal text of the integer, for every int.",
  ["histories", "inputs"],
  "All sequences of pair operations over all keys, values and ints, starting from any tree.",
  "The tests set two or three literal pairs and never mix set and unset on the same key, pre-existing subtrees, or extreme ints.",
  ["src/kvtree.c"], [("pair set/get/unset", "src/kvtree.c kvtree_set_kv*, kvtree_get_kv*, kvtree_unset_kv*")])

prop("T04", "Format-string access equals step-by-step access along the same keys",
  "Setting or getting with a format string and arguments has the same effect and result as converting each argument with its own conversion and walking the tree key by key: set creates the missing intermediate levels, keeps existing ones, and attaches (or replaces) the given subtree at the last key; get returns the subtree at the end of the path, or NULL if any key is missing. This holds for every supported conversion, any number of keys, all argument values, and any converted key that fits the documented 1 KiB key buffer.",
  ["inputs", "histories"],
  "All formats made of the supported conversions, all argument values, all starting trees.",
  "The tests use the format interface with one or two fixed conversions and small values.",
  ["src/kvtree.c"], [("format walk", "src/kvtree.c kvtree_setf, kvtree_getf")])

prop("T05", "Typed scalar fields read back the value that was last stored",
  "For every key and every value of each supported scalar type (int, 64-bit int, unsigned long, byte count, 32-bit CRC, string, pointer), storing and then reading with the matching getter succeeds and yields the same value; a double comes back within half a unit of the sixth decimal place (exactly, if six decimals can represent it). A store replaces whatever was under that key, so exactly one value remains, and leaves other keys alone. Reading a key that is absent or has no value reports failure and leaves the caller's output variable untouched, and values survive being written to and read from a file.",
  ["inputs", "histories"],
  "All values of all scalar types, all keys, all sequences of stores of mixed types.",
  "The tests store the value 17 under one key once per type; no extremes, no overwrites, no missing keys, no persistence.",
  ["src/kvtree_util.c", "src/kvtree_helpers.c", "src/kvtree_util.h"],
  [("store = unset + set", "src/kvtree_util.c kvtree_util_set_*"), ("parse", "src/kvtree_util.c kvtree_util_get_*"), ("double parse", "src/kvtree_helpers.c kvtree_atod")])

prop("T06", "Sorting and listing keys order all keys correctly and lose nothing",
  "Sorting a tree by string or by integer, ascending or descending, leaves iteration order sorted in that direction and changes nothing else: the same keys remain, each with its own subtree. The order survives lookups and removals until new keys are added. The integer key list has one entry per key, in ascending order, for all int-valued keys including the extreme ints.",
  ["inputs", "histories"],
  "All key sets (including extreme ints, negatives, ties, 0 or 1 key, thousands of keys), both directions, and later lookups and removals.",
  "No unit test checks the order produced by any sort; the only use is with a few consecutive small ranks.",
  ["src/kvtree.c"], [("sort and relink", "src/kvtree.c kvtree_sort, kvtree_sort_int"), ("comparison", "src/kvtree.c kvtree_cmp_fn_*"), ("list", "src/kvtree.c kvtree_list_int")])

prop("T07", "Every history of calls frees all memory exactly once",
  "After any sequence of successful or failing calls, once the caller has deleted the trees and freed the buffers and lists that the interface hands over to it, no memory obtained by the library remains allocated. No call frees memory twice or touches freed memory, and pointers that the interface lends to the caller stay valid until the element they belong to is changed or removed.",
  ["histories", "inputs", "fault_sequences"],
  "All call histories over the non-MPI and MPI interface, including reads of missing, damaged and truncated files.",
  "The tests do not measure memory at all and never run under a memory checker.",
  ["src/kvtree.c", "src/kvtree_helpers.c", "src/kvtree_util.c", "src/kvtree_mpi.c", "src/kvtree_mpi_io.c"],
  [("recursive delete", "src/kvtree.c kvtree_delete, kvtree_elem_delete"), ("buffers", "src/kvtree.c kvtree_read_fd, kvtree_write_fd"), ("MPI buffers", "src/kvtree_mpi.c")])

prop("T08", "A NULL tree is accepted everywhere as an empty tree",
  "Passing NULL instead of a tree (or a NULL element, or a pointer to a NULL tree to delete) to any tree, pair, scalar, sort, list, size, pack, print or merge function never crashes and never leaks: queries answer as for an empty tree (not found, size 0, no first element, failure from getters with the output untouched), removals do nothing and succeed, insertions do nothing and return NULL, and merging or queueing a message into NULL fails. Single-file read, write and lock functions given a NULL name, tree, or descriptor pointer report failure without touching any file. Serial and collective gathers take a NULL tree for an empty one; a NULL tree that is sent, broadcast or exchanged arrives as an empty tree; receiving into NULL (recv fails at once, the others discard) disturbs neither the other ranks nor the files read.",
  ["inputs", "programs"],
  "All public functions with every combination of NULL and valid arguments the interface allows, before and after other operations.",
  "One test calls one MPI function with NULL; nothing else is tried.",
  ["src/kvtree.c", "src/kvtree_util.c", "src/kvtree_mpi.c", "src/kvtree_mpi_io.c", "doc/rst/users/api.rst"], [("NULL guards", "src/kvtree.c, at the head of each function")])

prop("T09", "Read-only operations never change the tree they are given",
  "Looking up, iterating, sizing, listing integer keys, reading scalars, packing, printing, logging, writing to a file, sending, broadcasting from the root, queueing for exchange, exchanging, gathering collectively, or using a tree as merge source leaves that tree with the same keys, subtrees and iteration order at every level. Repeating such an operation gives the same result.",
  ["histories", "inputs"],
  "All trees, all sequences of read-only operations interleaved with updates.",
  "The tests never compare a tree before and after an operation that should not change it.",
  ["src/kvtree.c", "src/kvtree_util.c", "src/kvtree_mpi.c"], [("const interfaces", "src/kvtree.h, src/kvtree_util.h, src/kvtree_mpi.h")])

prop("T10", "Threads that use different trees do not disturb each other",
  "Threads of one process may call any non-collective function at the same time on different trees and different files, and read-only functions on a tree they share, without synchronising: every call of every thread gives the result it would give if the thread ran alone, and no call accesses memory that another thread's call may be changing. Permission bits of files created meanwhile are excepted, since the umask belongs to the process.",
  ["schedules", "programs"],
  "All scripts of calls in all threads, under all schedules.",
  "No test starts a thread.",
  ["src/kvtree.c", "src/kvtree_util.c", "src/kvtree_io.c", "src/kvtree_helpers.c"], [("re-entrant tokenising of formats", "src/kvtree.c kvtree_setf, kvtree_getf"), ("conversions in local buffers", "src/kvtree.c kvtree_set_kv_int, kvtree_get_kv_int")])

prop("A01", "Running out of memory never yields a wrong tree or a crash",
  "If any single memory allocation inside a library call fails, the call either completes with the normal result, reports failure, or ends the process with a non-zero exit status and a message on stderr. It never crashes on a signal, and never returns success with a tree, file or value that differs from the normal result.",
  ["fault_sequences", "inputs"],
  "All calls, with every single allocation the call makes failing in turn.",
  "No test injects allocation failures.",
  ["src/kvtree_helpers.c", "src/kvtree_err.c", "src/kvtree.c"],
  [("checked allocation", "src/kvtree_helpers.c kvtree_malloc"), ("abort with message", "src/kvtree_err.c kvtree_abort"), ("key copy", "src/kvtree.c kvtree_elem_init")])

# ---------------------------------------------------------------- serialisation
prop("S01", "Packing and unpacking reproduces the tree and uses the announced size",
  "Packing any tree writes exactly as many bytes as the announced pack size, no byte outside them, and unpacking those bytes into an empty tree consumes exactly the same number and yields an equal tree. This holds for every shape, including empty trees, keys without a subtree, empty keys, very long keys, thousands of keys in one level and deep nesting, and for packed trees laid end to end in one buffer.",
  ["inputs"],
  "All trees and all buffer alignments.",
  "Only the MPI tests pack anything, with trees of three or so elements, and none looks at sizes or bytes outside the buffer.",
  ["src/kvtree.c"], [("size", "src/kvtree.c kvtree_pack_size"), ("pack", "src/kvtree.c kvtree_pack"), ("unpack", "src/kvtree.c kvtree_unpack")])

prop("S02", "Packed trees and files follow the documented binary format exactly",
  "Every packed buffer and every file or persisted buffer the library writes is byte for byte what the documented format prescribes for that tree: big-endian counts and NUL-terminated keys, and for files the magic number, type, version, total size, flags and a trailing CRC32 over everything before it. Conversely, every tree encoded by an independent implementation of that document, in any element order and with or without the CRC flag, is read back correctly. The bytes do not depend on the build configuration (byte-swap support, lock type).",
  ["inputs", "configurations"],
  "All trees, both directions (library writes / independent reader; independent writer / library reads), all supported build configurations.",
  "The only on-disk reference is one small sample file that is printed; the writer's bytes are only ever read back by the same code, so a symmetric change of format goes unnoticed.",
  ["src/kvtree.c", "src/kvtree_io.h", "src/kvtree_helpers.c", "src/kvtree_byteswap.h", "doc/rst/users/fileformat.rst"],
  [("header and CRC", "src/kvtree.c kvtree_write_persist, kvtree_read_fd"), ("byte order", "src/kvtree_helpers.c, src/kvtree_io.h")])

prop("S03", "Reading a file gives back exactly the tree last written to it",
  "After a successful write of a tree to a file by any of the write calls (plain, locked, or the locked read-modify-write pair), every read call succeeds and yields an equal tree, whatever the file held before (nothing, a longer or shorter tree, or unrelated bytes). After the write the file holds the new tree and nothing else. Reading merges: keys already in the destination tree that the file does not mention are kept, and keys in both are united as by a merge.",
  ["histories", "inputs"],
  "All trees, all sequences of writes and reads by all write and read calls on the same file, all prior contents, all destination trees.",
  "The tests write fixed-size records to one file and never compare the contents read with what was written.",
  ["src/kvtree.c", "src/kvtree_io.c"], [("write and truncate", "src/kvtree.c kvtree_write_file, kvtree_write_with_lock, kvtree_write_close_unlock"), ("read and merge", "src/kvtree.c kvtree_read_fd")])

prop("S04", "A damaged file is never read as a different tree",
  "If a file written by the library is altered in one place (any one byte or any few adjacent bits changed), cut short at any point, has a run of bytes zeroed or lost, or is altered at a few random places, then a plain, locked or descriptor read either reports failure and leaves the destination tree untouched, or yields exactly the original tree (bytes appended after the end are ignored); the opening half of a read-modify-write may treat such a file as empty, but never yields another tree. A file of length zero is read as holding nothing. The process keeps running in every case.",
  ["inputs", "fault_sequences"],
  "All trees, all positions and kinds of single damage: bit flips, byte changes, bursts up to 32 bits, truncation at every length, lost blocks; several random changes at once, up to the 2^-32 chance that a 32-bit checksum leaves.",
  "No test reads a damaged file.",
  ["src/kvtree.c"], [("magic, version, size, CRC checks", "src/kvtree.c kvtree_read_fd")])

prop("S05", "Reading arbitrary bytes as a file is always safe",
  "Whatever bytes a file contains, including ones with a correct header and checksum around a malformed body, reading it ends promptly with success or failure. It never reads or writes outside its own memory, never ends or hangs the process (given a stack that can hold the nesting), and on failure leaves the destination tree untouched; on success the tree is the one an independent reader of the documented format finds.",
  ["inputs"],
  "All byte strings as file content (up to the generator's size limit), in particular those that pass the header, size and checksum checks.",
  "No test reads a malformed file; the space of malformed bodies is unbounded.",
  ["src/kvtree.c"], [("header validation", "src/kvtree.c kvtree_read_fd"), ("body decoding", "src/kvtree.c kvtree_unpack")])

prop("S06", "Trees stream through any descriptor, however the transfer is chopped",
  "Trees written one after another to a descriptor (file, pipe or socket) are read back from it one by one, in order, each equal to what was written, each call returning the number of bytes of that tree and consuming exactly those bytes. This holds however the system splits the transfers: short reads and writes, interruptions by signals, and temporarily unavailable descriptors are retried without losing, repeating or reordering bytes.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of trees, all partitions of every transfer into short reads and writes, all placements of interruptions.",
  "Local files in the tests always transfer in one piece and are never interrupted.",
  ["src/kvtree_io.c", "src/kvtree.c"], [("retry loops", "src/kvtree_io.c kvtree_read_attempt, kvtree_write_attempt"), ("descriptor read/write", "src/kvtree.c kvtree_read_fd, kvtree_write_fd")])

# ---------------------------------------------------------------- file I/O
prop("F01", "A write that reports success has stored the complete tree",
  "If a call that writes a tree to a file (plain, locked, read-modify-write, or either gather call) reports success, then reading the file or file set back yields exactly that tree, even when system calls fail, are interrupted, or transfer only part of the data along the way. If the tree could not be stored completely, because the open, the lock, a write or the close failed for good, the call reports failure. A failed lock acquisition never leads to reading or writing any file.",
  ["fault_sequences", "inputs"],
  "All placements of open, lock, write and close failures (transient and permanent), short writes and interruptions in each write call.",
  "The tests never make a system call fail.",
  ["src/kvtree.c", "src/kvtree_io.c", "src/kvtree_mpi_io.c"],
  [("write return codes", "src/kvtree.c kvtree_write_fd, kvtree_write_file, kvtree_write_with_lock, kvtree_write_close_unlock, kvtree_write_to_gather"), ("retry/give up", "src/kvtree_io.c kvtree_write_attempt, kvtree_open"), ("collective result", "src/kvtree_mpi_io.c kvtree_write_gather")])

prop("F02", "A crash while a file is rewritten never leaves a wrong tree behind",
  "If a process dies at any point while it writes or updates a file, a later read of that file yields the complete old tree, the complete new tree, an empty result, or a reported failure, never any other tree. A later writer can always store a tree in the file again, and the dead process's lock does not block anyone.",
  ["crash_points", "inputs"],
  "Every point between and inside the system calls of each write call, for all pairs of old and new contents.",
  "No test kills a writer.",
  ["src/kvtree.c", "src/kvtree_io.c"], [("size field and CRC written with the data", "src/kvtree.c kvtree_write_persist"), ("validation on read", "src/kvtree.c kvtree_read_fd"), ("kernel lock released on exit", "src/kvtree_io.c kvtree_file_lock_read_write")])

prop("F03", "Locked reads are atomic and locked updates are never lost",
  "Whatever the interleaving of processes that use only the locked calls on one file, a locked read returns a complete tree that some process wrote (or nothing, before the first write), never a mixture, and reads see writes in the order in which they took effect. Concurrent locked read-modify-write cycles behave as if executed one at a time: no update is lost. No interleaving makes these calls fail or block forever, and this holds for both supported lock types.",
  ["schedules", "histories", "configurations"],
  "All interleavings, at system-call granularity, of several processes doing locked reads, writes and read-modify-writes; flock and fcntl locking.",
  "The one locking test runs a single racy workload whose schedule is up to the kernel, writes near-identical sizes, never checks what was read, and never runs a read-modify-write or fcntl locks.",
  ["src/kvtree_io.c", "src/kvtree.c"],
  [("lock before access", "src/kvtree_io.c kvtree_open_with_lock"), ("unlock after access", "src/kvtree_io.c kvtree_close_with_unlock"), ("read-modify-write pair", "src/kvtree.c kvtree_lock_open_read, kvtree_write_close_unlock")])

prop("F04", "Every call releases the descriptors and locks it acquired",
  "After any read, write, locked or gather/scatter call returns, successfully or not, the process has the same open descriptors as before, and other processes can lock the file. The one exception is the open half of a read-modify-write pair, which hands exactly one locked descriptor to the caller; the closing half releases it and marks it closed. Descriptors passed in by the caller are left open.",
  ["histories", "fault_sequences"],
  "All sequences of file calls over existing, missing, unreadable, empty and damaged files, with and without injected system-call failures.",
  "The tests never count descriptors and never exercise the failing paths.",
  ["src/kvtree.c", "src/kvtree_io.c", "src/kvtree_mpi_io.c"],
  [("close on all paths", "src/kvtree.c kvtree_read_file, kvtree_write_file, kvtree_read_with_lock"), ("close with unlock", "src/kvtree_io.c kvtree_close_with_unlock")])

prop("F05", "Created files get the permissions the user's umask allows",
  "A file created by any write, lock or gather call has read and write permission for owner, group and others minus the process's umask, and never execute permission; an existing file keeps its permissions. No call changes the process's umask.",
  ["configurations", "inputs"],
  "All umask values, all file-creating calls, existing and new files.",
  "No test looks at permissions or the umask.",
  ["src/kvtree_io.c"], [("mode from umask", "src/kvtree_io.c kvtree_getmode")])

# ---------------------------------------------------------------- gather / scatter
prop("G01", "Serial gather files return every rank's tree, however they are split",
  "Writing a tree with one entry per rank as a gather file set and reading the set back on one process yields exactly the same entries, merged into the destination, for any number of ranks, any entries-per-file setting of at least 1, any input order of the ranks, and any path prefix that is a valid file name, however long. Other files in the same directory, including other gather sets whose prefix is similar or extends this one and left-over parts of an earlier set at the same prefix, are never mixed in.",
  ["inputs", "configurations"],
  "All numbers of ranks, per-rank trees, split sizes, prefixes (including ones with special characters) and neighbouring files.",
  "One test writes 3 ranks with one entry per file under the fixed name PREFIX and one fixed neighbour.",
  ["src/kvtree.c"], [("split", "src/kvtree.c kvtree_write_to_gather"), ("finding the parts", "src/kvtree.c kvtree_read_scatter_single")])

prop("G02", "Collective gather then scatter gives each rank its own tree back",
  "After a collective gather-write of one tree per process followed by a collective scatter-read with the same number of processes, every process gets success and exactly the tree it wrote, merged into its destination tree. This holds for any number of processes, any distribution of data sizes, with data spread over many files and several levels of index files, and for repeated writes to the same prefix.",
  ["inputs", "schedules", "histories", "configurations"],
  "All process counts, per-process trees and sizes (empty to several segment sizes), message timings, and rewrite histories.",
  "One test uses 3 processes and a few bytes, so there is always exactly one data file and one index file.",
  ["src/kvtree_mpi_io.c", "src/kvtree_mpi.c"],
  [("writer selection", "src/kvtree_mpi_io.c pick_writer"), ("index levels", "src/kvtree_mpi_io.c kvtree_write_gather_map, kvtree_read_scatter_map")],
  hook="segment size override, so that several index levels are reachable with few processes")

prop("G03", "Gather file sets have the documented layout on disk",
  "A gather file set written by either gather call consists of a root file at the prefix and part files named prefix.level.rank, where rank is the process that wrote the file and under which the level above lists it (for data files, one of the ranks it holds); root and index files carry their LEVEL (1 or more), the total number of RANKS, and for each reader rank the FILE suffix and OFFSET 0 of the next file; level-0 files carry LEVEL 0, RANKS and the trees of their ranks. Following the index from the root reaches every written level-0 file once, and every rank appears in exactly one of them with exactly its tree. A collective gather never puts much more than one segment (1 MB plus a single rank's tree) into a file, nor makes more data files than one plus the number of whole segments all trees would fill, and the serial one never more than its entries-per-file limit.",
  ["inputs", "configurations"],
  "All process counts, split sizes and data sizes, both gather calls.",
  "The tests read the sets only with the library's own readers and only in the single-file case.",
  ["src/kvtree_mpi_io.c", "src/kvtree.c", "doc/rst/users/gatherscatter.rst"],
  [("file naming and index", "src/kvtree_mpi_io.c kvtree_write_gather_map"), ("serial layout", "src/kvtree.c kvtree_write_to_gather")],
  hook="segment size override")

prop("G04", "Serial and collective gather files are interchangeable",
  "A file set written by the collective gather of N processes can be read by the serial reader, which returns every process's tree under its rank. A file set written by the serial gather for N ranks can be read by the collective scatter on N processes, which gives each process its own tree. Both directions agree with reading the set by the matching reader, also when an earlier set was written to the same prefix.",
  ["inputs", "configurations"],
  "All process counts, trees, data sizes and split sizes, both directions.",
  "No test mixes the two interfaces.",
  ["src/kvtree.c", "src/kvtree_mpi_io.c"], [("common layout", "src/kvtree.c kvtree_write_to_gather, kvtree_read_scatter_single; src/kvtree_mpi_io.c")])

prop("G05", "An incomplete or damaged gather set is rejected by every process",
  "If a file of a gather set is missing, unreadable, cut short or damaged, or the set was written for a different number of processes, then the collective scatter reports failure on all processes; the serial reader reports failure as well if a file is missing or damaged, or if the set does not have as many entries as processes. If any process cannot write its file, the collective gather reports failure on all processes. No process hangs, crashes or disagrees with the others about the outcome.",
  ["fault_sequences", "inputs", "schedules"],
  "All single-file damages and removals, all mismatched process counts, all placements of an open or write failure on one process.",
  "One test removes one part file for the serial reader; the collective failure paths are never run except for a NULL argument.",
  ["src/kvtree_mpi_io.c", "src/kvtree.c"], [("agreement", "src/kvtree_mpi_io.c kvtree_alltrue"), ("rank count checks", "src/kvtree_mpi_io.c kvtree_read_scatter; src/kvtree.c kvtree_read_scatter_single")],
  hook="segment size override")

# ---------------------------------------------------------------- MPI
prop("M01", "Sent and broadcast trees arrive equal, replacing the receiver's tree",
  "A tree sent, exchanged pairwise, or broadcast between processes arrives at each receiver equal to the sender's tree, and what the receiver's tree held before is gone. Successive transfers between the same processes arrive in order. This holds for every tree (empty and NULL sources included), process count, source, destination, root and communicator, including transfers to oneself and to or from nobody in the pairwise exchange.",
  ["inputs", "schedules", "histories"],
  "All trees, process counts, roots, partner patterns, communicators and message timings, and sequences of transfers.",
  "The tests use 3 processes on one communicator with a few fixed small trees, mostly sent from rank 0.",
  ["src/kvtree_mpi.c"], [("size then data", "src/kvtree_mpi.c kvtree_send, kvtree_recv, kvtree_sendrecv, kvtree_bcast")])

prop("M02", "The sparse exchange delivers every message to its destination only",
  "When every process calls the global exchange with a tree that maps destination ranks to messages, each process afterwards holds, under each source rank that addressed it, exactly the tree that source sent to it, and no other entries. This holds for any number of processes (power of two or not), any sparse or dense pattern including messages to oneself and empty messages, and for both fixed-direction variants as well as the one that chooses directions.",
  ["inputs", "schedules"],
  "All process counts, all destination patterns, all message trees, all message timings, both directions.",
  "The test runs 3 processes and a single pattern, so at most two of the logarithmically many steps ever run.",
  ["src/kvtree_mpi.c"], [("Bruck steps", "src/kvtree_mpi.c kvtree_exchange_direction_hops"), ("direction choice and early stop", "src/kvtree_mpi.c kvtree_exchange")])

prop("M03", "Queued messages to one rank accumulate and are copied at queueing time",
  "Queueing messages for exchange makes the queue hold, per destination rank, the merge of all messages queued for that rank, for any int rank. The queue holds copies: the queued message is not modified and may be changed or deleted afterwards without effect, and messages for one rank never affect another rank's. Exchanging the queue delivers exactly these merged messages.",
  ["histories", "inputs"],
  "All sequences of queueing calls over ranks and messages, with later changes to the messages, followed by an exchange.",
  "The tests queue at most one message per destination.",
  ["src/kvtree_mpi.c"], [("copy or merge", "src/kvtree_mpi.c kvtree_exchange_sendq")])

prop("M04", "Collectives finish under any message timing and stay in their communicator",
  "Every collective operation finishes on all processes for every legal timing and buffering of messages: blocking sends that wait for their receiver or not, any relative speed of processes, any delivery moment allowed by MPI. They use MPI legally: no message is left unreceived, received data always fits, no buffer is touched while a transfer is pending, all processes agree on every collective, and only processes of the given communicator take part, with ranks numbered in that communicator. Several operations in a row, or on different communicators at once, do not interfere.",
  ["schedules", "inputs"],
  "All message timings and buffering modes, process counts, communicators (subsets and permutations of the world), and sequences of operations.",
  "Open MPI on one machine buffers small messages and gives nearly the same timing every run; only the world communicator is used.",
  ["src/kvtree_mpi.c", "src/kvtree_mpi_io.c"], [("nonblocking pairwise exchange", "src/kvtree_mpi.c kvtree_sendrecv"), ("segmented scan", "src/kvtree_mpi_io.c pick_writer")],
  hook="segment size override")

# ---------------------------------------------------------------- printing
prop("P01", "Printed trees show every key once, at its depth, in order",
  "Printing a tree in tree mode writes one line per key, in iteration order, each key indented by the starting indent plus two spaces per level, so the output determines the tree. In key/value mode a key whose only value has nothing below it is shown as one line 'key = value' and everything else as in tree mode; the log variant shows the same lines as tree mode. This holds for every tree, depth and indent.",
  ["inputs"],
  "All trees without line breaks in keys, any depth, any starting indent, all modes.",
  "One sample file is printed in tree mode and compared with a stored text.",
  ["src/kvtree.c"], [("indent and recursion", "src/kvtree.c kvtree_print_mode, kvtree_elem_print, kvtree_log")])

prop("P02", "The print tool shows a file's tree and fails cleanly otherwise",
  "For every file holding a tree, the command-line print tool prints that tree in the requested mode (tree by default) and exits with status 0. For a missing, unreadable or damaged file, an unknown option or mode, or a wrong number of file arguments, it prints an error and exits with status 1; asking for help prints usage and exits 0. It never modifies the file and never dies from a signal.",
  ["inputs", "configurations"],
  "All files (valid, damaged, missing) and all command lines built from the documented options.",
  "One command line on one file is tested.",
  ["src/kvtree_print.c"], [("option parsing and exit codes", "src/kvtree_print.c main")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
