#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept readable here, one line per property there)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- files
prop("F01", "A word file is a persistent zero-filled array of fixed-width words",
 "For every word width from 1 to 8 bytes and every history of writes, reads, counts, syncs, closes and re-opens, reading a word returns the value last written at that position (any value that fits in the width, all bits preserved), or zero if the position lies below the highest written position and was never written. The count is always one more than the highest position ever written (or the pre-filled length if larger), reading at or beyond the count reports an error instead of inventing a value, and a read of the whole file returns the same sequence. Writing one word never changes another, and closing and re-opening changes nothing.",
 ["histories", "inputs", "configurations"],
 "All operation histories over one word file: any width 1..8, any order of append, overwrite, write past the end, read, count, sync, whole-file read, close/re-open, read-only open, and creation pre-filled with zeros; plain and memory-shadowed variants.",
 "The stable tests write three words for a handful of widths and read them back once; they never interleave appends with overwrites, sparse writes and re-opens, so buffering and counting errors that need a particular order are not reached.",
 ["wordfile/wordfile.go", "wordfile/memshadowedwordfile.go", "wordfile/concretewordfilecreator.go", "memfile/appendoptimized.go", "memfile/filewithsize.go"],
 [("little-endian encode into a scratch slice of the word width", "wordfile/wordfile.go WriteWordAt/ReadWordAt"),
  ("count maintained as max(offset+1)", "wordfile/wordfile.go WriteWordAt"),
  ("count recovered from the file size at open", "wordfile/concretewordfilecreator.go countWords")],
 [("wordCount", "number of words in the file", "wordfile/wordfile.go WordFile.wordCount"),
  ("shadow", "in-memory copy of all words", "wordfile/memshadowedwordfile.go MemShadowedWordFile.shadow")],
 ["ReadWordAt", "CountWords", "ReadWholeFileAsInt64s", "file length on disk after Close"])

prop("F02", "The append-optimised file is indistinguishable from a plain file",
 "Any sequence of positioned reads and writes, size queries, whole-file reads, syncs and closes on the append-optimised file returns the same bytes, counts, errors and end-of-file indications as the same sequence on a plain file. This holds whatever the sizes and order of appends, overwrites and writes beyond the end, including appends larger than any internal buffer, and for a file that already has content when opened. After a sync or a close the bytes on disk are exactly those of the plain file.",
 ["histories", "inputs"],
 "All histories of ReadAt/WriteAt/Size/ReadAll/Sync/Close with arbitrary offsets and lengths, on empty or pre-existing files.",
 "The one stable test of that package exercises the standard library's buffered writer, not this type; whether a buffered append is visible to a later read or is ordered with a later overwrite depends on the history.",
 ["memfile/appendoptimized.go", "memfile/filewithsize.go"],
 [("flush before any operation that is not an append", "memfile/appendoptimized.go ReadAt/WriteAt/Sync/Close"),
  ("next append offset tracking", "memfile/appendoptimized.go nextAppendOffset/totalSize")],
 [("bufferedWriter", "pending appended bytes", "memfile/appendoptimized.go"), ("totalSize", "logical size incl. pending bytes", "memfile/appendoptimized.go")],
 ["ReadAt", "ReadAll", "Size", "bytes on disk after Sync/Close"])

prop("F03", "Memory-held and memory-mapped files agree with the file on disk",
 "A file opened as a memory-held fixed-size copy, as a memory-mapped read-only view, or as a memory-shadowed word file answers every in-range read exactly as the file on disk would, and the read-only views never alter the file. Writes to the memory-held copy are visible to its later reads and, after close, to whoever opens the file next, with all other bytes and the file length unchanged. Reads that run past the end report an error or end-of-file, with any bytes they do deliver being the right ones.",
 ["histories", "inputs", "configurations"],
 "All file contents and lengths, all sequences of reads and writes within the file for each of the three variants, followed by close and re-open.",
 "No stable test opens a memory-mapped, memory-held or shadowed file at all.",
 ["memfile/fixedsize.go", "memfile/mmapfile.go", "wordfile/memshadowedwordfile.go", "wordfile/concretemmapcreator.go"],
 [("whole-file buffer written back on close", "memfile/fixedsize.go"), ("read-only mapping with EOF handling", "memfile/mmapfile.go ReadAt"),
  ("shadow loaded at open and updated on each write", "wordfile/memshadowedwordfile.go")],
 [("buffer", "memory-held contents", "memfile/fixedsize.go fixedSizeMemFile.buffer"), ("data", "mapped bytes", "memfile/mmapfile.go MmapReadOnly.data")],
 ["ReadAt", "ReadWordAt", "file bytes after Close"])

prop("F04", "A hash list keeps every 32-byte hash at its index",
 "In a list of 32-byte hashes, appending returns consecutive indices starting at the number of hashes already there, and reading an index returns exactly the hash appended (or last written) there, for any history of appends, overwrites, reads, syncs and re-opens. The count equals the number of hashes, and reading at or beyond the count is an error. Re-opening a list, including the per-chain lists of block, transaction and address hashes, and appending further continues after the last hash and leaves all earlier ones intact.",
 ["histories", "inputs"],
 "All histories of append/write/read/count/sync/close/re-open on a hash list file, and on the three phase-one lists of a chain.",
 "Stable tests only append to freshly created lists through other stores; none re-opens a hash list and continues, nor interleaves reads with appends.",
 ["wordfile/hashfile.go", "chainstorage/concretehasheschain.go", "chainstorage/concretehasheschainfactory.go", "memfile/appendoptimized.go"],
 [("append at hashCount, then increment", "wordfile/hashfile.go AppendHash/WriteHashAt"), ("hash count recovered when opening", "chainstorage/concretehasheschainfactory.go OpenHashesChain")],
 [("hashCount", "number of hashes", "wordfile/hashfile.go")], ["AppendHash", "ReadHashAt", "CountHashes"])

prop("F05", "Synced or closed data survives a crash",
 "Once a sync or close of a word file, hash list or growing-array map has returned without error, everything written before it is on disk: if the writer stops after any later operation, without closing, a process that opens the files afresh sees every such value unless it was itself overwritten later. Values written after the last sync may be missing or present after such a crash, but nothing else appears, and the files still open. A value that was synced and not touched since is never corrupted by the crash.",
 ["crash_points", "histories"],
 "All histories with a crash (the writer vanishes, nothing flushed) inserted at any point after any operation; the observer opens an independent copy of the files as they are on disk at that point.",
 "No test inspects the on-disk state of an open store; a sync that forgets to flush one of several files or buffers is invisible to tests that close properly.",
 ["memfile/appendoptimized.go", "wordfile/wordfile.go", "wordfile/hashfile.go", "intarrayarray/intarraymapstore.go", "intarrayarray/cachedintarraymapstore.go"],
 [("Sync flushes the append buffer", "memfile/appendoptimized.go Sync"), ("Sync saves latest and older files", "intarrayarray/intarraymapstore.go FlushFile")],
 [("bufferedWriter", "unsynced appends", "memfile/appendoptimized.go"), ("latest/older IntArrayArray", "unsaved arrays", "intarrayarray/intarraymapstore.go")],
 ["independent re-open of a copy of the directory"])

prop("F06", "What could not be stored is reported and never taken as stored",
 "When the disk refuses data or no more files can be opened, a word file, a hash list and a growing-array map say so: as long as every operation has reported success everything is as if there were no such limits, and a sync or close that succeeds means that all data is on disk. Once an operation of a word file or hash list has failed, the file still holds everything that was synced before, and nothing at a place where it was not written, also after later operations. A failed operation of a map loses nothing acknowledged before or after it - when a later flush, sync or read of the map succeeds, every acknowledged append is there in order - and what a flush has stored once stays readable from disk whatever fails later.",
 ["fault_sequences", "histories"],
 "All histories of a word file, hash list or map in which, at any points, files cease to be able to grow beyond any size, or no file can be opened, and begin to be able to again.",
 "No test runs with a full disk or without file descriptors; that an error is dropped, or that the bookkeeping is wrong after a failed write, can only be seen when one happens.",
 ["memfile/appendoptimized.go", "wordfile/wordfile.go", "wordfile/hashfile.go", "intarrayarray/intarraymapstore.go", "intarrayarray/cachedintarraymapstore.go", "intarrayarray/intarrayarray.go"],
 [("errors of writes and flushes handed on", "memfile/appendoptimized.go WriteAt/flush"), ("errors of saves and loads handed on", "intarrayarray/intarraymapstore.go AppendToArray"), ("a save replaces the file or does nothing", "intarrayarray/intarrayarray.go SaveFile")],
 [("totalSize", "where appending goes on", "memfile/appendoptimized.go"), ("latestFilepath/olderFilepath", "files held in memory", "intarrayarray/intarraymapstore.go")],
 ["results of operations under RLIMIT_FSIZE and RLIMIT_NOFILE", "independent re-open of a copy of the directory"])

# ---------------------------------------------------------------- maps and folders
prop("M01", "A growing-array map returns exactly the values appended to each key, in order",
 "For any sequence of appends over any keys, in any order of keys and with any number of values per key, reading a key's array returns exactly the values appended to that key so far in append order, and nothing appended to other keys. This holds across flushes, syncs and re-opens, for read-only openers after a sync, with or without caching, and when the keys jump between recent and older storage files in any pattern. A key to which nothing was appended reads as an empty array.",
 ["histories", "configurations", "inputs"],
 "All histories of append/get/flush/sync/re-open over any non-negative keys and any values that fit the element width; any digits-per-file, digits-per-folder and element width; cached and uncached.",
 "The stable test appends a few values into one in-memory array object; the file switching between recent and older files, folder creation and save/load of large arrays are never run by a stable test.",
 ["intarrayarray/intarraymapstore.go", "intarrayarray/cachedintarraymapstore.go", "intarrayarray/intarrayarray.go", "intarrayarray/varint.go", "intarrayarray/concretemapstorecreator.go"],
 [("save previous file before loading the next", "intarrayarray/intarraymapstore.go AppendToArray"), ("variable-length array counts", "intarrayarray/varint.go"), ("flush before read", "intarrayarray GetArray")],
 [("latestFilepath/olderFilepath", "which storage files are held in memory", "intarrayarray/intarraymapstore.go")],
 ["GetArray through the writer, a read-only opener and a fresh opener"])

prop("M02", "Numbered folders give each bucket of numbers its own path",
 "For any digits-per-file and digits-per-folder, two numbers map to the same folder and file name exactly when they belong to the same bucket of ten-to-the-digits-per-file consecutive numbers. The file number returned is the first number of that bucket, so it never decreases as the number grows. The mapping is a pure function of the number and the two settings.",
 ["inputs", "configurations"],
 "All pairs of non-negative numbers below 10^15 and all settings with 0..6 digits per file and 1..4 digits per folder.",
 "The package's tests check a few literal examples; distinctness of paths over all pairs is not checked.",
 ["numberedfolders/numberedfolders.go"],
 [("split the number into big digits, name every level with placeholders", "numberedfolders/numberedfolders.go NumberToFoldersAndFile")],
 [], ["NumberToFoldersAndFile"])

# ---------------------------------------------------------------- concurrency
prop("Q01", "The sequencer emits every item exactly once, in sequence, without deadlock",
 "Whatever order numbered items arrive in from any number of senders, the sequencer emits each exactly once in strictly consecutive order from the configured first number, as soon as its predecessors have been emitted, and closes its output after the last one when its input is closed. Whenever the number of items waiting out of order reaches the configured limit, the upstream gate holds callers back until the count drops below it again; below the limit the gate never blocks. A pipeline that passes the gate before handing items to its workers in order never deadlocks.",
 ["schedules", "histories", "configurations"],
 "All arrival permutations and all interleavings of any number of sender goroutines, any limit of at least one, any first number.",
 "The package has no tests; jobs that use it have no stable tests, and any run samples one schedule.",
 ["concurrency/sequencercontainer.go"],
 [("out-of-order items parked in a map keyed by sequence number", "concurrency/sequencercontainer.go worker"), ("condition variable gate on exactly reaching/leaving the limit", "concurrency/sequencercontainer.go setBloatedCondition/WaitForNotBloated")],
 [("theMap", "items waiting", "concurrency/sequencercontainer.go"), ("nextOut", "next number to emit", "concurrency/sequencercontainer.go"), ("bloated", "gate closed", "concurrency/sequencercontainer.go")],
 ["output channel", "WaitForNotBloated returning or blocking"])

prop("Q02", "The worker pool runs each task once and reports its own error",
 "Every task sent to the worker pool is processed exactly once, then given the error its own processing returned, then marked done, in that order. At most the configured number of tasks is in progress at any time, and that many can be in progress together. A failing task neither stops the pool nor affects any other task, and closing the input lets tasks already accepted finish.",
 ["schedules", "inputs"],
 "All interleavings of any number of workers and submitters, any mix of failing and succeeding tasks.",
 "The package has no tests.",
 ["concurrency/workerpool.go"],
 [("N goroutines receiving from one channel", "concurrency/workerpool.go worker")], [("InChan", "task queue", "concurrency/workerpool.go")],
 ["Process/SetError/Done calls made by the pool"])

prop("Q03", "Waiting for spare memory ends once memory is freed, and never before",
 "A caller waiting for spare memory goes on at once while the process's allocated heap is below the configured limit, and otherwise does not go on until it is below the limit. When memory has been freed and this has been announced, with the heap below the limit, every waiter goes on, however many there are; while the heap is at or above the limit none does. Only one caller frees memory at a time, and no waiter goes on between the beginning of a freeing and its announcement. Asking whether there is free memory says whether the heap is below the limit, and the last heap size is the size last looked at.",
 ["schedules", "histories"],
 "All histories of allocating, freeing, waiting and asking, by any number of waiters and freers, any limit.",
 "The one test of the package takes minutes, is not among the stable ones, prints without checking, and has one waiter.",
 ["memblocker/memblocker.go"],
 [("condition variable guarding a look at runtime.MemStats", "memblocker/memblocker.go WaitForSpareMemory"), ("the freer holds the lock while it frees", "memblocker/memblocker.go StartFreeingMem/MemoryWasFreed")],
 [("someBytesFreedCond", "who waits", "memblocker/memblocker.go"), ("lastHeapSize", "heap when last looked at", "memblocker/memblocker.go")],
 ["WaitForSpareMemory returning or blocking", "StartFreeingMem returning or blocking", "IsThereFreeMemory", "LastHeapSize"])

# ---------------------------------------------------------------- hash stores
prop("H01", "A classic hash store maps hashes to indices and back",
 "For any sequence of distinct or repeated hashes appended to a hash store, each append returns the next consecutive index, reading an index returns the hash appended there, the count equals the number of appends, and looking up any appended hash returns its first index while looking up a hash never appended returns 'not found' without an error. This holds for every parameter set the store accepts within its stated capacity, however many hashes share the same partial hash, and across sync, close and re-open. The basic, indexed and memory-indexed variants give the same answers for distinct hashes.",
 ["histories", "inputs", "configurations"],
 "All histories of append/lookup/read/count/sync/re-open with arbitrary hashes, including long runs of colliding partial hashes; partial-hash widths, entry widths and chunk sizes the constructor accepts.",
 "Stable tests append a fixed pseudo-random set to one or two parameter sets; long collision chains, chunk boundaries, entry-width limits and re-open in the middle of a chain are not reached.",
 ["indexedhashes/hashstore.go", "indexedhashes/basichashstore.go", "indexedhashes/memoryindexed.go", "indexedhashes/concretehashstorecreator.go", "indexedhashes/concretehashstorecreatormemory.go"],
 [("lookup table entry becomes a chunk link on collision", "indexedhashes/hashstore.go AppendHash"), ("linear search through linked chunks comparing full hashes", "indexedhashes/hashstore.go IndexOfHash")],
 [("lookup file", "per partial hash: empty, index+1 or chunk link", "indexedhashes/hashstore.go"), ("collision file", "chunks of indices", "indexedhashes/hashstore.go")],
 ["AppendHash", "IndexOfHash", "GetHashAtIndex", "CountHashes"])

prop("H02", "A pre-built hash index finds every hash, whatever the build resources",
 "After an index is built over a list of hashes, looking up any listed hash returns its first index in the list, looking up any other hash reports 'not found' even if it agrees with a listed hash in all the bits the index stores in compressed form, and reading an index returns that position's hash (a later position of a repeated hash may read as the all-zero hash instead). The answers are the same whatever the number of threads, the number of passes and the memory budget used for building, whichever of the two build methods is used, and whether the index is then opened from disk or held in memory. This holds for any number of hashes, including none, and for bins that overflow into separate files.",
 ["inputs", "configurations", "schedules"],
 "All hash lists (including duplicates, equal truncated hashes, sharply skewed bins and empty lists), all parameter sets produced by the parameter constructors, any threads >= 1 and any memory budget, all interleavings of the build's goroutines.",
 "The stable tests only check arithmetic on parameter values; no stable test builds an index.",
 ["indexedhashes3/multipasspreloader.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes3/singlepass.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/hashstore.go", "indexedhashes3/binfiles.go", "indexedhashes3/binbytes.go", "indexedhashes3/binentrybytes.go", "indexedhashes3/overflowfiles.go", "indexedhashes3/truncatedhash.go", "indexedhashes3/params.go", "indexedhashes3/hashstorecreator.go"],
 [("division of the 256-bit hash into bin, sort number and truncated remainder", "indexedhashes3 params and hash types"), ("sorted bins with binary search, spill into numbered overflow files", "indexedhashes3 bin files"), ("per-pass bin ranges", "indexedhashes3 preloaders")],
 [("BinStarts file", "fixed-size start of each bin", "indexedhashes3"), ("overflow files", "remaining entries of full bins", "indexedhashes3")],
 ["IndexOfHash", "GetHashAtIndex", "CountHashes"])

prop("H03", "The uniform hash store's index finds every hash",
 "After the uniform store's index has been built over a file of hashes, looking up any listed hash returns its index, looking up any other hash reports 'not found', reading an index returns that position's hash, and the count is the number of hashes. The answers do not depend on how many passes or how much memory the build used. Re-opening the store from its saved parameters gives the same answers. Indexing again over what an earlier indexing left gives the answers for the list as it is then.",
 ["inputs", "configurations"],
 "All lists of distinct hashes (including skewed ones that overflow a bucket), hash-count estimates above or below the real count, any bytes-per-pass budget that admits at least one bucket.",
 "The stable test runs one parameter set over one pseudo-random list.",
 ["indexedhashes/uniform.go", "indexedhashes/multipasspreloader.go", "indexedhashes/preloader.go"],
 [("address = first word of hash divided by a divider", "indexedhashes/uniform.go"), ("passes over address ranges", "indexedhashes/multipasspreloader.go")],
 [("bucket files", "numbered bucket contents", "indexedhashes/uniform.go")], ["IndexOfHash", "GetHashAtIndex", "CountHashes"])

prop("H04", "A hash index on a failing disk reports a failure or answers rightly",
 "While a read or an open of a file fails, a hash store that is asked for a hash's index, for the hash at an index or for the count, or that is opened again, reports a failure or gives the answer it would give otherwise: it never takes a hash that it holds for absent, nor returns another hash or another index. Once the disk works again, so does the store. An index that is built while files can not be written, made or read reports a failure or finds every hash afterwards.",
 ["fault_sequences", "histories", "configurations"],
 "All points at which an operation fails, once or from then on, in all histories of stores that are appended to, and of pre-built and uniform indexes built over any list, full bins with overflow files included.",
 "No test makes an operation fail; taking a file that could not be opened for one that is not there goes unnoticed until descriptors run out, and then is only seen as a wrong answer.",
 ["indexedhashes3/binfiles.go", "indexedhashes3/hashstore.go", "indexedhashes3/multipasspreloader.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes/hashstore.go", "indexedhashes/basichashstore.go", "indexedhashes/uniform.go"],
 [("only an overflow file that is not there counts as an empty one", "indexedhashes3/binfiles.go loadBinFromSlice"), ("each read's error is handed on", "indexedhashes/hashstore.go IndexOfHash"), ("parameters that could not be written are reported", "indexedhashes3/hashstorecreator.go")],
 [("overflow files", "remaining entries of full bins", "indexedhashes3"), ("faults", "which operations on which files fail", "outside")],
 ["IndexOfHash", "GetHashAtIndex", "CountHashes", "OpenHashStore", "IndexTheHashes"])

# ---------------------------------------------------------------- chain storage
prop("C01", "A stored chain reads back exactly as it was written",
 "For any sequence of blocks stored, whichever source they come from (blocks fetched from a node, or any other chain, a stored one included, that specifies its blocks, transactions, inputs and outputs by hash, by height or by their place in their parent) and whether the transaction index is kept by the block source or (transaction hashes being distinct) by the store itself, reading the store returns the same number of blocks, transactions, inputs and outputs, the same block and transaction hashes in order, each block's transactions and each transaction's inputs and outputs in order, every output value, and every extra numeric field that was asked to be stored. Following 'next' from the first block and transaction visits each one exactly once in order. Looking up a block or transaction by hash gives the same object as looking it up by its index (the first one when a transaction hash occurs twice, whose later occurrences may report the all-zero hash), and heights map to the blocks at those heights.",
 ["inputs", "histories", "configurations"],
 "All well-formed block sequences (any numbers of transactions, inputs and outputs per block, values up to 8 bytes, repeated transaction hashes, repeated addresses), any choice of supported extra fields, read through the same process or a read-only re-open, memory-held or not.",
 "The stable tests use one fixed four-block toy chain held in memory; no stable test writes or reads chain storage files.",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/concretereadablechain.go", "chainstorage/concretehasheschain.go", "chainstorage/block.go", "chainstorage/transaction.go", "chainstorage/handles.go", "transactionindexing/transactionindexing.go"],
 [("cumulative first-index files give each parent's children range", "chainstorage/concreteappendablechain.go AppendBlock, chainstorage/block.go, chainstorage/transaction.go"), ("one word file per extra field", "chainstorage/concreteappendablechainfactory.go")],
 [("firsttrans/firsttxi/firsttxo/values/...", "word files of the store", "chainstorage/concreteappendablechainfactory.go")],
 ["IBlockChain, IBlock, ITransaction, ITxi, ITxo of the re-opened store"])

prop("C02", "Spending, parent and address links are mutually consistent",
 "In a stored chain every non-coinbase input leads to exactly the output it spends, in the first transaction that has the hash it names. Every input and output leads back to the transaction that contains it and every transaction to its block. Every output leads to its address, each address lists exactly the outputs that pay it, once each in chain order, and looking an address up by its hash gives that address.",
 ["inputs", "histories", "configurations"],
 "All well-formed block sequences: any spending pattern (same-block, old, chains of spends, several outputs of one transaction), any pattern of address reuse including heavy reuse and addresses first seen in any order.",
 "No stable test exercises the link files; consistency between separately written files (some written concurrently) depends on the whole history.",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concretereadablechain.go", "chainstorage/address.go", "chainstorage/handles.go", "intarrayarray/intarraymapstore.go", "intarrayarray/cachedintarraymapstore.go"],
 [("source transaction and output number written per input", "chainstorage/concreteappendablechain.go"), ("parent files", "chainstorage/concreteappendablechain.go"), ("first output per address plus additional outputs map", "chainstorage/address.go")],
 [("parents, sources, firsttxo, additionaltxos", "link files", "chainstorage/concreteappendablechainfactory.go")],
 ["ITxi.SourceTxo", "ITxi.ParentTrans", "ITxo.ParentTrans", "ITransaction parents", "IAddress"])

prop("C03", "The parallel import gives the same store as a sequential one",
 "Importing a chain with any number of download threads, in any order of arrival of the downloaded blocks, through binary or JSON responses, with either of the two block-storage paths, and with any storage memory options, writes the same chain: every stored file other than the hash indexes is byte-identical to that of a single-threaded import, and the hash indexes answer alike. An import of one or more blocks ends without deadlock or loss when the requested number of blocks is reached, having stored exactly that many. A block response that arrives late or fails and is then retried makes no difference.",
 ["schedules", "configurations", "fault_sequences"],
 "All goroutine schedules and response delays, thread counts from 1 up, binary or JSON, both storage paths, any block count not beyond the chain's length, transient fetch failures within the retry budget.",
 "No stable test runs the import; ordering and loss errors depend on response timing that a test samples once.",
 ["jobs/intrinsicparallel.go", "corereader2/getparseblocksbinary.go", "corereader2/blockhashes.go", "corereader2/utils.go", "concurrency/sequencercontainer.go", "intrinsicobjectscri/chain.go", "intrinsicobjectschi/chain.go", "chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go"],
 [("worker threads followed by a sequencer", "jobs/intrinsicparallel.go"), ("retry loop around each fetch", "corereader2/getparseblocksbinary.go"), ("gate before handing out heights", "jobs/intrinsicparallel.go")],
 [("ordered block channel", "restored order", "jobs/intrinsicparallel.go")],
 ["files of the three-phase store after the import"])

prop("C04", "Binary and JSON blocks parse to the same, correct content",
 "For any valid block, parsing its binary form and parsing its JSON form give the same block: same block hash, previous hash, header fields, transactions, inputs (the coinbase's null input among them), outputs, values in satoshis, scripts, witness-independent transaction ids, sizes, virtual sizes and weights, and these equal what the block's definition says. Binary parsing consumes exactly the block's bytes, and parser storage reused from an earlier block never leaks into a later one. Truncated binary input is reported as an error, never returned as a block.",
 ["inputs", "histories"],
 "All valid blocks: with or without witness data, any count of transactions, inputs and outputs (each compact-size width), any script lengths, any 64-bit values up to the coin supply, sequences of blocks parsed with the same reused storage; all truncation points.",
 "The stable tests parse only the genesis block in each form.",
 ["intrinsicobjects/binaryblock.go", "intrinsicobjects/binarytransaction.go", "intrinsicobjects/jsonblock.go", "intrinsicobjects/jsontransaction.go", "intrinsicobjects/intrinsicblock.go", "intrinsicobjects/intrinsictransaction.go", "intrinsicobjects/multitransactionstorage.go"],
 [("txid computed over the witness-stripped serialisation", "intrinsicobjects/binarytransaction.go"), ("weight/vsize arithmetic", "intrinsicobjects/intrinsictransaction.go, intrinsicobjects/intrinsicblock.go"), ("satoshi conversion from decimal", "intrinsicobjects/jsontransaction.go")],
 [("storage", "reused slices between blocks", "intrinsicobjects/multitransactionstorage.go")], ["ParseBinaryBlock", "ParseJsonBlock"])

prop("C05", "Block hashes stream from genesis, in order and complete",
 "Streaming the first N block hashes yields exactly the N hashes from genesis upward, in chain order, once each, and then closes the stream, for every N not beyond the chain's tip and however the headers are split over requests. Fetching and parsing the streamed hashes yields, for every hash, the block with that hash tagged with its height, exactly once. When the node has no more headers the stream ends after its newest block's hash, and when a headers request fails it ends with an error after a correct beginning of the chain, never with invented hashes.",
 ["inputs", "fault_sequences", "schedules"],
 "All chain lengths and requested counts around header-batch boundaries, any thread count, header responses that are short because the chain ends, block fetches that fail transiently.",
 "No stable test covers it: it needs a node; batch boundaries occur only every 1000 blocks.",
 ["corereader2/blockhashes.go", "corereader2/getparseblocksbinary.go", "corereader2/utils.go"],
 [("1002-header windows overlapping so each hash comes from its successor's previous-hash field", "corereader2/blockhashes.go"), ("bounded retries", "corereader2/getparseblocksbinary.go")],
 [("next request hash", "start of next header batch", "corereader2")], ["hash channel", "block channel"])

prop("C06", "Block heights, chaining and derived values are right for every block",
 "Feeding blocks in order assigns height 0 to the genesis block and one more to each next block, accepts a block exactly when its previous-hash equals the hash of the block before it (a first block whose hash does not begin like the genesis block's is refused), and gives every block the median time defined by the protocol (the middle of the up to eleven most recent block times, including its own) and the difficulty given by its target, to the nearest whole number. First-transaction numbers per block are the running total of transactions. The two block-handling paths give identical results.",
 ["inputs", "histories"],
 "All sequences of block times (not monotonic) and targets, all chain lengths, spliced chains with a wrong link at any position.",
 "The stable tests look at the genesis block only, where the median is the block's own time.",
 ["intrinsicobjectscri/chain.go", "intrinsicobjectscri/block.go", "intrinsicobjectschi/chain.go", "intrinsicobjectschi/block.go", "intrinsicobjects/intrinsicblock.go"],
 [("window of recent block times", "intrinsicobjectscri/chain.go, intrinsicobjectschi/chain.go"), ("previous-hash comparison", "NextBlock in both")],
 [("latest block times", "window of up to 11 times", "intrinsicobjectscri/chain.go, intrinsicobjectschi/chain.go")],
 ["IBlock.NonEssentialInts", "InChan/NextBlock errors", "transaction indexer notifications"])

prop("C07", "Blocks stored and synced survive a stop at any later point",
 "Once a sync of the phase-one hash lists has returned without error, a process that starts then and finds the files as they are on disk sees exactly the hashes of the blocks appended before it, in all three lists. Once a sync of a chain being stored has returned without error, such a process finds complete every file of the stored chain - first-index files, inputs, outputs, values, addresses, parents, every extra number of blocks and transactions - for all the blocks appended before it, and each address that they pay lists exactly the outputs of those blocks that pay it. This holds for every sync, after any number of blocks, whatever follows it, also when lists have been closed and opened again in between.",
 ["crash_points", "histories", "inputs"],
 "All chains, and every block after which a sync can be made; the observer opens an independent copy of the files as they are on disk right after the sync returned.",
 "No test stores a chain in files, syncs one, or looks at files before they are closed; a sync that leaves out one of the chain's two dozen files is invisible to tests that close properly.",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "chainstorage/concreteappendablechainfactory.go", "memfile/appendoptimized.go", "wordfile/wordfile.go", "intarrayarray/intarraymapstore.go"],
 [("Sync flushes every file of the chain", "chainstorage/concreteappendablechain.go Sync"), ("Sync flushes the three lists", "chainstorage/concretehasheschain.go Sync")],
 [("buffered words", "written but not yet on disk", "memfile/appendoptimized.go")],
 ["files on disk after Sync", "IAddress of a read-only open of a copy of the files"])

# ---------------------------------------------------------------- wedding cakes
prop("C08", "An import that stopped midway can be made again and is never silently wrong",
 "When a phase of an import - gathering the hash lists, indexing them, storing the chain - has been killed, or the disk has refused data during it, making that phase again either gives exactly the files of an undisturbed import, or (never when indexing) it fails with an error and changes nothing, and once what was left is removed, making it again gives exactly those files. A phase that reports success has complete files, even when the disk refused data while it ran. All this holds after several failed attempts in a row, made with other numbers of threads and blocks, other sources of blocks and other interfaces.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "All chains; any point in time, and any request to the node, at which the process is killed; any size at which files cease to grow; any sequence of such attempts before the one that succeeds.",
 "No test imports a chain in phases, interrupts one or runs out of disk; what an interrupted phase leaves behind, and errors only seen by the last sync, are never looked at.",
 ["jobs/intrinsicparallel.go", "chainstorage/concreteappendablechain.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/concretehasheschain.go", "chainstorage/concretehasheschainfactory.go", "indexedhashes3/multipasspreloader.go", "intarrayarray/intarraymapstore.go"],
 [("refuse to create where something exists", "chainstorage/concreteappendablechainfactory.go CreateFromHashStores, concretehasheschainfactory.go Create"), ("errors of the last sync reported", "jobs/intrinsicparallel.go"), ("index files made anew", "indexedhashes3/multipasspreloader.go IndexTheHashes")],
 [("files of an unfinished phase", "what an earlier attempt left", "chainstorage")],
 ["files on disk after each attempt", "errors the phases return"])

prop("C09", "Reading a stored chain while its disk fails is loud and leaves nothing wrong",
 "Whatever is asked of a stored chain - a block, a transaction, an input, an output, an address, or any of them by its hash - while opening or reading any of its files fails, wholly or midway, once or from then on, the answer is the right one or an error is given (the process does not panic); it is never a wrong answer, wherever the interface has a way to say so. Once the disk is well again, the same chain, still open, gives the right answers.",
 ["fault_sequences", "inputs", "histories"],
 "All chains; any question; any read or open of any file failing, wholly or after some bytes, once or forever; any sequence of such questions on one open chain.",
 "No test makes a read of a stored chain fail; what the readers do with an error of a file, and what they keep of a failed read, is never looked at.",
 ["chainstorage/concretereadablechain.go", "chainstorage/block.go", "chainstorage/transaction.go", "chainstorage/address.go", "chainstorage/handles.go", "intarrayarray/intarraymapstore.go", "wordfile/wordfile.go"],
 [("errors of the files are passed on", "chainstorage/transaction.go, block.go, address.go"), ("files loaded whole or not at all", "intarrayarray")],
 [("populated addresses and cached arrays", "what a failed read left in memory", "chainstorage, intarrayarray")],
 ["answers and errors of the readable chain while operations on files fail, and afterwards"])

prop("W01", "The wedding-cake store finds every hash across tiers, bakes and re-opens",
 "For any sequence of hashes appended to the layered hash store, every append returns the next consecutive index, looking up any appended hash returns the first index it was appended at (a repeated hash gets an index of its own but is found at its first one), and reading an index returns the hash appended there, whether the hash still sits in the top tier or has been baked into a lower one. This holds before, during and after the top tier fills up and is baked, and after closing and re-opening at any point. Looking up a hash that was never appended reports 'not found', and empty stores report nothing found.",
 ["histories", "inputs", "crash_points"],
 "All histories of append/lookup/read/sync/close/re-open crossing up to several bakes of the top tier (65535 hashes each) into the first lower tier; any hash distributions.",
 "The stable tests fill one or three tiers with one fixed pseudo-random sequence and mostly look up at the end; re-open at other moments, skewed hashes and mid-range indices are not sampled.",
 ["weddingcakeback/tiertop.go", "weddingcakeback/tierbelow.go", "weddingcakeback/donutforestwrite.go", "weddingcakeback/donutforestread.go", "weddingcakeback/singletree.go", "weddingcakefront/cake.go"],
 [("in-memory map plus appended hash file in the top tier", "weddingcakeback/tiertop.go"), ("baking a full top tier into a tree forest", "weddingcakeback/donutforestwrite.go"), ("tree descent and full-hash check in lower tiers", "weddingcakeback/tierbelow.go")],
 [("firstGlobalPresentationIndex", "index of the top tier's first hash", "weddingcakeback/tiertop.go")],
 ["IndexOfHash", "GetHashAtIndex", "AppendHash"])

prop("W02", "Tree lookups never miss a hash that was put in the tree",
 "A lookup tree generated from any list of distinct hashes returns, for each of them, the presentation index it was given. For a hash not in the list it returns 'not found' unless that hash agrees with a listed one at every byte the tree examines on its path and at the first of the unexamined bytes, as many as the leaf keeps for reassurance (a tree whose leaves keep the whole hash never confuses two hashes). The number of leaves visited equals the number of hashes, and the empty tree finds nothing.",
 ["inputs", "configurations"],
 "All lists of distinct hashes of any supported length (including ones sharing long prefixes or differing in a single byte), any number of reassurance bytes, any prefix length; both tree implementations.",
 "Stable tests look up one pseudo-random list; adversarially similar hashes and extreme fan-outs are not sampled.",
 ["weddingcakeback/singletree.go", "weddingcake/shallowtree.go"],
 [("split on the byte with the highest entropy", "weddingcake*/ *tree.go"), ("reassurance bytes in leaves", "weddingcakeback/singletree.go")],
 [("node slots", "empty, leaf or child", "weddingcakeback/singletree.go")], ["LookupHash", "CountLeaves", "CountNodes"])

prop("W03", "A serialised chunk answers exactly like the tree it came from",
 "Serialising a tree of hashes into a chunk and looking a hash up in the chunk gives the hash's presentation index for every hash put in, for every node format the layout chooses and any presentation offset, and writing the chunk to disk and mapping it back changes no answer. The bytes of a node are those of the documented layouts (leaf, tiny, medium and full nodes, ids little-endian in the chosen width). The small top store of that design returns the index of each appended hash, the hash at each index and the count, across re-opens.",
 ["inputs", "configurations", "histories"],
 "All lists of distinct hashes up to thousands of entries with any fan-out distribution, any id width and reassurance setting, any first presentation index.",
 "Stable tests serialise a few pseudo-random lists; node formats only chosen for particular fan-outs, and id-width boundaries, are reached by chance.",
 ["weddingcake/chunk.go", "weddingcake/chunklevel.go", "weddingcake/nodeformat.go", "weddingcake/chunkfiles.go", "weddingcake/tierzero.go"],
 [("leaf/tiny/medium/full node formats", "weddingcake/chunklevel.go"), ("id codecs", "weddingcake id types")],
 [("levels", "serialised node bytes per level", "weddingcake/chunk.go")], ["Chunk.LookupHash", "TierZero"])

prop("W04", "Baking a tier keeps every hash, in a forest of the next tier",
 "Baking a full tier makes one forest of trees at the end of the next tier which holds exactly the tier's hashes, and a tier that reaches its quota of forests is itself baked at once; nothing is lost, moved or found twice, and tiers further below are left as they were. Afterwards each tier finds each of its hashes at its first index in the tier, gives the hash at each of its indices, and finds nothing else, before and after re-opening from the files. The files are as documented: a jump table entry per prefix (0 where no hash has it), per level an index of node groups and the nodes group by group across all trees of the forest, first index and part lengths per forest, and all hashes in order.",
 ["histories", "inputs", "configurations"],
 "All sequences of bakes of tiers of any size (a few to hundreds of hashes, repeated ones included) into any lower tier, with any quotas, id widths, reassurance settings, number of node formats per level and first index.",
 "The stable tests bake tiers of 65535 evenly spread hashes into the first lower tier only; forests of several trees, quotas that cascade, uneven hashes and other node formats are not sampled.",
 ["weddingcakeback/donutforestwrite.go", "weddingcakeback/donutforestread.go", "weddingcakeback/tierbelow.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/bakingdesign.go", "weddingcakeback/bakingdesigner.go", "weddingcakeback/DonutForest.md"],
 [("bucket per prefix, tree per bucket, nodes laid out by group", "weddingcakeback/donutforestwrite.go Write"),
  ("node groups merged down to the configured number of formats", "weddingcakeback/bakingdesigner.go DesignTheDesign"),
  ("leaves of all forests collected for the next bake", "weddingcakeback/tierbelowsource.go GetHashesAtIndex"),
  ("jump table, descent, whole-hash check", "weddingcakeback/tierbelow.go TryIndexOfHash")],
 [("DonutForestsInfo", "first index and parts of each forest", "weddingcakeback/tierbelow.go"), ("jump tables", "root of the tree of each prefix", "Tier<n>/DonutForestsJumpTables.bin")],
 ["DonutForestWrite.Write", "TierBelow.TryIndexOfHash", "TierBelow.TryGetHashAtIndex", "files of a tier"])

prop("W05", "Baking on a full disk: success means that everything was baked",
 "A bake may fail when a file can not grow or no file can be opened, at any point of it, and then it reports a failure. If it reports success, everything is as a bake leaves it: every hash of the tier is in the forest, in the hashes file and found by each question, cascades into lower tiers included. The same goes for opening the tiers again: it fails with a report, or they answer everything.",
 ["fault_sequences", "histories", "configurations"],
 "All points at which the disk fills up or descriptors run out, in all bakes of histories of bakes into any tier, with any quotas, id widths and shapes of trees.",
 "No test makes a write or an open fail; a bake writes some hundred pieces into some dozens of files, and ignoring the failure of a single one loses hashes only then.",
 ["weddingcakeback/donutforestwrite.go", "weddingcakeback/tierbelow.go", "weddingcakeback/tierbelowsource.go"],
 [("jump table, index parts, nodes, hashes, info: each write's error is handed on", "weddingcakeback/donutforestwrite.go Write"),
  ("hashes copied from the tier above", "weddingcakeback/tierbelowsource.go AppendHashesFile"),
  ("level files looked for until one is missing; fewer than the info file says is refused", "weddingcakeback/tierbelow.go mmapLevelFiles, readInfoFile")],
 [("jump tables", "root of the tree of each prefix", "Tier<n>/DonutForestsJumpTables.bin"), ("limits", "how far files may grow, how many may be open", "outside")],
 ["DonutForestWrite.Write", "TierBelow.Open", "TierBelow.TryIndexOfHash"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
