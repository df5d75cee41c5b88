#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A burned disc returns every file's exact source bytes",
  "For any set of files burned into a disc, opening any file by its path on the loaded disc yields exactly the bytes of the object that was given for that path, and exactly the declared number of them. This holds whatever the object addresses look like (shared prefixes, one object used for several paths, absolute or relative to the disc's own location), for every file size including zero, and in every cache mode.",
  ["inputs", "configurations"], "all file trees, file sizes, object address sets, disc locations and cache modes",
  "The existing tests burn no disc and load none; the address table is only exercised by hand.",
  ["pkg/vdisc/builder.go", "pkg/vdisc/trie.go", "pkg/vdisc/loader.go", "pkg/vdisc/extent.go", "pkg/iso9660/volume.go"],
  [("address trie built and inverted at burn time, looked up at load time", "pkg/vdisc/trie.go, pkg/vdisc/builder.go Build"),
   ("address resolution against the disc's own location", "pkg/vdisc/extent.go URL")],
  observe_at=["Walker.Open and File.ReadAt on a loaded disc", "VDisc.ExtentURL"], hook_needed=False)
p("C02", "The disc image is one consistent read-only block of bytes",
  "Every read of a loaded disc's image at any offset and length returns exactly the bytes of the filesystem header followed by each file's data in its allotted place, with zero bytes filling the unused tail of each file's last 2048-byte block, and its size is the sum of those parts. Concurrent readers of one image never affect each other's bytes.",
  ["inputs", "schedules"], "all offsets and lengths, all file size patterns, all interleavings of concurrent readers",
  "No test reads an image; boundary-crossing offsets and concurrent readers are not sampled.",
  ["pkg/vdisc/loader.go", "pkg/storage/concat.go", "pkg/vdisc/extent.go", "pkg/storage/zero/object.go"],
  [("image assembled from header, extents and zero padding", "pkg/vdisc/loader.go Image"), ("part search and split of reads", "pkg/storage/concat.go ReadAt")],
  observe_at=["VDisc.Image().ReadAt"], hook_needed=False)
p("C03", "Directory tree, attributes and symlinks survive burning",
  "Walking a loaded disc yields exactly the files, directories and symbolic links that were added, each once, at their cleaned paths, with the declared size, read-only permissions, the time of the burn as modification time, unique inode numbers, directory link counts of two plus the number of subdirectories, and link targets equal to the cleaned target text. The resulting tree does not depend on the order in which entries were added, and following links by path reaches the object the target names.",
  ["inputs"], "all trees: depths, fan-outs, name lengths, name characters, link targets, insertion orders",
  "walk_test and volume_test use one small fixed tree.",
  ["pkg/iso9660/volume.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/walk.go", "pkg/iso9660/rrip", "pkg/iso9660/symlinkinode.go"],
  [("name and target fields split over several system-use entries", "pkg/iso9660/rrip/nm.go, pkg/iso9660/rrip/sl.go"), ("recursive walk", "pkg/iso9660/walk.go Walk")],
  observe_at=["Walker.Walk/Lstat/Stat/ReadDir/Open"], hook_needed=False)
p("C04", "Written images are well-formed ISO 9660 with Rock Ridge",
  "Every image header the builder writes can be decoded by an independent ISO 9660 and Rock Ridge reader: volume size, both-byte-order fields and path tables agree with each other and with the directory hierarchy, recorded times are those of the burn, no directory record crosses a 2048-byte sector, records in a directory are sorted by identifier and have unique identifiers, continuation areas lie inside the image, all extents are disjoint and inside the volume, and files above the single-extent limit are stored as consecutive extents that add up to the declared size. The number of header bytes written equals the start of the first file's data.",
  ["inputs"], "all trees and file sizes (including multi-extent files and volumes beyond 4 GiB) and all volume identifiers",
  "The tests decode with the same code that encodes and only for one tree.",
  ["pkg/iso9660/volume.go", "pkg/iso9660/pvd.go", "pkg/iso9660/pathtable.go", "pkg/iso9660/directory.go", "pkg/iso9660/directoryrecord.go", "pkg/iso9660/continuation.go", "pkg/iso9660/sectorallocator.go"],
  [("sector allocation and layout", "pkg/iso9660/volume.go finalize, pkg/iso9660/sectorallocator.go"), ("directory record packing and continuation areas", "pkg/iso9660/directory.go")],
  observe_at=["bytes produced by Volume.WriteMetadataTo and by a burn"], hook_needed=False)
p("C05", "Name rules are enforced and rejected additions change nothing",
  "Adding a file or link succeeds exactly when every path component is allowed by the volume's naming rule and no component collides with an existing entry of another kind or with an existing leaf; a successful addition is visible at its path. A rejected addition returns an error, and afterwards every earlier entry is still present unchanged and no leaf exists that was not successfully added (directories made on its way may remain).",
  ["inputs", "histories"], "all sequences of additions with valid, invalid and colliding names, for each of the three naming rules",
  "Tests only add valid, distinct names.",
  ["pkg/iso9660/namevalidator.go", "pkg/iso9660/volume.go", "pkg/iso9660/directoryinode.go"],
  [("per-volume name validators", "pkg/iso9660/namevalidator.go"), ("insertion into the tree", "pkg/iso9660/volume.go addLeaf, pkg/iso9660/directoryinode.go AddChild")],
  observe_at=["Volume.AddFile/AddSymlink results, then the decoded image"], hook_needed=False)
p("C06", "Path lookups do not depend on lookup history or concurrency",
  "The answer to looking up, statting, opening or listing a path on a disc depends only on the path and the disc: it is the same whatever other lookups the same reader served before, in whatever order and from however many threads at once. Looking through a non-directory component fails, and a missing name reports that it does not exist, on the first and on every later attempt.",
  ["histories", "schedules"], "all sequences and interleavings of lookups, listings and walks over one shared reader",
  "Tests issue a few lookups on a fresh reader each.",
  ["pkg/iso9660/walk.go"],
  [("lookup cache shared by stat, lstat, listing and walk", "pkg/iso9660/walk.go lstat, ReadDir")],
  observe_at=["results of Walker methods"], hook_needed=False)
p("C07", "Directory iteration is resumable and never hides read errors",
  "Listing a directory can be stopped after any entry and resumed from the position reported for that entry, and the pieces together give exactly the entries of one uninterrupted listing. If the underlying image fails to read anywhere during an iteration, lookup or walk, the caller gets an error and never a silently shortened listing, and the iteration always terminates. An error returned by the function that a caller passes to a walk ends the walk there and is returned to the caller.",
  ["inputs", "fault_sequences"], "all directories (any number of sectors, entries, continuation areas), all resume points, a read failure at any point",
  "Tests list one-sector directories without faults.",
  ["pkg/iso9660/directory.go", "pkg/iso9660/directoryrecord.go", "pkg/iso9660/walk.go", "pkg/iso9660/ioutil.go"],
  [("record iterator with sector skipping", "pkg/iso9660/directory.go Next"), ("resume offset", "pkg/iso9660/walk.go NewReadDirIterator")],
  observe_at=["ReadDirIterator, DirectoryRecordIterator, Walker over a fault-injecting reader"], hook_needed=False)
p("C08", "The memory block cache never changes what a read returns",
  "With the in-memory cache every concurrent read returns the same bytes, and the same number of them, as reading the object directly, for any block size, number of buffers and read-ahead setting, including when there are far more blocks and objects than buffers. Objects with different addresses never receive each other's bytes, views of one address with different lengths each read as their own prefix, reads always complete, and there is no data race.",
  ["schedules", "inputs", "configurations"], "all interleavings of readers over any objects, offsets, block sizes, buffer counts and read-ahead settings",
  "mem_test covers one object and a few sequential reads.",
  ["pkg/caching/mem.go", "pkg/caching/cache.go", "pkg/caching/readahead.go"],
  [("buffer recycling between keys", "pkg/caching/mem.go"), ("block splitting", "pkg/caching/cache.go ReadAt")],
  observe_at=["Object.ReadAt through Cache.WithCaching; reads of the backing object"], hook_needed=False)
p("C09", "The disk block cache never changes what a read returns",
  "With the on-disk cache, any number of threads and processes sharing one cache directory read the same bytes, and the same number of them, as reading the object directly, while entries are being written, evicted by garbage collection, or checked at the same time. Reads always complete, and there is no data race.",
  ["schedules", "configurations"], "all interleavings of readers in several threads and processes with eviction and integrity checks, all block sizes and read-ahead settings",
  "disk_test runs one process; eviction concurrent with reads is not exercised.",
  ["pkg/caching/disk.go", "pkg/caching/cache.go", "pkg/storage/file"],
  [("lock, recheck, fill, asynchronous write-back", "pkg/caching/disk.go"), ("eviction", "pkg/caching/disk.go Gc")],
  observe_at=["Object.ReadAt through Cache.WithCaching, in several processes"], hook_needed=False)
p("C10", "Failed or short source reads never become cached data",
  "When reading the backing object fails or returns too few bytes, the reader that needed those bytes gets an error instead of data, and no later reader ever receives bytes that the source did not successfully deliver, nor an unexplained end of file. Once the source works again, later reads succeed with the right bytes, whether the failure happened in a direct read or in read-ahead.",
  ["fault_sequences", "schedules"], "all placements of source failures (errors, short reads, garbage written before an error) among concurrent reads, both cache kinds",
  "The tests inject no source failure.",
  ["pkg/caching/mem.go", "pkg/caching/disk.go", "pkg/caching/readahead.go"],
  [("fill error paths", "pkg/caching/mem.go FillAndCopyAt, Fill; pkg/caching/disk.go fill")],
  observe_at=["reads through the cache over a fault-injecting object"], hook_needed=False)
p("C11", "A crash while filling the disk cache leaves only valid entries",
  "If a process using the disk cache is killed at any instant, or a cache file cannot be created, written, tagged or renamed, then afterwards every entry visible in the cache directory is complete and passes the integrity check, and every other process can still read all objects correctly and refill the missing blocks. A failure to store an entry never makes the read that triggered it fail.",
  ["crash_points", "fault_sequences"], "a kill at any system call of the fill path, and a failure of any storage operation of the write-back",
  "No test kills a process or fails a cache write.",
  ["pkg/caching/disk.go", "pkg/storage/file"],
  [("temporary file, tags, then rename", "pkg/caching/disk.go, pkg/storage/file/writer.go"), ("lock released by process death", "pkg/storage/file/lock.go")],
  observe_at=["cache directory after the kill, CheckIntegrity, reads by a second process"], hook_needed=False)
p("C12", "Read-ahead stays within the object, the window and its budget",
  "Read-ahead only ever requests blocks of the object being read that start inside it and lie at most the configured number of blocks beyond the block of some read already made, never has more requests outstanding than the configured budget, and makes none at all when it is disabled. Every request ends with its resources released, so that later reads can be read ahead again, and a slow or failing read-ahead never delays or fails the read that caused it.",
  ["histories", "schedules", "configurations"], "all read sequences from concurrent readers, all windows, budgets, block sizes and object sizes",
  "readahead_test drives single sequential updates with mocks.",
  ["pkg/caching/readahead.go", "pkg/caching/cache.go"],
  [("window, damping and token accounting", "pkg/caching/readahead.go Update")],
  observe_at=["slices requested and read through an instrumented slicer"], hook_needed=False)
p("C13", "Concatenated and sliced objects read like the bytes they describe",
  "A slice of an object reads as exactly the given byte range and a concatenation reads as its parts in order, through positioned reads, sequential reads and seeks, for any number and sizes of parts including empty ones, at any nesting, and the concurrent variant gives the same results. Reads that reach the end return the available bytes, reads at or after it report end of file, and an error of any part that was needed is reported and never replaced by data. Closing the object closes every part, also when closing one of them fails.",
  ["inputs", "schedules", "fault_sequences"], "all part sizes and nestings, all offsets and lengths, all read and seek sequences, a failing part anywhere",
  "concat_test uses a handful of equal parts.",
  ["pkg/storage/concat.go", "pkg/storage/storage.go", "pkg/interval/interval.go"],
  [("part search and interval intersection", "pkg/storage/concat.go ReadAt")],
  observe_at=["ReadAt, Read, Seek on composed objects"], hook_needed=False)
p("C14", "Object writes are all-or-nothing",
  "A new object becomes visible under its address only when its writer commits successfully, and then with exactly the bytes written, which a file has handed to stable storage by then, replacing any earlier content at once; readers concurrent with the commit see either the old or the new bytes in full. After an abort, a failed commit or a kill at any instant before the commit, the address still has its earlier content or still does not exist, an abort after a commit does not undo it, and a commit after an abort fails. Once every writer has committed or aborted, no other files are left behind.",
  ["crash_points", "schedules", "histories"], "all write/commit/abort sequences, kills at any system call, concurrent readers and writers of one address",
  "No test interrupts a writer or reads during a commit.",
  ["pkg/storage/file", "pkg/storage/ram", "pkg/storage/data", "pkg/storage/driver"],
  [("temporary file and rename", "pkg/storage/file/writer.go"), ("writer states", "pkg/storage/ram/writer.go, pkg/storage/data/writer.go")],
  observe_at=["Open/Stat/Readdir of the address during and after writing"], hook_needed=False)
p("C15", "Storage locks exclude each other, across processes and deaths",
  "An exclusive lock on an address is never held together with any other lock on it, by threads or by processes, while shared locks may be held together. A waiting locker gets the lock once it becomes free, including when its holder's process is killed.",
  ["schedules", "crash_points"], "all interleavings of lockers in threads and processes, and kills of the holder",
  "No test takes a lock from two processes.",
  ["pkg/storage/file", "pkg/storage/storage.go"],
  [("advisory file lock", "pkg/storage/file/lock.go")],
  observe_at=["Lock/RLock return and Unlock call times, a shared witness file"], hook_needed=False)
p("C16", "A tree visit reports each file once and never hides an error",
  "Visiting a tree of objects hands every directory under the root that the visitor admits over exactly once with its complete listing, whatever the traversal order and concurrency limit, never has more directory listings in progress than that limit, and leaves no work behind. If a listing fails, the visitor asks to stop with an error, or the context is cancelled, the visit returns that error and never success, and always returns.",
  ["schedules", "inputs", "fault_sequences"], "all trees, interleavings, concurrency limits, filters, and failures or cancellations at any point",
  "The tests visit a few small fixed trees without failures.",
  ["pkg/storage/driver/visitor.go", "pkg/storage/storage.go"],
  [("worker pool and path queue", "pkg/storage/driver/visitor.go")],
  observe_at=["Readdir calls of an instrumented driver, visitor callbacks, return value"], hook_needed=False)
p("C17", "HTTP reads return exactly the requested bytes or an error",
  "Reading an object over HTTP at any offset and length returns exactly the object's bytes in that range, end of file at or after its size, or an error. No answer of a server (wrong status, wrong or missing or absurd range headers, other lengths, truncated or stalled bodies, ignored range, shrunken object) is ever turned into wrong or missing bytes without an error, or into a crash.",
  ["inputs", "fault_sequences", "schedules"], "all offsets and lengths, all server answers, concurrent readers",
  "No test reads through HTTP.",
  ["pkg/storage/http/object.go", "pkg/storage/http/finfo.go", "pkg/httputil/range.go"],
  [("range request and answer validation", "pkg/storage/http/object.go ReadAt")],
  observe_at=["Object.ReadAt against a scripted loopback server"], hook_needed=False)
p("C18", "HTTP retries are faithful, selective and bounded",
  "A request answered with a server error, a rate-limit answer or a connection failure is sent again with the same method, address, headers and body, after a wait of the configured length, until one is answered otherwise or the time allowance is used up, in which case the last outcome is returned; a body that cannot be produced again is sent at most once. Any other answer is returned as is after a single attempt, no request is sent after the caller has cancelled it, and abandoned answers do not hold connections.",
  ["fault_sequences", "schedules"], "all sequences of answers and failures, with and without bodies, cancellations at any point",
  "No test covers retries.",
  ["pkg/httputil/retry.go"],
  [("retry loop with exponential delay", "pkg/httputil/retry.go RoundTrip")],
  observe_at=["requests received by the wrapped transport, final result"], hook_needed=False)
p("C19", "Round-robin transport spreads requests evenly and survives eviction",
  "Requests to one host name go in turn to each of the (distinct) addresses the name resolves to, so that any run of consecutive requests as long as the address list reaches every address once, on the port of the request, also under concurrency. Any number of different hosts can be used with a bounded host table without a crash, and a host that does not resolve yields an error.",
  ["schedules", "inputs", "configurations"], "all numbers of hosts, addresses (IPv4 and IPv6), table sizes and interleavings",
  "rr_test uses one host and sequential requests.",
  ["pkg/httputil/rr.go"],
  [("per-host rotation", "pkg/httputil/rr.go RoundTrip"), ("least-recently-used eviction", "pkg/httputil/rr.go NewRoundRobinTransport")],
  observe_at=["dial function and resolver supplied by the harness"], hook_needed=False)
p("C20", "An S3 upload stores exactly the written bytes or nothing",
  "When an upload is committed successfully the store holds one object with exactly the bytes written, whatever their number and whether they went as one request or in parts, and the reported address names the stored version. If any request fails or the upload is aborted before it is committed, the commit does not report success, nothing is published, and a started multi-part upload is aborted.",
  ["inputs", "fault_sequences", "schedules"], "all data sizes and write patterns, part interleavings, and a failure of any request",
  "No test uploads.",
  ["pkg/s3util/uploader.go", "pkg/storage/s3/writer.go"],
  [("part queue and completion", "pkg/s3util/uploader.go"), ("pipe between writer and uploader", "pkg/storage/s3/writer.go")],
  observe_at=["requests received by a simulated store, result of Commit"], hook_needed=False)
p("C21", "Bucket listings are complete across pages",
  "Listing a bucket directory passes every entry of every page to the caller exactly once and in order, continuing from exactly the position the store reported, for any number of pages and any key characters, and stops at the last page. A missing directory, a bad answer on any page (a page that says it continues without saying where included), or an error from the caller ends the listing with that error. Listing a directory through the store drivers gives the latest version of each object in it and each subdirectory, once.",
  ["inputs", "fault_sequences"], "all listings: page counts, keys, versions, markers, and a failure on any page",
  "No test lists a bucket.",
  ["pkg/s3util/listbucket.go"],
  [("page loop with markers", "pkg/s3util/listbucket.go ListBucket")],
  observe_at=["requests received by a simulated store, callback arguments"], hook_needed=False)
p("C22", "The mounted filesystem shows exactly the disc",
  "Through the filesystem operations served to the kernel (lookup, attributes, directory listing in any buffer that holds an entry and from any offset a listing gave, file reads at any offset and length, link reading), a client sees exactly the names, types, sizes, modes, inode numbers, link targets and bytes of the disc. Unknown names, unknown inodes and handles and read failures yield error codes, never data, a crash or a hang.",
  ["inputs", "histories", "fault_sequences"], "all discs, all operation sequences, buffer sizes and offsets, failures of the disc's reads",
  "There is no test of the filesystem server.",
  ["pkg/isofuse/isofuse.go", "pkg/isofuse/dir.go", "pkg/isofuse/file.go", "pkg/isofuse/cache.go"],
  [("lookup cache and inode table", "pkg/isofuse/isofuse.go"), ("directory handle positions", "pkg/isofuse/dir.go")],
  observe_at=["filesystem operation structures filled by the server"], hook_needed=False)
p("C23", "Mounted inodes and handles live exactly as long as the kernel holds them",
  "An inode stays usable from its first lookup until as many lookups as were answered have been forgotten, and the root always; an open file or directory handle stays usable, and refers to the same file, until it is released, whatever else happens concurrently. Live handles are unique, released ones are rejected, and any concurrent mix of operations gives the same answers as if they ran one after another, with no data race.",
  ["schedules", "histories"], "all interleavings of lookups, forgets, opens, reads and releases",
  "There is no test of the filesystem server.",
  ["pkg/isofuse/isofuse.go"],
  [("reference counts and handle tables", "pkg/isofuse/isofuse.go")],
  observe_at=["results of concurrent operations"], hook_needed=False)
p("C24", "The block device answers every command exactly once",
  "Every command the kernel queues to the block device is handled exactly once and answered exactly once with the answer for that command, with no more handled at a time than the pool size, each with a buffer no other command is using meanwhile. When the command stream ends, all outstanding commands are answered before the answer stream is closed, and closing the pool ends its workers.",
  ["schedules", "configurations"], "all command counts, pool sizes, handler durations, several devices on one pool, and shutdown at any point",
  "cmdpool_test runs one uniform load.",
  ["pkg/blockdev/cmdpool.go"],
  [("worker pool", "pkg/blockdev/cmdpool.go")],
  observe_at=["handler calls and response channel"], hook_needed=False)
p("C25", "The command line gives the same disc contents in every cache mode",
  "Burning a listing with the command-line tool and then listing, inspecting, printing the tree of, and copying files out of the disc gives exactly the files of the listing, their sizes and bytes, in every cache mode and on repeated runs over a warm cache. A copy, listing or burn whose disc, path or sources cannot be read, or whose output file cannot be created or (for a copy) written, exits with a failure status.",
  ["inputs", "configurations", "fault_sequences"], "all listings, cache modes, and missing or failing source objects",
  "No test runs the commands.",
  ["cmd/vdisc", "pkg/vdisc/cli"],
  [("command implementations", "pkg/vdisc/cli")],
  observe_at=["output, files and exit status of the built tool"], hook_needed=False)
p("C26", "Discs, caches and readers release what they open",
  "After everything opened from a disc and then the disc are closed and pending work is finished, the process holds no more file descriptors, memory mappings of the disc, open backing objects or running threads of work than before, however many discs, reads, failed opens and cache fills happened. During use the number of open descriptors is bounded by the number of operations in progress and not by the number performed.",
  ["histories", "fault_sequences"], "all histories of load, open, read, failure and close, in each cache mode",
  "No test counts resources.",
  ["pkg/vdisc/loader.go", "pkg/vdisc/extent.go", "pkg/caching/disk.go", "pkg/storage/file", "pkg/storage/concat.go"],
  [("close paths", "pkg/vdisc/loader.go Close, pkg/caching/disk.go")],
  observe_at=["an accounting driver, /proc/self/fd, /proc/self/maps, goroutine stacks"], hook_needed=False)
p("C27", "Cache check finds all damage; collection stops at its threshold",
  "The cache integrity check reports an error exactly when some stored entry's data differs from its recorded checksum or lacks it, however many entries there are, and does not change the cache. Garbage collection removes entries, and nothing else, only while the threshold asks for more space and until it no longer does or no entry is left, also when entries vanish or several collectors run at once. A threshold given on the command line asks for more space exactly while less than that amount or percentage of the filesystem is free.",
  ["inputs", "histories", "schedules"], "all cache contents, all damages (any byte, truncation, extension, lost tag), all thresholds, concurrent collectors",
  "disk_test checks one damaged byte and one collection.",
  ["pkg/caching/disk.go", "pkg/vdisc/cli"],
  [("entry scan and checksum", "pkg/caching/disk.go CheckIntegrity"), ("eviction loop", "pkg/caching/disk.go Gc"), ("threshold", "pkg/vdisc/cli/cache.go GcNeeded")],
  observe_at=["result of the check, directory contents, threshold calls"], hook_needed=False)
p("C28", "The declared size governs; changed sources are never passed off",
  "A file on a disc always reads as exactly its declared size: when the source object has grown only the declared prefix is visible, and when it has shrunk, vanished or fails to read, every read that needs the missing bytes returns an error rather than end of file, zero bytes or a shorter success. This holds for files opened by path, for their raw extents and for the whole image, in every cache mode.",
  ["fault_sequences", "inputs", "configurations"], "all ways a source differs from its declaration, all offsets and lengths, all cache modes",
  "No test changes a source after burning.",
  ["pkg/vdisc/extent.go", "pkg/iso9660/file.go", "pkg/caching", "pkg/storage/file"],
  [("extent reads open the source with its declared size", "pkg/vdisc/extent.go ReadAt")],
  observe_at=["reads of a loaded disc over a changed source"], hook_needed=False)
p("C29", "Each storage request uses the options its context carries",
  "Options attached to a request's context (authorisation, timeout, credentials, region) are independent: each one is read back exactly as last set, setting one never changes, hides or supplies another, an option that was not set is absent, and options of one driver are never seen by another. Every read, stat, listing, removal and upload of an object is sent with the authorisation, credentials and region that its context carries, and all but uploads are given up after its timeout.",
  ["inputs", "programs"], "all combinations and orders of options over all drivers",
  "No test sets two options.",
  ["pkg/storage/http", "pkg/storage/s3", "pkg/storage/swift"],
  [("clients made from a context", "pkg/storage/http/http.go, pkg/storage/s3/s3.go, pkg/storage/swift/swift.go newClient and Create"), ("request signing", "pkg/s3util/signer.go"), ("context keys", "pkg/storage/http/context.go, pkg/storage/s3/context.go, pkg/storage/swift/context.go")],
  observe_at=["values returned by the option readers", "requests at the transport of each driver"], hook_needed=False)
p("C30", "A burn publishes a complete disc or fails without one",
  "If a burn reports success, the disc it names loads and its header object is complete; if reading or writing anything needed for it fails at any point, the burn reports an error and no disc appears at its address that was not there before. A standalone image written in full equals the image of the burned disc byte for byte, and if any source file cannot be read in full or the output cannot be written, writing it reports an error.",
  ["fault_sequences", "inputs"], "a failure of any create, write, commit or source read during the burn, all trees",
  "No test burns, and none fails a write.",
  ["pkg/vdisc/builder.go", "pkg/iso9660/volume.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/fileinode.go"],
  [("header commit, then disc commit", "pkg/vdisc/builder.go Build"), ("full image writer", "pkg/iso9660/volume.go WriteTo")],
  observe_at=["result of Build and WriteTo over a fault-injecting driver and writer"], hook_needed=False)
p("C31", "Damaged images and discs give errors, never crashes or hangs",
  "Loading, walking, listing, statting and reading a disc or image whose bytes are arbitrarily damaged either succeeds or returns an error; it never crashes the process, never runs without end, and never allocates memory out of proportion to the input.",
  ["inputs"], "all byte-level damages of the header, directory records, system-use fields, and of the disc file itself",
  "No test feeds a damaged image.",
  ["pkg/iso9660", "pkg/vdisc/loader.go", "pkg/vdisc/trie.go"],
  [("decoders", "pkg/iso9660/directoryrecord.go, pkg/iso9660/rrip, pkg/iso9660/susp, pkg/iso9660/pvd.go"), ("disc loading", "pkg/vdisc/loader.go")],
  observe_at=["result of Walker and Load operations on mutated bytes"], hook_needed=False)
p("C32", "Narrowing conversions are exact or refused; byte counters are exact",
  "Every checked integer conversion returns the same mathematical value it was given if the target type has it, and stops the program otherwise, for every input value. Every counting reader or writer passes data, counts and errors through unchanged and reports exactly the number of bytes transferred, also when several of them share a counter or when positioned reads of one run in parallel.",
  ["inputs", "schedules"], "all values of each source type (all of the 8- and 16-bit values and every boundary of wider ones), all transfer sequences",
  "Only one counter is tested, with fixed sizes.",
  ["pkg/safecast/safecast.go", "pkg/countio"],
  [("range checks", "pkg/safecast/safecast.go"), ("counting wrappers", "pkg/countio/reader.go, pkg/countio/readseeker.go, pkg/countio/writer.go")],
  observe_at=["return values and panics, counters"], hook_needed=False)
p("C33", "An object-store address names the same object in every operation",
  "Uploading, reading, statting, removing and listing through an address in a bucket (or in a container of an account) act on exactly the bucket, region and key that the address spells, with a signature the store accepts, for every key however its characters are escaped and whatever its segments are; so what was uploaded to an address is what is read back from it, from the version it names if it names one, and nothing else changes. A bucket whose region cannot be found fails only the operations that waited for that lookup.",
  ["inputs", "histories", "schedules"], "all keys, spellings of a key, bucket regions, and sequences of operations on several objects",
  "No test sends a request to a store.",
  ["pkg/storage/s3", "pkg/storage/swift", "pkg/s3util/signer.go", "pkg/s3util/listbucket.go"],
  [("addresses to requests", "pkg/storage/s3/s3.go parseURL, pkg/storage/swift/swift.go parseURL"), ("request signing", "pkg/s3util/signer.go"), ("bucket regions", "pkg/storage/s3/region.go")],
  observe_at=["requests at the transport of each driver", "what a model store holds afterwards"], hook_needed=False)
p("C34", "A cached block is fetched from its source once",
  "While nothing fails and nothing is evicted, each block of an object is asked of its source at most once, however many threads (and, with the disk cache, processes) need it at the same time or later, by reads or by read-ahead, and what the disk cache has stored is served to later processes without the source. The memory cache gives up the block used longest ago: a block is not fetched again when fewer other blocks than there are buffers were used since.",
  ["schedules", "histories"], "all interleavings of readers in threads and processes and of read-ahead, all reuse patterns",
  "No test counts what several readers fetch.",
  ["pkg/caching/disk.go", "pkg/caching/mem.go", "pkg/caching/readahead.go"],
  [("lock and second look before filling", "pkg/caching/disk.go"), ("buffers by recency", "pkg/caching/mem.go")],
  observe_at=["reads arriving at the source objects"], hook_needed=False)

p("C35", "Local stores agree with what was put into them, however addressed",
  "Size, status, positioned reads, sequential reads and seeks of file, memory, inline-data and zero objects agree with their content, reads at or after the end report end of file, and a closed file, memory or inline object gives no more bytes. After any history of writes, removals, status and listing requests, also of several threads working in neighbouring directories, the directories of the file and memory stores hold exactly the objects that should be there, whichever of the equivalent spellings (scheme or none, dot segments, repeated slashes, percent escapes) an address had. Reading, listing, examining or removing what is not there, writing below a file or over a directory, and removing a directory that is not empty fail and change nothing.",
  ["inputs", "histories", "schedules"], "all contents, all names and spellings of addresses, all histories of operations on the local stores",
  "Tests try single operations with plain names; spellings, histories and interleavings are unbounded.",
  ["pkg/storage/file/file.go", "pkg/storage/ram/ram.go", "pkg/storage/zero/object.go", "pkg/storage/data/data.go", "pkg/storage/driver/registry.go"],
  [("address to path", "pkg/storage/file/file.go"), ("tree of inodes", "pkg/storage/ram/ram.go"), ("end of zeros", "pkg/storage/zero/object.go")],
  observe_at=["results of the storage calls"], hook_needed=False)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
