#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

R="database/files/record.go"; F="database/files/file.go"; FH="database/files/file_helpers.go"; FO="database/files/file_ops.go"
M="database/files/metric.go"; FC="database/files/file_cache.go"; C="database/files/cache.go"

p("C01","A stored record decodes to exactly what was encoded",
  "A stored record (any version-1 header and a payload of exactly the size it announces) decodes to the same version, kind, start, end, size and payload bytes that were encoded. Its encoded length is exactly the 24-byte header plus the payload size, and encoding into a caller's buffer reuses that buffer when it has the capacity and writes no more than that many bytes.",
  ["inputs"],"every header field value, payload length 0..65535 and destination buffer capacity",
  "Tests encode a few short payloads; a swapped field, a width mistake or an off-by-one in the CRC range shows only at particular lengths and values.",
  [R,FH],[("record.Marshal/MarshalHeader/Size",R),("parse",R),("writeRecord/readRecord",FH)],
  observe="bytes in the data file and the record parse returns")
p("C02","Parsing arbitrary bytes is safe and rejects damaged records",
  "Decoding the bytes of a stored record never panics and never reads outside the bytes it is given, whatever they are. It succeeds only if there is a full 24-byte header of version 1, at least the announced payload, and a big-endian CRC-32C (Castagnoli) in bytes 20 to 23 that equals the checksum of bytes 0 to 19 followed by the payload; on success the payload returned is exactly the announced bytes.",
  ["inputs"],"every byte slice of every length",
  "Data files are damaged by crashes and bit rot in ways a handful of literal buffers do not sample.",
  [R],[("parse",R)],observe="error or record returned by parse/readRecord")
p("C03","A value is split into records that concatenate back to it",
  "Splitting a value into records of a given size yields, in order, records whose payloads concatenate to exactly the value, each of encoded size at most the given size, all with the value's start and end times, and of kind 'complete' for a single record or begin, continue..., end for several. The number of records is the one announced for that length and size; a record size that leaves no room for a payload byte gives an error and no record; and the first error of the consumer stops the splitting and is returned.",
  ["inputs"],"every payload length, every record size and every position at which the callback fails",
  "Only multiples of the chunk, off-by-one lengths and degenerate sizes expose a wrong boundary, count or kind; tests use a few lengths.",
  [R],[("iterateRecords",R),("numRecords",R)],observe="arguments of the callback")
p("C04","Metric names map to directories one-to-one and back",
  "For every non-empty metric name, converting the name to its directory and back gives the same name, so two different metrics never share a directory. The conversion only appends to the buffer it is given.",
  ["inputs"],"every byte string used as a metric name",
  "The interesting names (leading, trailing and repeated dots, '%', '/', the escaped forms themselves) are combinatorial; the tests list a few.",
  ["database/files/convert.go"],[("metricToDir",'database/files/convert.go'),("dirToMetric",'database/files/convert.go')],
  observe="directory of the metric's data files; names listed by Metrics")
p("C05","Metric directories stay inside the database directory",
  "The directory of a non-empty metric name contains no '.' byte, has no empty path component and neither begins nor ends with '/', so below the database directory it always names a strict descendant and never '.', '..' or a data file. The path of a metric's data file is that directory with only '/', the decimal file number and '.data' added.",
  ["inputs"],"every byte string used as a metric name, every database directory and file number",
  "Names come from the network; path traversal needs particular byte sequences no ordinary test uses.",
  ["database/files/convert.go",M],[("metricToDir",'database/files/convert.go'),("metricToPath",'database/files/convert.go'),("metricFilenameAt",M)],
  observe="paths opened on disk")
p("C06","File slots are isolated and every access stays in the mapping",
  "In an open data file, slot n occupies exactly bytes [(n+1)*size, (n+2)*size) of the mapping, after one metadata slot: writing a record or the metadata changes nothing outside its slot, reading looks at nothing outside it, and a slot number outside [0, capacity) gives an error (or 'no record') and touches nothing. An existing file is accepted only if its metadata is valid and its record size is at least a record header and fits at least one slot into the file; whatever a file contains, opening and reading it never panics and a rejected file does not stay mapped.",
  ["inputs"],"every record size, capacity, slot index and record, and every content of an existing data file",
  "The tests use one size; overlap or overrun shows at particular sizes or with a truncated or damaged file.",
  [F,FH],[("file.Record/SetRecord/HasRecord/Metadata/SetMetadata/offset",F),("createFile/openFile",F)],
  observe="bytes of the mapped data file")
p("C07","The write position is recovered from any metadata hint",
  "If the occupied slots of a data file are exactly those after position h, the write position recovered is h for every position remembered in the metadata that is not negative: correct, stale in either direction, or beyond the capacity (a negative one means the file is full). The recovery terminates for every file content, gives a position in [-1, capacity), and does not modify the file.",
  ["inputs","crash_points"],"every capacity, every fill level and every hint, hence every crash point between writing records and updating the metadata",
  "A test can try a few stale hints; the walk must be right from every hint and at both ends of the file.",
  [FO],[("getHeadPointer",FO)],observe="slot used by the next write; first record read")
p("C08","An accepted write is newer than all stored data and complete",
  "A value is accepted only if its end time is strictly after the end time of the newest stored record, and then the newest value of the metric is exactly the given start, end and bytes, stored within one data file, with every other value in the remaining files unchanged. A value that is refused as not newer, or that is too large for any file, changes no stored value and removes no data file.",
  ["inputs","histories"],"every sequence of writes with any times and payload sizes, including ones that roll over to a new file",
  "Roll-over, multi-record values at the end of a file, and refused writes at full retention need particular histories.",
  [M],[("metric.Write",M),("metric.acquireLast",M)],observe="Write's result and what Read returns afterwards")
p("C09","Reads return exactly the stored values before the end time, newest first",
  "A read passes to the callback every intact stored value whose end is strictly before the given end, each with its exact start, end and bytes, in decreasing order of end across all files, and stops when the callback says so or at its first error, which it returns. Damaged records and incomplete groups are skipped without panicking and without hiding any other intact value, while a data file whose own header is damaged gives an error; a read creates and changes nothing.",
  ["inputs","histories","crash_points"],"every stored history, end time, stopping point of the callback, and damaged or half-written record group",
  "Tests read small fresh files; filters, file boundaries and damage patterns are combinatorial.",
  [M],[("metric.Read",M),("metric.ReadLast",M)],observe="callback arguments")
p("C10","Retention keeps the configured history and drops only the oldest file",
  "When a write has to start a new data file while more than the configured number of historical files exist, exactly the oldest one is removed, so with a maximum above zero a metric never holds more than that maximum plus one. No other data file holding records is removed, and a write that is refused as not newer or as too large removes none.",
  ["histories"],"every sequence of writes and every retention setting",
  "Needs many roll-overs, and interaction with the handle cache and reopened metrics.",
  [M],[("metric.Write",M),("newMetric",M),("metric.acquireLast",M)],observe="data files in the metric's directory")
p("C11","The handle cache neither loses nor duplicates nor exceeds",
  "Every file handle put in the cache leaves it exactly once: it is returned to whoever takes it with the token it was given, or handed out as the evicted handle of a later insertion, or returned when everything is taken out. Taking with any other token reports that there is none and changes nothing; the cache never holds more than its capacity, and with capacity zero an inserted handle is handed straight back.",
  ["histories"],"every sequence of Put, Take and TakeAll with any capacity and any eviction choice",
  "Eviction is pseudo-random and index bookkeeping errors appear only after particular interleavings of Put and Take.",
  [C,"database/files/common.go"],[("cache.Put/Take/TakeAll",C),("fastMod","database/files/common.go")],
  state="order, handles and loc of cache",observe="files returned; leaked or doubly closed mappings")
p("C12","The metric-name set behaves as a sorted set",
  "After any sequence of additions, merges and copies, the set of metric names contains exactly the names added, its length is their number, and iterating visits each of them once in strictly increasing order, stopping when the callback returns false. A copy is independent of the original, and merging leaves the merged-in set unchanged.",
  ["inputs","histories"],"every sequence of operations and names",
  "Insertion position errors need particular existing contents; tests insert a few keys.",
  ["database/files/internal/sset/set.go"],[("Set.Add/Has/Len/Copy/Merge/Iter","database/files/internal/sset/set.go")],
  state="set and order of Set",observe="Has, Len, Iter")
p("C13","Metrics lists every stored metric exactly once, in order",
  "Listing the metrics calls the callback once, in increasing order, for every name in the published set or recorded by any worker up to the call, stops at the first false or error, and returns that error. No recorded name is ever lost, whatever the interleaving of writes, listings and re-reading of the directory: it stays in a worker's set or in the published set, and a published set is never modified afterwards.",
  ["histories","schedules"],"every number of workers, contents of the worker sets and interleaving",
  "Losing a name needs a write or second Metrics call between two lock regions.",
  ["database/files/db_read.go","database/files/db_write.go"],[("DB.Metrics","database/files/db_read.go"),("DB.write","database/files/db_write.go")],
  state="DB.names, DB.names_w",observe="callback of Metrics")
p("C14","Protobuf records and file metadata round-trip; decoding never panics",
  "For every data record and file metadata value, the computed size is exactly the number of bytes its encoding takes, and decoding those bytes into a zero value yields the same value (a floating-point minus zero comes back as zero). Decoding arbitrary bytes gives a value or an error; it never panics, loops forever or reads outside its input.",
  ["inputs"],"every field value (including NaN payloads, negative integers and empty versus long strings) and every byte slice",
  "Varint boundaries and crafted lengths that overflow an int are not reached by sample values.",
  ["data/record.pb.go","database/files/internal/meta/meta.pb.go"],[("Record.Size/MarshalTo/Unmarshal","data/record.pb.go"),("Metadata.Size/MarshalTo/Unmarshal","database/files/internal/meta/meta.pb.go")],
  observe="decoded values, panics")
p("C15","Aggregation counts every observation and keeps the true extremes",
  "After any set of observations on an aggregate, under any interleaving, its record counts exactly them, has the smallest and the largest value with ids that were observed with these values (copied, not aliased), and every value was added once to its distribution. If the distribution cannot be created the observation counts nothing and the aggregate stays usable; finishing an aggregate reports that consistent state, and does not panic when it has no observations.",
  ["inputs","schedules"],"every sequence and interleaving of observations and failures to create the distribution",
  "The double-checked update goes wrong only between two lock regions; error paths are never taken by tests.",
  ["data/agg.go"],[("agg.Observe","data/agg.go"),("agg.Finish","data/agg.go")],state="agg.rec, agg.dist",observe="Record from Finish")
p("C16","The writer hands out each metric's aggregate once, and drops only NaN and Inf",
  "Adding a value ignores NaN and infinities and otherwise records it under its own metric name only. Capturing passes each metric with observations of the current period to the callback once (until it returns false) with the time range from the start of the period to now, and starts a new period, so a second capture does not report those observations again; iterating reports them in the same way without ending the period.",
  ["inputs","histories"],"every sequence of Add, Capture and Iterate calls without overlap",
  "Special floats, callback stops and repeated captures combine; concurrent Add with Capture is documented to lose updates and is excluded.",
  ["data/writer.go"],[("Writer.Add","data/writer.go"),("Writer.Capture","data/writer.go"),("Writer.Iterate","data/writer.go")],
  state="Writer.page",observe="callback of Capture and Iterate")
p("C17","A dump queues each captured record once and reuses no buffer in flight",
  "A dump queues each captured record exactly once, with the record's metric, start and end times and its complete encoding, until the context is cancelled. A buffer goes back to the pool exactly once and only when the database has finished with it or refused it, and the dump returns only after every queued record was completed.",
  ["inputs","histories","fault_sequences"],"every captured set, encoding size, queue error and completion order",
  "Buffer reuse corrupts data only when completions are delayed; errors from Queue are not exercised (the package has no tests).",
  ["dump/dump.go"],[("Dumper.Dump","dump/dump.go")],observe="calls of DB.Queue and contents of the buffers")
p("C18","Every queued value is answered exactly once and is private to the database",
  "The callback given with a queued value is called exactly once: with the result of the write if a worker took the value, and with (false, nil) if it was dropped, cancelled or discarded at shutdown. The queued bytes, times and metric reach the write unchanged as a private copy, whose buffer is returned to the pool exactly once, after its last use.",
  ["schedules","fault_sequences"],"every outcome of the send (taken, full with drop, cancelled, closed) and of the write",
  "The outcomes depend on scheduling and shutdown; a test sees one of them.",
  ["database/files/db_write.go","database/files/db.go"],[("DB.Queue","database/files/db_write.go"),("DB.worker","database/files/db_write.go"),("DB.Run","database/files/db.go")],
  observe="callback invocations, buffer pool")
p("C19","Merging records combines their time range, counts and extremes",
  "Merging one or more records gives a record that spans from the earliest start to the latest end, sums the observations, sums the merged counts counting a zero as one, has the smallest minimum and the largest maximum together with the id a record held with it, and has each record's distribution merged in once. No records, an unknown kind or a distribution its decoder refuses is an error; the inputs are not modified.",
  ["inputs"],"every non-empty list of records in every order",
  "Which position holds each extreme matters; the package has no tests.",
  ["merge/merge.go","merge/resample.go"],[("Merge","merge/merge.go"),("resampler.Sample","merge/resample.go")],observe="record returned by Merge")
p("C20","Graph columns are disjoint, in range and cover exactly the recorded pixels",
  "For records pushed with decreasing end times, the columns returned are disjoint, lie within [0, width), appear from right to left, and cover exactly the pixels below the width that some record's time range touches, each merged from exactly the records touching it. The pixel of a time is non-decreasing in the time and never negative: times before the window count as pixel 0.",
  ["inputs","histories"],"every sequence of records with decreasing end times, width and duration",
  "Overlaps, gaps and equal pixels need many layouts; the package has no tests.",
  ["merge/merger.go"],[("Merger.Push/completed/Finish","merge/merger.go"),("Merger.timeToPixel","merge/merger.go")],state="Merger.records, completed_px, columns",observe="columns returned by Finish")
p("C21","Metric search follows the glob definition and the result limit",
  "A pattern matches exactly if it matches some prefix of the lower-cased text, where '?' matches one byte and '*' any run of bytes (a '*' not followed by anything needs at least one remaining byte). A search matches a metric exactly if, for each white-space separated word, some consecutive dotted components of the metric match the word's lower-cased dotted parts each preceded by '*'; it keeps the matching names in the order they come, at most as many as its limit, and asks to stop only when it is full.",
  ["inputs"],"every pattern, name, query and capacity",
  "Backtracking errors need particular repetitions in the name; the test file says 'write more tests'.",
  ["api/query/glob.go","api/query/spec.go","api/query/search.go"],[("glob","api/query/glob.go"),("spec.Match/newSpec/globify/splitMetric","api/query/spec.go"),("Search.Add/Match","api/query/search.go")],observe="results of /api/query")
p("C22","No request is served without the configured credentials",
  "When a user name is configured, every request whose basic-auth user name and password are not both equal to the configured ones gets 401 with a WWW-Authenticate header and reaches no handler, no database and no static file. Otherwise non-GET requests get 405, the three API paths reach their own handler, everything else the static handler (or 404), and errors set the status of their class only if nothing was written yet.",
  ["inputs","configurations"],"every configuration, method, path and Authorization header",
  "A missing gate on one path or a comparison of only one half is invisible to valid requests; the package has no tests.",
  ["api/server.go","api/common.go"],[("Server.serveHTTP/ServeHTTP/validAuth","api/server.go"),("respTracker, getStatusCode","api/common.go")],observe="status, headers and body of the response; calls of the handlers")
p("C23","Configuration loading keeps every setting and logs no secret",
  "A loaded configuration has exactly one database and one distribution (anything else is an error), every listener entry, and each main, api, tls and security value in its own field. The redacted form used for logging replaces user name, password, key and certificate by 'redacted' whatever they were, keeps address and origin, and does not change the original.",
  ["inputs","configurations"],"every parsed configuration",
  "A crossed or forgotten field shows only for the setting concerned.",
  ["config/load.go","config/config.go"],[("Load","config/load.go"),("APIConfig.Redact","config/config.go")],observe="Config returned; logged configuration")
p("C24","Type assertions on configuration are all-or-nothing",
  "In a chain of type assertions on a configuration value, the first failing step (wrong dynamic type, index out of range) sets the shared error once, and every later step returns zero values without panicking or changing that error; missing or nil values yield zero values without an error. If there is no error, every value returned was the one at that path with exactly the requested type.",
  ["inputs","histories"],"every configuration value and sequence of assertion calls",
  "The failing position and type combinations are many; negative indexes and nested chains are not tried.",
  ["internal/typeassert/asserter.go"],[("Asserter.I/N/Int/Int64/String/Bool/Float64/Err","internal/typeassert/asserter.go")],state="Asserter.err",observe="values and Err")
p("C25","The registry returns the maker last registered under that kind and name",
  "Creating a listener, database or distribution calls the maker most recently registered for that kind under exactly that name, passing context and configuration through and returning its results, and gives an error if there is none; registering affects no other name or kind. This holds under any interleaving of registrations and creations, none of which races or leaves the registry locked.",
  ["inputs","histories","schedules"],"every sequence and interleaving of registrations and lookups",
  "Tests in the repository never overwrite or mix names; crossed maps and unlocked accesses pass them.",
  ["registry/registry.go","registry/common.go"],[("Registry.Register*/New*","registry/registry.go"),("package-level Register*/New*","registry/common.go")],state="Registry maps",observe="maker invoked, results")
p("C26","A graphite line adds exactly one value, or nothing and an error",
  "A line of at most 64 KiB with exactly three space-separated fields, the second of which parses as a float, adds that value once, under the first field as the metric name and with no id. Every other such line adds nothing and gives an error, without affecting the other lines of the connection.",
  ["inputs"],"every byte line",
  "Field counts, empty fields and number formats are open-ended; the test sends four good lines.",
  ["listener/graphite/listener.go"],[("handleLine","listener/graphite/listener.go"),("handleConn","listener/graphite/listener.go")],observe="calls of Writer.Add, returned error")
p("C27","Drawing stays inside its part of the canvas and shows the data's colours",
  "Setting or getting a pixel of an image or of a view into it touches exactly that pixel's four bytes. A heatmap column and the colour key, drawn on any view inside an image, never panic and change only the pixels of the column (or key) inside the view; every one of these pixels gets the colour of the table for a value of the column, from the first value at the bottom row to the (next to) last at the top, whatever the mapping of values to colours answers (even outside [0, 1] or not a number) and down to a height of one. A graph that Measure accepts for its size can be drawn without a panic.",
  ["inputs"],"every canvas and view geometry, column, colour table and mapping",
  "Index arithmetic fails at heights of one, single colours and right-edge columns, and views have offsets the tests do not use.",
  ["draw/common.go","draw/heatmap/heatmap.go","draw/key/key.go","draw/graph/graph.go"],[("RGB.Set/Raw/View","draw/common.go"),("Heatmap.Draw","draw/heatmap/heatmap.go"),("key.Draw","draw/key/key.go"),("Measure, Measured.Draw","draw/graph/graph.go")],observe="bytes of the image; panics")
p("C28","The distribution wrapper gives probabilities and faithful passthrough",
  "The cumulative probability of x is always in [0, 1], is 0 at or below the 0-quantile and 1 at or above the 1-quantile, and with non-decreasing quantiles does not decrease with x; repeated calls give the same answer until an observation is added, after which answers follow the new quantiles. Observing, querying, encoding and the length pass straight to the underlying t-digest, and creating a distribution gives an error exactly for zero compression.",
  ["inputs"],"every x and every quantile function",
  "The bisection must hold for every digest; the package has no tests.",
  ["dist/tdigest/wrapper.go"],[("Wrapper.CDF/quan","dist/tdigest/wrapper.go"),("Params.New","dist/tdigest/wrapper.go")],state="Wrapper.cache",observe="CDF values")
p("C29","The random source is the PCG generator and its reduction stays in range",
  "The random source is the PCG-XSH-RR generator: its state advances by state*6364136223846793005+increment modulo 2^64 and its output is the 32-bit rotation of the old state's xorshift; a zero generator behaves as one seeded with (0, 0). Reducing a number to a range gives, for every number and every positive range below 2^31, a result in that range, and is monotone in the number.",
  ["inputs"],"every state, increment, n and m",
  "Bit-level mistakes need particular states; the test compares one sequence.",
  ["internal/pcg/pcg.go","database/files/common.go"],[("PCG.Uint32/New","internal/pcg/pcg.go"),("fastMod","database/files/common.go")],observe="generated numbers, eviction index")
p("C30","Metric locks give mutual exclusion per metric and leave nothing behind",
  "The lock pool keeps one mutex per metric for as long as anyone holds or waits for it, so all users of a metric exclude each other while different metrics do not, and its entry disappears with the last user. Queries, latest-value queries and writes hold the lock of their own metric for the whole of their file access and release it on every return path.",
  ["schedules","histories"],"every interleaving of Lock and Unlock on any keys, and every return path",
  "Deleting or replacing an entry while someone waits needs a precise interleaving.",
  ["database/files/lock_pool.go","database/files/db_read.go","database/files/db_write.go"],[("lockPool.Lock/Unlock","database/files/lock_pool.go"),("DB.Query/QueryLatest","database/files/db_read.go"),("DB.write","database/files/db_write.go")],state="lockPool.locks",observe="lock order of concurrent calls")
p("C31","Directory entries are decoded safely and completely",
  "Decoding directory entries never panics or reads outside the buffer and always makes progress: it either consumes a whole entry of the announced length or ends the buffer. For a well-formed Linux directory buffer it returns each entry's name up to the first NUL byte, skipping '.', '..' and deleted entries.",
  ["inputs"],"every buffer content and length",
  "Length fields near zero or the buffer end are not produced by ordinary directories.",
  ["database/files/internal/system/dirent.go"],[("NextDirent/readInt","database/files/internal/system/dirent.go")],observe="names found by PopulateMetrics; panics")
p("C32","A run flag admits one user at a time",
  "A run flag is started successfully exactly if it is off, and is then on; otherwise starting gives an error and changes nothing; stopping turns it off; all of it under any interleaving and without leaving the flag locked. The launcher starts exactly the functions queued before it runs, in order, and forgets them.",
  ["histories","schedules"],"every sequence and interleaving of calls",
  "Interleavings of Start and Stop; no test exists.",
  ["internal/junk/flag.go","internal/junk/launcher.go"],[("Flag.Start/Stop","internal/junk/flag.go"),("Launcher.Queue/Run","internal/junk/launcher.go")],state="Flag.on, Launcher.queue",observe="errors returned")
p("C33","A stale handle is never served and every opened mapping is closed once",
  "Acquiring a data file gives a mapping of the file that is currently at the path: a handle whose file was removed or replaced is not served. Each mapping is owned by one caller or one cache slot and is closed exactly once: evicted, superseded and discarded handles are closed, also on the error paths of opening and creating a file.",
  ["histories","fault_sequences"],"every sequence of acquire, release, evict, removal and close, and every failing step",
  "A write into an unlinked file succeeds silently and its loss shows only after eviction; leaks show only in long runs.",
  [FC,M,F],[("fileCache.acquireFile/releaseFile/evictFile/Close",FC),("metric.acquireLast/Write",M),("openFile/createFile",F)],state="fileCache.toks, cache",observe="values read back; mappings of the process")
p("C34","A graph is made of all the records it covers",
  "A render request asks the database once for the records of its metric before its end, and its columns are merged from exactly the records given, up to and including the first that ends before the part shown; the axis and colours come from the latest of them, and a metric without records has an empty graph. A request without a metric or with parameters nothing can be drawn from is a bad request that asks the database nothing, and a failing query or an undecodable record fails the request; no parameters make it panic or hang.",
  ["inputs","histories"],"every set of records and every combination of parameters",
  "The stop condition matters for a record that straddles the left edge, and bad parameters fail only in their own corner; the package has no tests.",
  ["api/server.go","draw/graph/graph.go"],[("Server.serveRender","api/server.go"),("Measure","draw/graph/graph.go"),("Merger.Push/Finish","merge/merger.go")],observe="the JSON and PNG answers, the calls of the database")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["title"]
