From 64738c56c9151ce9ca63bfe0bffbe5511aecf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 01/26] fix: reject record sizes that leave no room for data

A size of exactly the record header made numRecords divide by zero and
iterateRecords loop forever on any non-empty value.
---
 database/files/record.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/record.go b/database/files/record.go
index f0e5537..a7cb0a8 100644
--- a/database/files/record.go
+++ b/database/files/record.go
@@ -130,7 +130,7 @@ func parse(buf []byte) (out record, err error) {
 // size is not in a range that is valid.
 func numRecords(len, size int) int {
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return 0
 	}
 	if len == 0 {
@@ -147,7 +147,7 @@ func iterateRecords(start, end int64, data []byte, size int,
 	fn func(rec record) error) error {
 
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return Error.New("invalid size value")
 	}
 
-- 
2.43.0


From 122a31e9aa966953377a2ae373ac6f65dfdaba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 02/26] fix: report negative array indexes instead of panicking

---
 internal/typeassert/asserter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/typeassert/asserter.go b/internal/typeassert/asserter.go
index 439eefe..cd3a389 100644
--- a/internal/typeassert/asserter.go
+++ b/internal/typeassert/asserter.go
@@ -83,7 +83,7 @@ func (a *Asserter) N(index int) *Asserter {
 			a.x, a.path)
 		return a
 	}
-	if index >= len(m) {
+	if index < 0 || index >= len(m) {
 		*a.err = errs.New("array out of bounds")
 		return a
 	}
-- 
2.43.0


From b7df13ea9e1d3c0ba170dffa9abf16d30867565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 03/26] fix: skip directory entries too short to hold a name
 instead of panicking

---
 database/files/internal/system/dirent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/files/internal/system/dirent.go b/database/files/internal/system/dirent.go
index 3e324a8..19dd89f 100644
--- a/database/files/internal/system/dirent.go
+++ b/database/files/internal/system/dirent.go
@@ -28,7 +28,7 @@ func NextDirent(buf []byte) (out_buf []byte, name []byte, ok bool) {
 	// if we can't determine a valid record length, we have fully consumed
 	// the buffer.
 	rec_len, ok := direntReadReclen(buf)
-	if !ok || rec_len > uint64(len(buf)) {
+	if !ok || rec_len == 0 || rec_len > uint64(len(buf)) {
 		return nil, nil, false
 	}
 
@@ -44,7 +44,8 @@ func NextDirent(buf []byte) (out_buf []byte, name []byte, ok bool) {
 
 	// determine the name
 	name_len, ok := direntReadNamlen(rec)
-	if !ok || nameOffset+name_len > uint64(len(rec)) {
+	if !ok || nameOffset > uint64(len(rec)) ||
+		name_len > uint64(len(rec))-nameOffset {
 		return buf, nil, false
 	}
 
-- 
2.43.0


From 92ee35c2ecedc73dc89510143cc16026d1dcd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 04/26] fix: aggregate observations in one critical section and
 release it on errors

---
 data/agg.go | 59 +++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..2ee878f 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -33,47 +33,37 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
-		if err == nil {
-			a.dist = dist
-		} else {
+		if err != nil {
 			return
 		}
+		a.dist = dist
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
-	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
+	first := a.rec.Observations == 0
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
-	if obs == 0 || val < min || val > max {
-
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
-		var id_copy []byte
-		if id != nil {
-			id_copy = append(id_copy, id...)
-		}
+	// in the common case we don't need to bump min and max.
+	if !first && val >= a.rec.Min && val <= a.rec.Max {
+		return
+	}
 
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
-			a.rec.Min = val
-			a.rec.MinId = id_copy
-		}
-		if obs == 0 || val > a.rec.Max {
-			a.rec.Max = val
-			a.rec.MaxId = id_copy
-		}
-		a.mu.Unlock()
+	var id_copy []byte
+	if id != nil {
+		id_copy = append(id_copy, id...)
+	}
+	if first || val < a.rec.Min {
+		a.rec.Min = val
+		a.rec.MinId = id_copy
+	}
+	if first || val > a.rec.Max {
+		a.rec.Max = val
+		a.rec.MaxId = id_copy
 	}
 }
 
@@ -81,10 +71,17 @@ func (a *agg) Observe(val float64, id []byte) {
 // and returning the buf. Mutating the returned buf invalidates the record.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
+
+	// if nothing has been observed, there is no distribution yet.
+	if a.dist == nil {
+		out.Kind = a.params.Kind()
+		return buf[:0], out
+	}
+
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
 	out.Distribution = buf
-- 
2.43.0


From 7f418efe6b564c3e7fc7661225ffbf0e05d2bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 05/26] fix: do not report aggregates that have observed
 nothing

---
 data/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/writer.go b/data/writer.go
index 180cd4d..7cbad56 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,9 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true // nothing was observed yet.
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +141,9 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true // nothing was observed yet.
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From d87230ab5b1ca69101645476307e0e844fe6d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 06/26] fix: forget memoized quantiles when a value is observed

---
 dist/tdigest/wrapper.go |  3 ++-
 go.mod                  | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..b66575d 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -61,8 +61,9 @@ func (Wrapper) Kind() string {
 }
 
 // Observe adds the value to the t-digest.
-func (w Wrapper) Observe(val float64) {
+func (w *Wrapper) Observe(val float64) {
 	w.td.Add(val)
+	w.cache = nil // the quantiles changed
 }
 
 // Marshal appends a byte form of the t-digest to the provided buffer.
diff --git a/go.mod b/go.mod
index 9a06de4..52ee1d5 100644
--- a/go.mod
+++ b/go.mod
@@ -1,5 +1,7 @@
 module github.com/vivint/rothko
 
+go 1.27.3
+
 require (
 	github.com/BurntSushi/toml v0.3.0
 	github.com/gogo/protobuf v1.1.1
@@ -7,10 +9,13 @@ require (
 	github.com/urfave/cli v1.20.0
 	github.com/zeebo/errs v0.2.0
 	github.com/zeebo/float16 v0.1.0
-	github.com/zeebo/live v1.0.0 // indirect
 	github.com/zeebo/tdigest v0.1.0
-	go.uber.org/atomic v1.3.2 // indirect
-	go.uber.org/multierr v1.1.0 // indirect
 	go.uber.org/zap v1.9.1
 	golang.org/x/image v0.0.0-20180708004352-c73c2afc3b81
 )
+
+require (
+	github.com/zeebo/live v1.0.0 // indirect
+	go.uber.org/atomic v1.3.2 // indirect
+	go.uber.org/multierr v1.1.0 // indirect
+)
-- 
2.43.0


From 0fbf2f807a5c93ef81544cd5bf8d75d6eaec292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 07/26] fix: keep the head pointer hint inside of the file

---
 database/files/file_ops.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..25a3920 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -12,9 +12,13 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 		return 0, err
 	}
 
+	// the hint may be stale, so keep it inside of the file.
 	head := m.Head
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
+	}
 	if head < 0 {
-		return head, nil
+		head = 0
 	}
 
 	// figure out if head has a record. typically, it won't.
-- 
2.43.0


From 118126d453b282c2cd227b2369292aa4a6797aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 08/26] fix: evict the handle of an empty data file when
 removing it

---
 database/files/metric.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..18ded91 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -198,6 +198,7 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 			// since this file is empty and there is an earlier file, we should
 			// remove it.
 			m.opts.fch.releaseFile(path, f)
+			m.opts.fch.evictFile(path)
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From f166ab34f50bbb3de03b295d849409a045993fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 09/26] fix: keep reading older files and values when skipping
 a file by its smallest end

---
 database/files/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 18ded91..6f991e3 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -317,7 +317,9 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if meta.Start == 0 {
 		meta.Start = start
 	}
-	if meta.SmallestEnd == 0 || end < meta.SmallestEnd {
+	// values are written in increasing order, so only the first one in the
+	// file has the smallest end. if it did not get recorded, it stays unknown.
+	if head == f.Capacity() {
 		meta.SmallestEnd = end
 	}
 
@@ -360,8 +362,8 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 			if err != nil {
 				return false, err
 			}
-			if meta.SmallestEnd >= end {
-				return false, nil
+			if meta.SmallestEnd != 0 && meta.SmallestEnd >= end {
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 4c197dfa9ea475ab20688b2d19fdc4538d697cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 10/26] fix: do not skip a value that follows an incomplete one

---
 database/files/metric.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 6f991e3..b629b06 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -462,6 +462,8 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 							"kind", rec.kind,
 							"expected", recordKind_end,
 						)
+						// this record may start another value
+						head--
 						continue new_record
 					}
 
-- 
2.43.0


From 38f0e228928966647f83bb69dbed1732a83b8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 11/26] fix: reject files without room for a record and unmap
 the ones that are rejected

---
 database/files/file.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..9ee2588 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -43,7 +43,8 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	// go up to 1GB at least, so meh that's probably good enough. we can
 	// revisit making them up to a larger size size later, though the system
 	// will probably struggle with that anyway.
-	if cap+1 < cap ||
+	if cap <= 0 || size <= 0 ||
+		cap+1 < cap ||
 		int(int32(cap)) != cap ||
 		int(int32(size)) != size ||
 		int32(size)*int32(cap)/int32(cap) != int32(size) {
@@ -68,6 +69,7 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
@@ -110,10 +112,13 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	// the file has to have room for the metadata and at least one record.
+	if meta.Size_ < recordHeaderSize || meta.Size_ > len/2 {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
-- 
2.43.0


From 6e1984b5ef1f7dc52dde389808db2b5c9ee8f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 12/26] fix: check that a value fits in a new file before
 rotating the files

---
 database/files/metric.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index b629b06..3d63a78 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -247,11 +247,10 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if the value does not fit in a new file either, then we will not be
+		// able to write it, and must not remove anything to make room for it.
+		new_nr := numRecords(len(data), m.opts.fch.opts.Size)
+		if new_nr == 0 || new_nr > m.opts.fch.opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 72f4b5910b432a69ff6d74ae27fc7780d37ba61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 13/26] fix: do not create a data file when reading a metric
 that has none

---
 database/files/metric.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 3d63a78..e5110a3 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -138,7 +138,10 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 	// if we didn't set the first, create an empty file at 1. this simplifies
 	// the logic because we can from now on assume that at least one possibly
 	// empty file exists.
-	if !first_set {
+	// when only reading there is nothing to create: there are no files.
+	if !first_set && opts.ro {
+		first, last = 1, 0
+	} else if !first_set {
 		path := fb.metricFilenameAt(dir, 1)
 		f, err := opts.fch.acquireFile(ctx, path, false)
 		if err != nil {
-- 
2.43.0


From 0e9ca5b696aa71ba1b9be62056ed3aa7029d39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 14/26] fix: do not lose metric names to concurrent listings

---
 database/files/db_read.go | 70 ++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..db6f335 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,51 +53,30 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
-	// load up the readonly names value
+	// all stores to the names map have to be done under the names_mu mutex.
+	// holding it while we look at the worker sets also means that a name some
+	// concurrent Metrics call took out of one is in the value we load. the
+	// worker mutexes are always acquired after it to avoid deadlocks.
+	db.names_mu.Lock()
 	names, ok := db.names.Load().(*sset.Set)
 	if !ok {
 		names = sset.New(0)
 	}
 
-	// merge the worker sets in if we have a flag for it
 	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
-		db.names_w_mu[i].Unlock()
-
-		// skip if we don't need to merge it in
-		if len_names_w == 0 {
-			continue
-		}
-
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
-		}
-
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
-		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
-		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
-				names = new_names.Copy()
+		if db.names_w[i].Len() > 0 {
+			// lazily copy the names to ensure the loaded value is readonly
+			if !copied {
+				names = names.Copy()
+				copied = true
 			}
-			copied = true
-		}
 
-		// merge the worker map in
-		names.Merge(names_w)
-
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
+			// merge the worker set in and clear it out
+			names.Merge(db.names_w[i])
+			db.names_w[i] = sset.New(0)
+		}
 		db.names_w_mu[i].Unlock()
 	}
 
@@ -105,11 +84,7 @@ func (db *DB) Metrics(ctx context.Context,
 	if copied {
 		db.names.Store(names)
 	}
-
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
-	}
+	db.names_mu.Unlock()
 
 	// yay do callbacks
 	names.Iter(func(name string) (ok bool) {
@@ -122,6 +97,8 @@ func (db *DB) Metrics(ctx context.Context,
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	old, _ := db.names.Load().(*sset.Set)
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -132,6 +109,17 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
+
+	// keep the names stored while we were walking. we may have missed them.
+	if names, ok := db.names.Load().(*sset.Set); ok {
+		names.Iter(func(name string) bool {
+			if old == nil || !old.Has(name) {
+				dp.out.Add(name)
+			}
+			return true
+		})
+	}
+
 	db.names.Store(dp.out)
 	db.names_mu.Unlock()
 
-- 
2.43.0


From a351b65d58d90acd714360ba5d18eae8ee09a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 15/26] fix: report lengths that overflow and deep groups as
 errors when decoding

---
 data/record.pb.go                       | 69 ++++++++++++-------------
 database/files/internal/meta/meta.pb.go | 57 +++++++-------------
 2 files changed, 52 insertions(+), 74 deletions(-)

diff --git a/data/record.pb.go b/data/record.pb.go
index 4e021e9..488efb1 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -289,6 +289,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -321,6 +324,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -371,6 +377,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -402,6 +411,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -438,6 +450,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRecord
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -453,6 +468,7 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 func skipRecord(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -484,10 +500,8 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -504,53 +518,34 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRecord
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowRecord
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipRecord(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupRecord
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthRecord
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthRecord = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowRecord   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthRecord        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowRecord          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupRecord = fmt.Errorf("proto: unexpected end of group")
 )
diff --git a/database/files/internal/meta/meta.pb.go b/database/files/internal/meta/meta.pb.go
index 06a94ae..413600f 100644
--- a/database/files/internal/meta/meta.pb.go
+++ b/database/files/internal/meta/meta.pb.go
@@ -252,6 +252,9 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMeta
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMeta
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -267,6 +270,7 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 func skipMeta(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -298,10 +302,8 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -318,53 +320,34 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMeta
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMeta
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMeta(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMeta
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMeta
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthMeta = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowMeta   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthMeta        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowMeta          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupMeta = fmt.Errorf("proto: unexpected end of group")
 )
-- 
2.43.0


From 78937c01616b71fb5e8ba6ab8e258adbcafd1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 16/26] fix: merge: keep the ids of the first record's extremes

---
 merge/merge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..bbfc3ce 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -71,6 +71,7 @@ func Merge(ctx context.Context, opts MergeOptions) (
 
 	// merge the max and min values
 	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.MinId, out.MaxId = opts.Records[0].MinId, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From e228b73b193f31cc1ea2bc931ae4861d666329fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 17/26] fix: merge: a record ending now no longer makes a
 column past the right edge

---
 merge/merger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..e400f54 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -110,6 +110,12 @@ func (m *Merger) Finish(ctx context.Context) ([]draw.Column, error) {
 func (m *Merger) completed(ctx context.Context, completed_px int64) error {
 	debugPrint("completed", completed_px)
 
+	// pixels never become uncompleted. in particular, a record that ends at the
+	// right edge does not add a pixel past it.
+	if completed_px > m.completed_px {
+		completed_px = m.completed_px
+	}
+
 	// some variables for our state
 	var (
 		to_emit_end_px int64
-- 
2.43.0


From 25de932033b76f20dc17dec91338e22896c8cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 18/26] fix: merge: no division by zero for empty widths and
 short durations

---
 merge/merger.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index e400f54..90a8200 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -62,7 +62,10 @@ func NewMerger(opts MergerOptions) *Merger {
 // any Push operations happen.
 func (m *Merger) SetWidth(width int) {
 	m.width = width
-	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	m.pixel_size = 1
+	if width > 0 && m.opts.Duration.Nanoseconds() > int64(width) {
+		m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	}
 	m.completed_px = int64(width)
 }
 
@@ -79,7 +82,7 @@ func (m *Merger) timeToPixel(time int64) int64 {
 // Push adds the record to the Merger. The end time on the records passed to
 // Push must be decreasing.
 func (m *Merger) Push(ctx context.Context, rec data.Record) error {
-	if m.width == 0 {
+	if m.width <= 0 {
 		return Error.New("invalid: must call SetWidth before Push")
 	}
 
-- 
2.43.0


From 84220f8d1aebe42a51c49527e824de7bf8170fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 19/26] fix: merge: records without a merged count have a
 finite observation rate

---
 merge/merger.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merge/merger.go b/merge/merger.go
index 90a8200..db3c918 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -210,7 +210,13 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
+
+		// back compat: just like in Merge, a merged of 0 actually means 1.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+		obs_sec += float64(mrec.rec.Observations) / float64(merged) /
 			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
 	}
 	obs_sec /= float64(len(mrecs))
-- 
2.43.0


From c9e4b287f9eeed4f8e396b6525ba2016ee9a7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 20/26] fix: api/query: any number of results may be asked for

A negative or very large number of results made the handler of /api/query
panic or run out of memory, as it allocated room for that many names.
---
 api/query/search.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..0d0cd39 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	matched  []string
+	capacity int
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		matched:  []string{},
+		capacity: capacity,
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
-- 
2.43.0


From e5d073786b516a06a6f71dd05c5bfa428dbde191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 21/26] fix: api: a metric without records has an empty graph

---
 api/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index 29c63b1..23d6caa 100644
--- a/api/server.go
+++ b/api/server.go
@@ -223,7 +223,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return errs.Wrap(err)
 	}
-	if !ok {
+	if measure_opts.Earliest != nil && !ok {
 		return errs.New("too small")
 	}
 
-- 
2.43.0


From 3ee8d1733b7659830d36f8c182472658ac0c014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 22/26] fix: api: parameters nothing can be drawn from are a
 bad request

---
 api/server.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/api/server.go b/api/server.go
index 23d6caa..62b8ef0 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,7 +27,18 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// limits on the parameters to render.
+const (
+	maxSize        = 10000 // px
+	maxPadding     = 1000  // px
+	maxNow         = 1 << 62
+	maxDuration    = 100 * 365 * 24 * time.Hour
+	maxSamples     = 100000
+	maxCompression = 10000
+)
+
 // Options for the server.
+
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
 	// back '*'.
@@ -166,6 +177,22 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	compression := getFloat64(req.FormValue("compression"), 5)
 	stop_before := now - dur.Nanoseconds()
 
+	// ensure that they describe something that can be drawn
+	switch {
+	case width < 0 || width > maxSize || height < 0 || height > maxSize:
+		return errBadRequest.New("width and height must be in [0, %d]", maxSize)
+	case padding < 0 || padding > maxPadding:
+		return errBadRequest.New("padding must be in [0, %d]", maxPadding)
+	case samples < 1 || samples > maxSamples:
+		return errBadRequest.New("samples must be in [1, %d]", maxSamples)
+	case now < 0 || now > maxNow:
+		return errBadRequest.New("now must be in [0, %d]", int64(maxNow))
+	case dur < 0 || dur > maxDuration:
+		return errBadRequest.New("duration must be in [0s, %s]", maxDuration)
+	case !(compression >= 1 && compression <= maxCompression):
+		return errBadRequest.New("compression must be in [1, %d]", maxCompression)
+	}
+
 	// set up some state for the query
 	var measured graph.Measured
 	var earliest []byte
-- 
2.43.0


From c61481501ee079cba7660e6fa552572d9f5bdd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 23/26] fix: draw/key: a key one pixel high can be drawn

---
 draw/key/key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..a24258e 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,7 +29,10 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	scale := float64(0)
+	if opts.Height > 1 {
+		scale = float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	}
 	for y := 0; y < opts.Height; y++ {
 		index := int(float64(opts.Height-1-y) * scale)
 		color := opts.Colors[index]
-- 
2.43.0


From 06cd3f076ee494cee087bff3e9611875efd32ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 24/26] fix: draw/heatmap: a heatmap one pixel high can be
 drawn

---
 draw/heatmap/heatmap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..c406358 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,7 +51,10 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
+	index_scale := float64(0)
+	if d.height > 1 {
+		index_scale = float64(len(col.Data)-1) / float64(d.height-1)
+	}
 	m := d.m
 
 	for y := 0; y < d.height; y++ {
-- 
2.43.0


From af01b95e733c4abcd0001131593f71c0ae4bbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 25/26] fix: draw/heatmap: values mapped out of range have the
 outermost colors

---
 draw/heatmap/heatmap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index c406358..ba57079 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -65,8 +65,14 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 
 		// figure out the color if it's different from the last data index
 		if index != last_index {
-			color_index := int(d.opts.Map(col.Data[index]) * d.color_scale)
-			last_color = d.opts.Colors[color_index]
+			// an estimated mapping can be slightly out of range, or NaN.
+			mapped := d.opts.Map(col.Data[index])
+			if !(mapped > 0) {
+				mapped = 0
+			} else if mapped > 1 {
+				mapped = 1
+			}
+			last_color = d.opts.Colors[int(mapped*d.color_scale)]
 			last_index = index
 		}
 
-- 
2.43.0


From 489cb5368c84d2fca4eaaa3703bf4886019711b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 26/26] fix: draw/graph: graphs without room for the heatmap
 are too small

---
 draw/graph/graph.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..90c82b0 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -93,7 +93,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height <= 0 {
 		return Measured{}, false
 	}
 
@@ -157,6 +157,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth <= 0 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +172,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if chunks := opts.Width / 100; chunks > 1 {
+		chunk /= time.Duration(chunks)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
-- 
2.43.0

