From bbe1a114878638a5193490e17d586fa47dea4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:16 +0000
Subject: [PATCH 01/72] fix: give every file its own object's address when
 files share an object

Files with the same object URL share one trie entry, which only remembered the
start of the last of them. All others got an empty address. Look the entry up
by URL instead.
---
 pkg/vdisc/builder.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..2501154 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -239,7 +239,8 @@ func (b *builder) Build() (string, error) {
 	metaBlocks := bytesToSectors(metaLen)
 	metaPadding := uint16(sectorsToBytes(metaBlocks) - metaLen)
 	entry := extents.At(0)
-	metaLeaf := leaves[0]
+	metaStart, _ := trie.Get(muBase.String())
+	metaLeaf := leaves[metaStart]
 	entry.SetUriPrefix(safecast.IntToUint32(metaLeaf.Parent))
 	entry.SetUriSuffix(metaLeaf.Content)
 
@@ -253,7 +254,9 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		// several files may share an object, and with it the leaf
+		start, _ := trie.Get(obj.URL())
+		leaf := leaves[start]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		entry.SetUriSuffix(leaf.Content)
 		entry.SetBlocks(blocks)
-- 
2.43.0


From 75f5b316d08eeaad220f648df77b3490fb59b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:17 +0000
Subject: [PATCH 02/72] fix: resolve object addresses of a disc opened by a
 relative path

A disc loaded by a relative path turned the absolute addresses of its objects
into relative ones, and lost leading parent directories of its own path. Only
join paths when both are relative.
---
 pkg/vdisc/extent.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..948c22a 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	stdurl "net/url"
 	"os"
+	"path"
 	"strings"
 
 	"github.com/NVIDIA/vdisc/pkg/safecast"
@@ -71,8 +72,11 @@ func (e *extent) URL() string {
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
-		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
+	if e.baseURL.Scheme == "" && !strings.HasPrefix(e.baseURL.Path, "/") &&
+		u.Scheme == "" && u.Host == "" && !strings.HasPrefix(u.Path, "/") {
+		// Both are relative paths, and so is the result
+		resolved.Path = path.Join(path.Dir(e.baseURL.Path), u.Path)
+		resolved.RawPath = ""
 	}
 
 	return resolved.String()
-- 
2.43.0


From 34080a54a5e715de33980e5ad2342631626c5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:27 +0000
Subject: [PATCH 03/72] fix: decode symlink targets that end in '.', '..' or
 '/'

The check for the last component was skipped for the special components, so a
link with such a target lost it. The root target was also written as two root
components.
---
 pkg/iso9660/rrip/sl.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..db305eb 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -143,6 +143,9 @@ func NewSymlinkPart(flags SymlinkComponentFlag, data string, cont bool) (susp.Sy
 func NewSymlink(target string) ([]susp.SystemUseEntry, error) {
 	var sls []*Symlink
 	segments := strings.Split(path.Clean(target), string(os.PathSeparator))
+	if path.Clean(target) == string(os.PathSeparator) {
+		segments = []string{""}
+	}
 	for _, segment := range segments {
 		components, err := NewSymlinkComponent(segment)
 		if err != nil {
@@ -228,25 +231,21 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
+				if len(parts) == 1 && parts[0] == "" {
+					return string(os.PathSeparator), true
+				}
 				return strings.Join(parts, string(os.PathSeparator)), true
 			}
 		}
-- 
2.43.0


From a5e510ffe344ab7f1c0b4868e915fc8e0c7aa7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:28 +0000
Subject: [PATCH 04/72] fix: number path table records from one

ECMA-119 counts path table records from 1. The parent numbers written were all
one too small, and zero for the root.
---
 pkg/iso9660/directoryinode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..534e0a6 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -353,7 +353,7 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 
 //ToPathTable computes the PathTable for the inode
 func (d *DirectoryInode) ToPathTable() PathTable {
-	var idx uint16
+	var idx uint16 = 1 // records are numbered from 1, and the root is its own parent
 	indices := make(map[Inode]uint16)
 	var table PathTable
 
-- 
2.43.0


From 557b79c92bb0854d8ad930c65c0ca385809e402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:31 +0000
Subject: [PATCH 05/72] fix: record times in UTC with a zero GMT offset

The offset is a signed number of quarter hours, so 50 told readers that the UTC
times were local times twelve and a half hours ahead.
---
 pkg/iso9660/datetime/datetime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/datetime/datetime.go b/pkg/iso9660/datetime/datetime.go
index fa4ebd2..5186708 100644
--- a/pkg/iso9660/datetime/datetime.go
+++ b/pkg/iso9660/datetime/datetime.go
@@ -33,7 +33,7 @@ func NewDecDateTime(t time.Time) DecDateTime {
 	copy(result[10:12], fmt.Sprintf("%02d", t.Minute()))
 	copy(result[12:14], fmt.Sprintf("%02d", t.Second()))
 	copy(result[14:16], fmt.Sprintf("%02d", t.Nanosecond()/10000000)) // Hundredths of a second
-	result[16] = 50
+	result[16] = 0 // UTC
 
 	return result
 }
@@ -60,7 +60,7 @@ func NewEntryDateTime(t time.Time) EntryDateTime {
 	result[3] = byte(t.Hour())
 	result[4] = byte(t.Minute())
 	result[5] = byte(t.Second())
-	result[6] = 50
+	result[6] = 0 // UTC
 	return result
 }
 
-- 
2.43.0


From 731d288b4dba04203c51a6f9f950775b32b75e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:31 +0000
Subject: [PATCH 06/72] fix: keep the paths of sibling directories apart when
 walking

Siblings appended their names to one shared slice, so below some depth all
but the last were reported under a wrong path.
---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..dd79223 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -81,7 +81,7 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(item.parts[:len(item.parts):len(item.parts)], fi.Name()),
 					fi:    fi,
 				})
 			}
-- 
2.43.0


From d64d44b451b75c14a750b459f5e489fef9615c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:31 +0000
Subject: [PATCH 07/72] fix: read continuation areas when listing an open
 directory

File.ReadDir looked for the continuation areas inside the directory itself, so
entries with long names got a wrong name or failed.
---
 pkg/iso9660/file.go | 3 ++-
 pkg/iso9660/walk.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/file.go b/pkg/iso9660/file.go
index 5408633..4bdaeb3 100644
--- a/pkg/iso9660/file.go
+++ b/pkg/iso9660/file.go
@@ -23,6 +23,7 @@ import (
 
 type File struct {
 	name string
+	iso  io.ReaderAt
 	fi   *FileInfo
 	r    *io.SectionReader
 	pos  int64
@@ -62,7 +63,7 @@ func (f *File) ReadDir() ([]*FileInfo, error) {
 	}
 
 	var entries []*FileInfo
-	err := iterDir(f.r, 0, f.r.Size(), func(fi *FileInfo) bool {
+	err := iterDir(f.iso, f.fi.Extent(), f.fi.Size(), func(fi *FileInfo) bool {
 		entries = append(entries, fi)
 		return true
 	})
diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index dd79223..d12e3ce 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -121,6 +121,7 @@ func (w *Walker) Open(name string) (*File, error) {
 
 	return &File{
 		name: name,
+		iso:  w.iso,
 		fi:   fi,
 		r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),
 	}, nil
-- 
2.43.0


From 41a5c7ce66698788dfdcd837eba7e309470daca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:11 +0000
Subject: [PATCH 08/72] fix: do not share system use entries between the
 extents of a file

Appending the continuation entry of one record overwrote the entries of the
following records of the same file, which then repeated or lost some.
---
 pkg/iso9660/directoryinode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 534e0a6..417aa56 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -315,7 +315,8 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 
 			if len(overflow) > 0 {
 				ce := cont.Append(overflow)
-				record.SystemUse = append(record.SystemUse, ce)
+				n := len(record.SystemUse)
+				record.SystemUse = append(record.SystemUse[:n:n], ce)
 			}
 
 			dir.Records = append(dir.Records, *record)
-- 
2.43.0


From 0746214593a899aadc4ea0a669723b4703b3fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:12 +0000
Subject: [PATCH 09/72] fix: make path lookups independent of earlier lookups

Lookups that continued from a cached directory stored what they found under
paths without that directory, '.' and '..' were stored as the entries of the
directories they name, and a cached file was searched like a directory.
---
 pkg/iso9660/walk.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index d12e3ce..37cc2e2 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -142,8 +142,10 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 	}
 
 	err = iterDir(w.iso, fi.Extent(), fi.Size(), func(fi *FileInfo) bool {
-		cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
-		w.lstatCache.Add(cacheKey, fi)
+		if fi.Name() != "." && fi.Name() != ".." {
+			cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
+			w.lstatCache.Add(cacheKey, fi)
+		}
 		entries = append(entries, fi)
 		return true
 	})
@@ -182,7 +184,8 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	all := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(all)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -193,20 +196,24 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
 		return cached, nil
 	}
 
-	var path []string
+	// the components that lead to the directory at start
+	path := append([]string(nil), all[:len(all)-len(parts)]...)
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
 
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
-			if fi.IsDir() {
+			if fi.IsDir() && (fi.Name() == part || (fi.Name() != "." && fi.Name() != "..")) {
 				w.lstatCacheAdd(append(path, fi.Name()), fi)
 			}
 
-- 
2.43.0


From bd9f0b66c1341c5ce1f152eb3a8a5f8d36538fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:12 +0000
Subject: [PATCH 10/72] fix: follow absolute symlink targets from the root of
 the disc

They were looked up below the directory of the link.
---
 pkg/iso9660/walk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 37cc2e2..ebbdbcb 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -171,7 +171,10 @@ func (w *Walker) stat(parts []string) (*FileInfo, error) {
 				// If the symlink is a file, only join the directory part of the path
 				path = filepath.Dir(path)
 			}
-			joined := filepath.Clean(filepath.Join(path, fi.Target()))
+			joined := fi.Target()
+			if !filepath.IsAbs(joined) {
+				joined = filepath.Join(path, joined)
+			}
 			parts = w.pathParts(joined)
 		} else {
 			return fi, nil
-- 
2.43.0


From ab9bbc3c19ae9afa33f6af1b3c53ea4ea472de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:28 +0000
Subject: [PATCH 11/72] fix: wait for read-ahead before closing a cached object

Blocks still being read ahead used the object after it was closed. For the
extents of a disc that meant reading memory that was already unmapped.
---
 pkg/caching/cache.go     |  1 +
 pkg/caching/readahead.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/pkg/caching/cache.go b/pkg/caching/cache.go
index 62547eb..5420815 100644
--- a/pkg/caching/cache.go
+++ b/pkg/caching/cache.go
@@ -78,6 +78,7 @@ type withCaching struct {
 }
 
 func (w *withCaching) Close() error {
+	w.readAheadController.Close()
 	return w.obj.Close()
 }
 
diff --git a/pkg/caching/readahead.go b/pkg/caching/readahead.go
index ff7132b..c4c0784 100644
--- a/pkg/caching/readahead.go
+++ b/pkg/caching/readahead.go
@@ -45,12 +45,27 @@ type ReadAheadController struct {
 	runCount  int   // number of consecutive sequential reads
 	runLength int64 // the length of the current run
 	nextBlock int64
+	closed    bool
+
+	inFlight sync.WaitGroup
+}
+
+// Close stops the read-ahead and waits for the blocks that are being read.
+func (rac *ReadAheadController) Close() {
+	rac.mu.Lock()
+	rac.closed = true
+	rac.mu.Unlock()
+	rac.inFlight.Wait()
 }
 
 func (rac *ReadAheadController) Update(off int64, n int) {
 	rac.mu.Lock()
 	defer rac.mu.Unlock()
 
+	if rac.closed {
+		return
+	}
+
 	currBlock := off / rac.slicer.Bsize()
 
 	if rac.pos != off {
@@ -71,6 +86,7 @@ func (rac *ReadAheadController) Update(off int64, n int) {
 	damper := (rac.runLength + rac.slicer.Bsize() - 1) / rac.slicer.Bsize()
 	limit := currBlock + rac.window
 	for rac.nextBlock <= limit && damper > 0 && rac.nextBlock < rac.numBlocks && rac.readAheadTokens.TryAcquire(1) {
+		rac.inFlight.Add(1)
 		go rac.readBlock(rac.nextBlock)
 		rac.nextBlock++
 		damper--
@@ -78,6 +94,7 @@ func (rac *ReadAheadController) Update(off int64, n int) {
 }
 
 func (rac *ReadAheadController) readBlock(block int64) {
+	defer rac.inFlight.Done()
 	defer rac.readAheadTokens.Release(1)
 
 	bsize := rac.slicer.Bsize()
-- 
2.43.0


From d905cd583ecdb65469415daeb30b9a9763e8a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:44 +0000
Subject: [PATCH 12/72] fix: report read errors at the start of a directory
 record

A failed read was taken for the padding at the end of a sector, and the
entries behind it were left out of the listing without an error.
---
 pkg/iso9660/walk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index ebbdbcb..9091e79 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -524,6 +524,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From f1d5261e274b8a5eb33e7ad48185f93cdab654d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:45 +0000
Subject: [PATCH 13/72] fix: read directories located beyond 4 GiB

The byte offset of a directory or continuation area was computed in 32 bits.
---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 9091e79..d4321fc 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -304,9 +304,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
+			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
 				return nil, err
@@ -480,7 +480,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From e5a186aee114e3fb6edb9ddd4f64ae20807ecfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:45 +0000
Subject: [PATCH 14/72] fix: forget a memory buffer whose read-ahead failed

A failed read-ahead left the buffer marked as holding the block with no
bytes in it. Later reads of that block reported end of file instead of
reading the source.
---
 pkg/caching/mem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..bace1d2 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,13 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+
+	if err != nil {
+		// Reset the buffer on error. The next caller will attempt to
+		// fill the buffer.
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From 179955194253e645a4693e1a901183fdfda6070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:03 +0000
Subject: [PATCH 15/72] fix: do not report end of file for a block the source
 lacks

When a source object ended exactly where a cached block should start, the
caches passed on a plain end of file. Readers took that for the end of the
object. They now get an unexpected end of file error.
---
 pkg/caching/disk.go | 4 ++++
 pkg/caching/mem.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..778f653 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -285,6 +285,10 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	b := ds.bufPool.Get().([]byte)
 	src := io.NewSectionReader(ds.obj, ds.offset, ds.bsize) // TNARG
 	m, rerr := io.ReadFull(src, b[:ds.size])
+	if rerr == io.EOF {
+		// The source ended before the block it should contain.
+		rerr = io.ErrUnexpectedEOF
+	}
 	if rerr != nil {
 		// Reading from the source failed, nothing we can do.
 		unlock()
diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bace1d2..dc6c96d 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -62,6 +62,10 @@ func (ms *memSlicer) Slice(obj storage.Object, offset int64) Slice {
 
 			src := io.NewSectionReader(obj, offset, size)
 			n, err := io.ReadFull(src, buf[:size])
+			if err == io.EOF {
+				// The source ended before the block it should contain.
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From d4e0f23e21101dc031ad940b105a3f583c470434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:30 +0000
Subject: [PATCH 16/72] fix: serve reads from the source when the disk cache is
 unusable

A read failed when the lock of its cache entry could not be taken or the
entry could not be opened, for example with a read-only or full cache
directory. Such reads now go straight to the source object.
---
 pkg/caching/disk.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 778f653..0f967c3 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -250,7 +250,7 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	lockc, lerr := storage.Lock(filepath.Join(dir, ".lock."+base))
 	if lerr != nil {
 		cacheLogger().Error("cache lock", zap.Error(lerr))
-		return 0, lerr
+		return ds.readSource(p, off)
 	}
 
 	unlock := func() {
@@ -275,9 +275,9 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 		}
 	} else if !os.IsNotExist(serr) {
 		// There was some deeper issue checking the cache
+		cacheLogger().Error("cache read error", zap.Error(serr))
 		unlock()
-		err = serr
-		return
+		return ds.readSource(p, off)
 	}
 
 	// Okay, it is our job to try to fill the cache.  Grab a
@@ -359,6 +359,26 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	return
 }
 
+// readSource serves a read straight from the source when the cache is unusable.
+func (ds *diskSlice) readSource(p []byte, off int64) (n int, err error) {
+	if p == nil {
+		return
+	}
+	if off >= ds.size {
+		return 0, io.EOF
+	}
+
+	if int64(len(p)) > ds.size-off {
+		p = p[:ds.size-off]
+	}
+	src := io.NewSectionReader(ds.obj, ds.offset+off, int64(len(p)))
+	n, err = io.ReadFull(src, p)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return
+}
+
 func (ds *diskSlice) Seek(offset int64, whence int) (int64, error) {
 	switch whence {
 	case io.SeekCurrent:
-- 
2.43.0


From 117949b1649ab8f53ce3581768fb6408a223b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:30 +0000
Subject: [PATCH 17/72] fix: close the entry found while filling the disk cache

The second look at the cache, made under the lock, opened the entry and
never closed it.
---
 pkg/caching/disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 0f967c3..c0b2712 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -262,6 +262,8 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	// Double check that we didn't lose the race trying to write to the cache
 	cobj, serr := storage.Open(fname)
 	if serr == nil {
+		defer cobj.Close()
+
 		switch xobj := cobj.(type) {
 		case driver.XattrObject:
 			ckey, xerr := xobj.GetXattr(XattrKey)
-- 
2.43.0


From 0fde695e7eb8183a6d18744fe216dd83e155176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:30 +0000
Subject: [PATCH 18/72] fix: report end of file past the end of a disk cache
 slice

A read at the end of a slice was retried until its entry was stored, which
is forever when the cache cannot be written. A read further out crashed.
---
 pkg/caching/disk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index c0b2712..20c8661 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -200,6 +200,10 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off >= ds.size {
+		return 0, io.EOF
+	}
+
 	for {
 		cobj, cerr := storage.Open(ds.cacheFname())
 		if cerr == nil {
-- 
2.43.0


From 82afdaa37deedb839b678710417ce3509d6b4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:53 +0000
Subject: [PATCH 19/72] fix: read past the end of a concatenation with an empty
 last part

A read that reached past the end started its search at the empty last part,
found no overlap and failed with an unexpected end of file. The search now
starts at the last byte that exists.
---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From 1ee73de84b2723585fab102f7c880d6eeab51b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:53 +0000
Subject: [PATCH 20/72] fix: close every part of a concatenation

Empty parts were not closed because the next part took their place in the
index, and one failing close kept all later parts open.
---
 pkg/storage/concat.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index d62e355..f2d322c 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -54,6 +54,7 @@ func concat(concurrent bool, objects []AnonymousObject) AnonymousObject {
 	}
 
 	return &concatenated{
+		objects:    objects,
 		parts:      parts,
 		size:       off,
 		concurrent: concurrent,
@@ -61,6 +62,7 @@ func concat(concurrent bool, objects []AnonymousObject) AnonymousObject {
 }
 
 type concatenated struct {
+	objects    []AnonymousObject
 	parts      *btree.BTree
 	size       int64
 	concurrent bool
@@ -68,10 +70,11 @@ type concatenated struct {
 }
 
 func (c *concatenated) Close() (err error) {
-	c.parts.Ascend(func(i btree.Item) bool {
-		err = i.(part).Obj.Close()
-		return err == nil
-	})
+	for _, obj := range c.objects {
+		if cerr := obj.Close(); cerr != nil && err == nil {
+			err = cerr
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 1bd0172ebb6e114dd08255c93fb72ce3326a8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:36 +0000
Subject: [PATCH 21/72] fix: report a usable address for objects committed to
 memory

The path ended up in the host part of the reported address, so opening the
address failed.
---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..54c9edd 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -293,7 +293,7 @@ func urlToPath(url string) (string, error) {
 func pathToUrl(path string) string {
 	var u stdurl.URL
 	u.Scheme = "ram"
-	u.Path = path
+	u.Path = "/" + path
 	return u.String()
 }
 
-- 
2.43.0


From 12713bde0fb6ee2e69b5e97033db356e038ed9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:36 +0000
Subject: [PATCH 22/72] fix: use a valid media type for committed data
 addresses

The data address reported by a commit had a media type that the driver
itself refuses to decode, so it could not be opened.
---
 pkg/storage/data/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index e87efcc..1e1b1ef 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -35,7 +35,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, driver.CommitOnAbortedObjectWriter
 	}
 
-	durl := dataurl.New(ow.buf.Bytes(), "binary/octet-stream")
+	durl := dataurl.New(ow.buf.Bytes(), "application/octet-stream")
 
 	return driver.NewCommitInfo(durl.String()), nil
 }
-- 
2.43.0


From f4e5df469fbc9cd09deb7e8912e5f4f00beec6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:17 +0000
Subject: [PATCH 23/72] fix: keep the directories of a depth-first visit apart

The directories being visited shared memory with the stack the next ones
were pushed to. Directories were visited twice or not at all.
---
 pkg/storage/driver/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..d0cce5b 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -116,7 +116,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		if depthFirst {
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
-			paths = nextPaths[amt:]
+			paths = append(paths, nextPaths[amt:]...)
 			nextPaths = nextPaths[:amt]
 		} else {
 			paths = nextPaths
-- 
2.43.0


From 47acd8648b664bccd662aba5e785998af4a96647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:51 +0000
Subject: [PATCH 24/72] fix: do not lose the error that ends a visit

When the failing worker was the last one, the visit could take the end of
the results for success and go on without the failed directory.
---
 pkg/storage/driver/visitor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index d0cce5b..c2a8c09 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -154,6 +154,15 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 			select {
 			case p, ok := <-resultPaths:
 				if !ok {
+					// The workers are done, but they may have stopped early.
+					select {
+					case err := <-errors:
+						return err
+					default:
+					}
+					if err := ctx.Err(); err != nil {
+						return err
+					}
 					break accumulate
 				}
 				nextPaths = append(nextPaths, p)
-- 
2.43.0


From 82d88ee18f896fe6e566942a71423ee67fcb12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:44 +0000
Subject: [PATCH 25/72] fix: end the feeder of a visit that stops early

A failed or cancelled visit left a goroutine behind that waited forever to
hand over the next directory.
---
 pkg/storage/driver/visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index c2a8c09..c7fe988 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -139,7 +139,11 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		// Feed workers.
 		go func() {
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+					return
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
-- 
2.43.0


From 0367baf8b83bdf9207d4f085e93ee5b43bedbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:46 +0000
Subject: [PATCH 26/72] fix: reject out-of-range Content-Range headers and
 negative offsets without a panic

The lengths in an HTTP answer were converted before they had been compared
with the request, and the conversion panics on very large values.
Compare the range first. Report a negative offset as an error.
---
 pkg/storage/http/object.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..fb78dc8 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -86,6 +86,11 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off < 0 {
+		err = fmt.Errorf("http get %q: negative offset %d", o.url, off)
+		return
+	}
+
 	// make sure we've computed the object size
 	o.Size()
 
@@ -144,13 +149,13 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
-		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
+	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
+		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
 		return
 	}
 
-	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
-		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
+	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
+		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
 		return
 	}
 
-- 
2.43.0


From 7cb3c05c92e2a542a073dd398c45bf8b928f8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:35 +0000
Subject: [PATCH 27/72] fix: honour the configured first retry interval

The back-off had copied its default interval before the option was applied,
so the first retry always waited about half a second.
---
 pkg/httputil/retry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..5e55c9c 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -50,6 +50,7 @@ func retry(doFn retryFunc, options ...RetryOptions) {
 		if options[0].InitialInterval != 0 {
 			b.InitialInterval = options[0].InitialInterval
 		}
+		b.Reset()
 	}
 	for {
 		retry := doFn()
-- 
2.43.0


From 1f36111c5ee59d8d8b5318a0f8a3154ae2b7a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:37 +0000
Subject: [PATCH 28/72] fix: stop retrying an HTTP request once it is cancelled

Waiting between attempts ignored the request's context, and further attempts
were made after the caller had given up.
---
 pkg/httputil/retry.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 5e55c9c..51cdcce 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -15,6 +15,7 @@
 package httputil
 
 import (
+	"context"
 	"net/http"
 	"time"
 
@@ -38,7 +39,7 @@ func WithRetries(base http.RoundTripper, options ...RetryOptions) http.RoundTrip
 
 type retryFunc func() (retry bool)
 
-func retry(doFn retryFunc, options ...RetryOptions) {
+func retry(ctx context.Context, doFn retryFunc, options ...RetryOptions) {
 	b := backoff.NewExponentialBackOff()
 	if len(options) > 0 {
 		if options[0].MaxElapsedTime != 0 {
@@ -55,10 +56,16 @@ func retry(doFn retryFunc, options ...RetryOptions) {
 	for {
 		retry := doFn()
 		delay := b.NextBackOff()
-		if !retry || delay == backoff.Stop {
+		if !retry || delay == backoff.Stop || ctx.Err() != nil {
 			return
 		}
-		time.Sleep(delay)
+		timer := time.NewTimer(delay)
+		select {
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		case <-timer.C:
+		}
 	}
 }
 
@@ -68,7 +75,7 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
-	retry(func() (retry bool) {
+	retry(req.Context(), func() (retry bool) {
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
-- 
2.43.0


From 31422918499c1d63f8d617c140bb688e4148fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:38 +0000
Subject: [PATCH 29/72] fix: close the answers that an HTTP retry abandons

Their bodies were never closed, so each retry held a connection.
---
 pkg/httputil/retry.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 51cdcce..98b7315 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -16,6 +16,8 @@ package httputil
 
 import (
 	"context"
+	"io"
+	"io/ioutil"
 	"net/http"
 	"time"
 
@@ -76,6 +78,12 @@ type retryingRoundTripper struct {
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	retry(req.Context(), func() (retry bool) {
+		if resp != nil {
+			// Let go of the answer of the previous attempt. Reading a
+			// little of it allows the connection to be reused.
+			io.CopyN(ioutil.Discard, resp.Body, 4096)
+			resp.Body.Close()
+		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
-- 
2.43.0


From 2b26e4453d067632add02168bef1071d1b71b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:40 +0000
Subject: [PATCH 30/72] fix: send the whole body again when an HTTP request is
 retried

Later attempts carried what the first one had left of the body. Take a new
copy of it for each attempt. A request whose body cannot be produced again is
not retried.
---
 pkg/httputil/retry.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 98b7315..9a2a894 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -77,6 +77,8 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	hasBody := req.Body != nil && req.Body != http.NoBody
+	attempt := req
 	retry(req.Context(), func() (retry bool) {
 		if resp != nil {
 			// Let go of the answer of the previous attempt. Reading a
@@ -84,8 +86,23 @@ func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response
 			io.CopyN(ioutil.Discard, resp.Body, 4096)
 			resp.Body.Close()
 		}
-		resp, err = r.rt.RoundTrip(req)
+		if attempt == nil {
+			// The previous attempt has used up the body.
+			var body io.ReadCloser
+			if body, err = req.GetBody(); err != nil {
+				resp = nil
+				return
+			}
+			again := *req
+			again.Body = body
+			attempt = &again
+		}
+		resp, err = r.rt.RoundTrip(attempt)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
+		if hasBody {
+			retry = retry && req.GetBody != nil
+			attempt = nil
+		}
 		if retry {
 			if err != nil {
 				warnf("retrying %s: %s\n", req.URL.String(), err)
-- 
2.43.0


From 20ccb5244fb4f5d5c54ffd202e4a49605cd908bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:01 +0000
Subject: [PATCH 31/72] fix: dial IPv6 addresses of a round-robin host

The address and the port were joined without brackets, which no dialer
accepts for an IPv6 address.
---
 pkg/httputil/rr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..850a025 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -22,7 +22,6 @@ import (
 	"math/rand"
 	"net"
 	"net/http"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -288,6 +287,9 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 }
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
-	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	_, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, port))
 }
-- 
2.43.0


From d96c1409ae1a68f4e001fe29fedf02282ce1bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:02 +0000
Subject: [PATCH 32/72] fix: do not crash when a round-robin host is evicted

The channel that stops the resolver of an evicted host was never made, and
closing it panicked.
---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 850a025..c0f7508 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -165,6 +165,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From be836387bc1984e3f6a904bd552b711d22c50939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:58 +0000
Subject: [PATCH 33/72] fix: do not commit an S3 object whose upload from a
 reader failed

The error of the upload was returned to the caller but not remembered, so a
commit afterwards reported success.
---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..5e562a4 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -91,6 +91,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From 74e1c1f930faf33427eb2d21ee8b134f8fd1c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:59 +0000
Subject: [PATCH 34/72] fix: wait for an S3 upload that has just been started

The upload was registered by the goroutine that starts it. A commit could
find nothing to wait for and report success before the upload had run.
---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 5e562a4..c7fa29e 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -113,7 +113,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -124,7 +124,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From 4e66d8b3549b92c8422719d73ff469ed12f26a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:01 +0000
Subject: [PATCH 35/72] fix: do not commit an S3 object after an abort

A commit after an abort reported success, and published an empty object when
nothing had been written yet. Remember that the writer was aborted.
---
 pkg/storage/s3/writer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index c7fa29e..1b1df03 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -34,6 +34,7 @@ const (
 	writerStateOpened int32 = iota
 	writerStatePiped
 	writerStateDirect
+	writerStateAborted
 )
 
 func NewObjectWriter(svc s3iface.S3API, bucket, key, canonicalURL string) driver.ObjectWriter {
@@ -59,6 +60,8 @@ type objectWriter struct {
 	version      string
 }
 
+var errAborted = errors.New("abort file creation")
+
 func (ow *objectWriter) startPiped() {
 	ow.wg.Add(1)
 	go func() {
@@ -116,6 +119,8 @@ func (ow *objectWriter) Write(b []byte) (int, error) {
 		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return 0, errAborted
 	}
 	return ow.pipeWriter.Write(b)
 }
@@ -131,6 +136,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		ow.wg.Wait()
 	}
 
+	if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return nil, errAborted
+	}
+
 	if ow.err != nil {
 		return nil, ow.err
 	}
@@ -138,9 +147,9 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Abort() {
-	if atomic.LoadInt32(&ow.state) == writerStatePiped {
+	if atomic.SwapInt32(&ow.state, writerStateAborted) == writerStatePiped {
 		// TODO: log error
-		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
+		ow.pipeWriter.CloseWithError(errAborted)
 		ow.wg.Wait()
 	}
 }
-- 
2.43.0


From 54161c17a9d64320d7c3ff7718b7b03c39e080b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 36/72] fix: upload a seekable reader from its current position

The part of a reader that had been read before the upload was sent instead of
the end of the data.
---
 pkg/s3util/uploader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 70657da..4f2dc37 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -159,6 +159,12 @@ func (u *uploader) initSize() {
 		}
 		u.totalSize = n
 
+		// The data starts at the reader's current position.
+		if pos, err := r.Seek(0, io.SeekCurrent); err == nil {
+			u.readerPos = pos
+			u.totalSize += pos
+		}
+
 		// Try to adjust partSize if it is too small and account for
 		// integer division truncation.
 		if u.totalSize/u.cfg.PartSize >= int64(u.cfg.MaxUploadParts) {
-- 
2.43.0


From e0e9621a4c97bdebff35fcee0dd02bec0792b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:54 +0000
Subject: [PATCH 37/72] fix: send the version marker when continuing a bucket
 listing

The name of the query parameter was misspelled and its equals sign was
missing. A page that ended between two versions of a key was continued at
the next key, so the remaining versions were lost.
---
 pkg/s3util/listbucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index 5b8809e..c1f3d3e 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -91,7 +91,7 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		nextUrl := url
 		if nextVersionId != nil || nextKey != nil {
 			if nextKey != nil && nextVersionId != nil {
-				nextUrl = fmt.Sprintf("%s&key-marker=%s&verion-id-marker%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
+				nextUrl = fmt.Sprintf("%s&key-marker=%s&version-id-marker=%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
 			} else if nextKey != nil {
 				nextUrl = fmt.Sprintf("%s&key-marker=%s", url, stdurl.QueryEscape(*nextKey))
 			} else if nextVersionId != nil {
-- 
2.43.0


From a9ec7d8dc95d26952148fd0ede485ed720260309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:54 +0000
Subject: [PATCH 38/72] fix: end a bucket listing that cannot be continued

A page that was marked as truncated but named no position to continue
from made the listing start over forever.
---
 pkg/s3util/listbucket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index c1f3d3e..bda1457 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -139,6 +139,9 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		if !page.IsTruncated {
 			break
 		}
+		if nextVersionId == nil && nextKey == nil {
+			return fmt.Errorf("s3 readdir: truncated bucket listing without a marker")
+		}
 	}
 
 	return nil
-- 
2.43.0


From b6ea2908fefc2ab76bfb6d0e442bd0d8290fbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:47 +0000
Subject: [PATCH 39/72] fix: reject the release of an unknown file handle

The handle was looked up, found missing and then closed all the same,
which crashed the filesystem server.
---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..48a1cf3 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return fuse.EINVAL
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From 199a7ab641ad7981948a84a3e509333d35c05931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:00 +0000
Subject: [PATCH 40/72] fix: compare names when looking up cached directory
 entries

The cache of directory entries identifies an entry by a hash only. Two
names with the same hash could be answered with each other's file.
---
 pkg/isofuse/cache.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/isofuse/cache.go b/pkg/isofuse/cache.go
index dc6807d..82b5716 100644
--- a/pkg/isofuse/cache.go
+++ b/pkg/isofuse/cache.go
@@ -49,16 +49,25 @@ type finfoCache struct {
 }
 
 func (fc *finfoCache) Put(parent fuseops.InodeID, name string, fi *iso9660.FileInfo) {
-	fc.c.Set(&finfoKey{parent, name}, fi, finfoCost(fi))
+	key := finfoKey{parent, name}
+	v := &finfoValue{key, fi}
+	fc.c.Set(&key, v, finfoCost(v))
 }
 
 func (fc *finfoCache) Get(parent fuseops.InodeID, name string) (*iso9660.FileInfo, bool) {
-	v, ok := fc.c.Get(&finfoKey{parent, name})
+	key := finfoKey{parent, name}
+	v, ok := fc.c.Get(&key)
 	if !ok {
 		return nil, false
 	}
 
-	return v.(*iso9660.FileInfo), true
+	// The cache only compares hashes of keys
+	fv := v.(*finfoValue)
+	if fv.key != key {
+		return nil, false
+	}
+
+	return fv.fi, true
 }
 
 type finfoKey struct {
@@ -66,6 +75,11 @@ type finfoKey struct {
 	name   string
 }
 
+type finfoValue struct {
+	key finfoKey
+	fi  *iso9660.FileInfo
+}
+
 func finfoHash(key interface{}) uint64 {
 	k := key.(*finfoKey)
 	h := fnv.New64()
@@ -75,6 +89,6 @@ func finfoHash(key interface{}) uint64 {
 }
 
 func finfoCost(value interface{}) int64 {
-	v := value.(*iso9660.FileInfo)
+	v := value.(*finfoValue).fi
 	return int64(len(v.Name()) + len(v.Target()) + 65)
 }
-- 
2.43.0


From 32b383591d3959a2e9771138aa6d697cf90479b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:46 +0000
Subject: [PATCH 41/72] fix: do not copy the filesystem when releasing a
 directory handle

The method was declared on the filesystem by value. Each call copied its
locks and read the handle counter while other operations changed it.
---
 pkg/isofuse/dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/isofuse/dir.go b/pkg/isofuse/dir.go
index d4e8bfc..0bbc643 100644
--- a/pkg/isofuse/dir.go
+++ b/pkg/isofuse/dir.go
@@ -150,7 +150,7 @@ func (fs *isoFS) OpenDir(ctx context.Context, op *fuseops.OpenDirOp) error {
 
 // ReleaseDirHandle is a nop added to avoid error logs. sent by kernel when there are
 // no more references to dir handle and all file descriptor are closed.
-func (fs isoFS) ReleaseDirHandle(ctx context.Context, op *fuseops.ReleaseDirHandleOp) error {
+func (fs *isoFS) ReleaseDirHandle(ctx context.Context, op *fuseops.ReleaseDirHandleOp) error {
 	return nil
 }
 
-- 
2.43.0


From 5ebfb934355fb81501653c154c1ad42f7548fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:16 +0000
Subject: [PATCH 42/72] fix: hold extents to their declared size

Reads of a file showed bytes behind its declared size when the source object
had grown. When the source had shrunk they ended with a plain end of file.
Clamp reads to the declared size and report a short source as an unexpected
end of file.
---
 pkg/vdisc/extent.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 948c22a..a3def3a 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -105,13 +105,36 @@ func (e *extent) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	// The extent ends at its declared size, even if the object has grown
+	size := e.Size()
+	if off >= size {
+		if len(p) > 0 {
+			err = io.EOF
+		}
+		return
+	}
+	atEnd := int64(len(p)) > size-off
+	if atEnd {
+		p = p[:size-off]
+	}
+
 	var obj storage.Object
-	obj, err = storage.OpenContextSize(context.Background(), e.URL(), e.Size())
+	obj, err = storage.OpenContextSize(context.Background(), e.URL(), size)
 	if err != nil {
 		return
 	}
 	defer obj.Close()
-	return obj.ReadAt(p, off)
+
+	n, err = obj.ReadAt(p, off)
+	if n < len(p) {
+		if err == nil || err == io.EOF {
+			// The object is shorter than declared
+			err = io.ErrUnexpectedEOF
+		}
+	} else if err == nil && atEnd {
+		err = io.EOF
+	}
+	return
 }
 
 func (e *extent) Seek(offset int64, whence int) (int64, error) {
-- 
2.43.0


From e3aa72cd89784ce12a12b205f60481d1b3315b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:10 +0000
Subject: [PATCH 43/72] fix: tolerate timestamps without a modification time

The timestamps of a directory record need not include the modification time.
Reading such a record dereferenced a nil pointer.
---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index d4321fc..5552919 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -449,7 +449,7 @@ func (it *ReadDirIterator) Next() bool {
 
 	modTime := time.Unix(0, 0).UTC()
 
-	if ts, ok := rrip.DecodeTimestamps(systemUse); ok {
+	if ts, ok := rrip.DecodeTimestamps(systemUse); ok && ts.Modified != nil {
 		modTime = ts.Modified.UTC()
 	}
 
-- 
2.43.0


From 60e8e6332c59ad49f892318c3440ba1e607dbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:10 +0000
Subject: [PATCH 44/72] fix: report loops of continuation areas

A continuation area that leads back to itself made reading the directory go on
forever.
---
 pkg/iso9660/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 5552919..4eb524c 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -298,6 +298,7 @@ type aggregateRec struct {
 func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUseEntry, error) {
 	unconsumed := rec.SystemUse
 	var systemUse []susp.SystemUseEntry
+	visited := make(map[int64]bool)
 	for len(unconsumed) > 0 {
 		entry := unconsumed[0]
 		unconsumed = unconsumed[1:]
@@ -306,6 +307,10 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 
 			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
+			if visited[ceStart] {
+				return nil, fmt.Errorf("continuation areas form a loop at %d", ceStart)
+			}
+			visited[ceStart] = true
 			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
-- 
2.43.0


From 47083519b348ccd10b8bc04a3687032a712c3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:10 +0000
Subject: [PATCH 45/72] fix: report directories that contain themselves

Walking a damaged image with a directory below itself went on forever.
---
 pkg/iso9660/walk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 4eb524c..95096d7 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -63,6 +63,7 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 	}
 
 	q := queue.New()
+	visited := make(map[LogicalBlockAddress]bool)
 
 	if rootFi != nil && rootFi.IsDir() {
 		q.Enqueue(&walkItem{
@@ -73,6 +74,11 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 	for q.Len() > 0 {
 		item := q.Dequeue().(*walkItem)
+		if visited[item.fi.Extent()] {
+			return fmt.Errorf("walk /%s: directory at extent %d appears more than once", strings.Join(item.parts, "/"), item.fi.Extent())
+		}
+		visited[item.fi.Extent()] = true
+
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
 			if err = walkFn(path, fi, nil); err != nil {
-- 
2.43.0


From 96d59a153ff92a58124521ea18da2d0de6bbe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:12 +0000
Subject: [PATCH 46/72] fix: report discs without a root structure

Loading a file whose first segment is empty, such as a file of zeros, panicked.
---
 pkg/vdisc/loader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index e20bd09..d68ef45 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"compress/gzip"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -63,6 +64,16 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 	}
 	msg.TraverseLimit = math.MaxUint64
 
+	seg, err := msg.Segment(0)
+	if err != nil {
+		mmapHandle.Close()
+		return nil, err
+	}
+	if len(seg.Data()) < 8 {
+		mmapHandle.Close()
+		return nil, errors.New("invalid vdisc: no root pointer")
+	}
+
 	root, err := vdisc_types.ReadRootVDisc(msg)
 	if err != nil {
 		mmapHandle.Close()
-- 
2.43.0


From b2db2a991a084582e0bb9619d3959d4cc7e190d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:12 +0000
Subject: [PATCH 47/72] fix: report damaged gzip headers of discs

The error was dropped, and reading went on with a nil reader.
---
 pkg/vdisc/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index d68ef45..76d7f0d 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -195,7 +195,10 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 
 	var src io.Reader
 	if bytes.Equal(hdr, []byte{0x1f, 0x8b, 0x08, 0x00}) {
-		src, _ = gzip.NewReader(br)
+		src, err = gzip.NewReader(br)
+		if err != nil {
+			return nil, nil, err
+		}
 	} else {
 		src = br
 	}
-- 
2.43.0


From 079c9bd69d989c1fa480ca3fc125d18d75334ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:12 +0000
Subject: [PATCH 48/72] fix: report damaged addresses in discs

An address that cannot be put together made reads of the disc panic or go on
forever. Reads and address lookups now return an error.
---
 pkg/vdisc/extent.go | 30 ++++++++++++++++++++++++------
 pkg/vdisc/loader.go |  2 +-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index a3def3a..6d68359 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -17,6 +17,7 @@ package vdisc
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	stdurl "net/url"
 	"os"
@@ -44,18 +45,30 @@ func (e *extent) Close() error {
 }
 
 func (e *extent) URL() string {
+	url, err := e.resolve()
+	if err != nil {
+		return ""
+	}
+	return url
+}
+
+// resolve puts the address together. It fails if the disc is damaged.
+func (e *extent) resolve() (string, error) {
 	extent := e.extents.At(e.idx)
 	uri, err := extent.UriSuffix()
 	if err != nil {
-		panic(err)
+		return "", err
 	}
 
 	parent := extent.UriPrefix()
-	for {
+	for i := 0; ; i++ {
+		if int64(parent) >= int64(e.uris.Len()) || i >= e.uris.Len() {
+			return "", fmt.Errorf("invalid URI prefix - %d", parent)
+		}
 		node := e.uris.At(safecast.Uint32ToInt(parent))
 		prefix, err := node.Content()
 		if err != nil {
-			panic(err)
+			return "", err
 		}
 
 		uri = prefix + uri
@@ -68,7 +81,7 @@ func (e *extent) URL() string {
 	// Possibly evaluate relative to baseURL
 	u, err := stdurl.Parse(uri)
 	if err != nil {
-		panic(err)
+		return "", err
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
@@ -79,7 +92,7 @@ func (e *extent) URL() string {
 		resolved.RawPath = ""
 	}
 
-	return resolved.String()
+	return resolved.String(), nil
 }
 
 func (e *extent) Size() int64 {
@@ -118,8 +131,13 @@ func (e *extent) ReadAt(p []byte, off int64) (n int, err error) {
 		p = p[:size-off]
 	}
 
+	url, err := e.resolve()
+	if err != nil {
+		return
+	}
+
 	var obj storage.Object
-	obj, err = storage.OpenContextSize(context.Background(), e.URL(), size)
+	obj, err = storage.OpenContextSize(context.Background(), url, size)
 	if err != nil {
 		return
 	}
diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 76d7f0d..8b37337 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -285,5 +285,5 @@ func (v *vdisc) ExtentURL(lba iso9660.LogicalBlockAddress) (string, error) {
 		extents:   v.extents,
 		idx:       idx,
 	}
-	return ext.URL(), nil
+	return ext.resolve()
 }
-- 
2.43.0


From 5c5611c945bccef47c6dc10ff6d7a3cf68c0c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:30 +0000
Subject: [PATCH 49/72] fix: iterate directories beyond 4 GiB

Skipping the padding of a sector panicked at such an offset. Only damaged images
have directories of that size.
---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 95096d7..a80a847 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -541,7 +541,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 		if rlen == 0 {
 			// The rest of this sector is padding. Consume, and move on the the next sector.
 			pos := it.Tell()
-			padding := safecast.Uint64ToInt64(sectorsToBytes(bytesToSectors(safecast.Int64ToUint32(pos)))) - pos
+			padding := (LogicalBlockSize - pos%LogicalBlockSize) % LogicalBlockSize
 			if err := unpad(it.dir, safecast.Int64ToInt(padding)); err != nil {
 				it.rec = nil
 				it.recLen = -1
-- 
2.43.0


From 962cac17febf84da33ba4579fc6da64827ad8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:40 +0000
Subject: [PATCH 50/72] fix: close the disc file after loading

Every load of a disc left the file open.
---
 pkg/vdisc/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 8b37337..656cbfd 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -181,6 +181,8 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 		return nil, nil, err
 	}
 
+	defer res.Close()
+
 	r := io.NewSectionReader(res, 0, res.Size())
 
 	brSize := res.Size()
-- 
2.43.0


From d771718d802c81812e1de1ba0e3813e110b3a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:47 +0000
Subject: [PATCH 51/72] fix: close the objects added to a disc

Every file added to a disc stayed open until the process ended, so that a burn
of many files ran out of descriptors.
---
 pkg/vdisc/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 2501154..cbeb473 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -86,6 +86,8 @@ func (b *builder) AddFile(path string, url string, size int64) error {
 	if err != nil {
 		return err
 	}
+	// Only the address and the size are needed later
+	defer r.Close()
 
 	err = b.volume.AddFile(path, r)
 	if err != nil {
-- 
2.43.0


From 4104bce22e2e779dd538daf90f03bf13425ad3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:58 +0000
Subject: [PATCH 52/72] fix: go on collecting when an entry has vanished

Garbage collection of the cache stopped before it reached its threshold when
another collector removed the same entry.
---
 pkg/caching/disk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 20c8661..f49eb41 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -115,6 +115,10 @@ func (ds *DiskSlicer) Gc(threshold GcThreshold) {
 
 		// Unlink the victim and then fsync the parent dir
 		if err := storage.Remove(victim); err != nil {
+			if os.IsNotExist(err) {
+				// Somebody else evicted it
+				continue
+			}
 			cacheLogger().Error("failed to evict victim", zap.String("victim", victim), zap.Error(err))
 			return
 		}
-- 
2.43.0


From 51fb762c8666fd5bbc013843d783ee354f3a243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:58 +0000
Subject: [PATCH 53/72] fix: report truncated checksums in the cache

The integrity check panicked on an entry whose checksum attribute is shorter
than a checksum.
---
 pkg/caching/disk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index f49eb41..bc2a3d6 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -152,6 +152,10 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 				return err
 			}
 
+			if len(csumEnc) < 8 {
+				return fmt.Errorf("truncated checksum xattr: %q", fname)
+			}
+
 			expected = binary.LittleEndian.Uint64(csumEnc)
 		default:
 			return fmt.Errorf("object missing checksum xattr: %q", fname)
-- 
2.43.0


From 9b12c00a8c7de4388a3e698f671ae4f2b99d53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:16 +0000
Subject: [PATCH 54/72] fix: close cache entries once they are checked

The integrity check kept every entry open until its end and failed on caches
with more entries than descriptors.
---
 pkg/caching/disk.go | 57 +++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index bc2a3d6..24e15c0 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -135,40 +135,47 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 			return nil
 		}
 
-		cobj, err := storage.Open(fname)
-		if err != nil {
-			if os.IsNotExist(err) {
-				continue
-			}
+		if err := checkEntry(fname); err != nil {
 			return err
 		}
-		defer cobj.Close()
-
-		var expected uint64
-		switch xobj := cobj.(type) {
-		case driver.XattrObject:
-			csumEnc, err := xobj.GetXattr(XattrChecksum)
-			if err != nil {
-				return err
-			}
-
-			if len(csumEnc) < 8 {
-				return fmt.Errorf("truncated checksum xattr: %q", fname)
-			}
+	}
+	return nil
+}
 
-			expected = binary.LittleEndian.Uint64(csumEnc)
-		default:
-			return fmt.Errorf("object missing checksum xattr: %q", fname)
+func checkEntry(fname string) error {
+	cobj, err := storage.Open(fname)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
 		}
+		return err
+	}
+	defer cobj.Close()
 
-		csum := xxhash.New64()
-		if _, err := io.Copy(csum, cobj); err != nil {
+	var expected uint64
+	switch xobj := cobj.(type) {
+	case driver.XattrObject:
+		csumEnc, err := xobj.GetXattr(XattrChecksum)
+		if err != nil {
 			return err
 		}
 
-		if csum.Sum64() != expected {
-			return fmt.Errorf("Bad checksum: %q", fname)
+		if len(csumEnc) < 8 {
+			return fmt.Errorf("truncated checksum xattr: %q", fname)
 		}
+
+		expected = binary.LittleEndian.Uint64(csumEnc)
+	default:
+		return fmt.Errorf("object missing checksum xattr: %q", fname)
+	}
+
+	csum := xxhash.New64()
+	if _, err := io.Copy(csum, cobj); err != nil {
+		return err
+	}
+
+	if csum.Sum64() != expected {
+		return fmt.Errorf("Bad checksum: %q", fname)
 	}
 	return nil
 }
-- 
2.43.0


From 8d47225a6f70ccf8660a79a4aa64fbde88b69bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:33 +0000
Subject: [PATCH 55/72] fix: use distinct keys for the options carried by a
 context

The keys were integer variables used by value. All of them were zero and
therefore equal, so setting one option replaced or hid the others, also those
of other drivers.
---
 pkg/storage/http/context.go  |  8 ++++----
 pkg/storage/s3/context.go    |  8 ++++----
 pkg/storage/swift/context.go | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..e5e9b4f 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -25,19 +25,19 @@ var (
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
-	return context.WithValue(ctx, ctxAuthzKey, &authz)
+	return context.WithValue(ctx, &ctxAuthzKey, &authz)
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func AuthzFromCtx(ctx context.Context) (*string, bool) {
-	v, ok := ctx.Value(ctxAuthzKey).(*string)
+	v, ok := ctx.Value(&ctxAuthzKey).(*string)
 	return v, ok
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..f2e408a 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -27,19 +27,19 @@ var (
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
-	return context.WithValue(ctx, ctxCredentialsKey, creds)
+	return context.WithValue(ctx, &ctxCredentialsKey, creds)
 }
 
 func CredentialsFromCtx(ctx context.Context) (*credentials.Credentials, bool) {
-	v, ok := ctx.Value(ctxCredentialsKey).(*credentials.Credentials)
+	v, ok := ctx.Value(&ctxCredentialsKey).(*credentials.Credentials)
 	return v, ok
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..8e141d6 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -26,28 +26,28 @@ var (
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
-	return context.WithValue(ctx, ctxCredentialsKey, creds)
+	return context.WithValue(ctx, &ctxCredentialsKey, creds)
 }
 
 func CredentialsFromCtx(ctx context.Context) (*SwiftCreds, bool) {
-	v, ok := ctx.Value(ctxCredentialsKey).(*SwiftCreds)
+	v, ok := ctx.Value(&ctxCredentialsKey).(*SwiftCreds)
 	return v, ok
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, &ctxTimeoutKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-	v, ok := ctx.Value(ctxRegionKey).(string)
+	v, ok := ctx.Value(&ctxRegionKey).(string)
 	return v, ok
 }
-- 
2.43.0


From 5544c2f776966d159a3d15d9ec621376b9e44207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:33 +0000
Subject: [PATCH 56/72] fix: keep the swift region under its own context key

The region was stored under the key of the timeout. It was never found, and it
removed a timeout set earlier.
---
 pkg/storage/swift/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 8e141d6..89e23a7 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -44,7 +44,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, &ctxTimeoutKey, region)
+	return context.WithValue(ctx, &ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 6ad41b4170503063f19f4d735bed951b51d8e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:51 +0000
Subject: [PATCH 57/72] fix: upload to swift with the credentials of the
 context

Uploads always used the credentials of the environment, unlike every other
operation of the driver.
---
 pkg/storage/swift/swift.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c8b3980..6ced879 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -62,7 +62,12 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		return nil, err
 	}
 
-	creds := credentials.NewCredentials(NewSwiftEnvProvider(parsed.Account))
+	var prov credentials.Provider
+	if creds, ok := CredentialsFromCtx(ctx); ok {
+		prov = NewSwiftCtxProvider(parsed.Account, creds)
+	} else {
+		prov = NewSwiftEnvProvider(parsed.Account)
+	}
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -73,7 +78,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithRegion(region).
 		WithEndpoint(fmt.Sprintf("https://%s", parsed.URL.Host)).
 		WithS3ForcePathStyle(true).
-		WithCredentials(creds).
+		WithCredentials(credentials.NewCredentials(prov)).
 		WithMaxRetries(100)
 
 	svc := s3.New(d.sess, config)
-- 
2.43.0


From cd69987f82fba47bd523b2df2b0195f59720efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:03 +0000
Subject: [PATCH 58/72] fix: stop visiting files when the visitor fails

The error of the visitor was dropped. Writing an image reported success although
a file could not be read or the output could not be written.
---
 pkg/iso9660/directoryinode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 417aa56..f555c9f 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,14 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				if err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
-				})
+				}); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 1884d440f587ae9403ce63c0a9037ae87b34cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:03 +0000
Subject: [PATCH 59/72] fix: report a file that ends before its size while
 writing an image

A source shorter than its declared size was written as it was, and the image
was reported as complete.
---
 pkg/iso9660/fileinode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/fileinode.go b/pkg/iso9660/fileinode.go
index a23744f..bc89db6 100644
--- a/pkg/iso9660/fileinode.go
+++ b/pkg/iso9660/fileinode.go
@@ -113,7 +113,11 @@ func (f *FileInode) SetStart(start LogicalBlockAddress) {
 
 func (f *FileInode) WriteTo(w io.Writer) (n int64, err error) {
 	sr := io.NewSectionReader(f.o, 0, f.o.Size())
-	return io.Copy(w, sr)
+	n, err = io.Copy(w, sr)
+	if err == nil && n != f.o.Size() {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
 func (f *FileInode) Object() storage.Object {
-- 
2.43.0


From 76bb2af81a14714b27c82a72d86f8f9f63e9b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:03 +0000
Subject: [PATCH 60/72] fix: write the sector of an empty file into the image

Every empty file is given a sector, but nothing was written for it. The next
file was then found at the wrong place and writing the image panicked.
---
 pkg/iso9660/volume.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2184966..e5b8266 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -394,10 +394,16 @@ func (v *Volume) WriteTo(w io.Writer) (int64, error) {
 			return nil
 		}
 		assertLBA(finode.Start())
-		if _, err := finode.WriteTo(cw); err != nil {
+		n, err := finode.WriteTo(cw)
+		if err != nil {
 			return err
 		}
 
+		if n == 0 {
+			// an empty file occupies a sector of its own
+			return pad(cw, LogicalBlockSize)
+		}
+
 		if err := padOutSector(); err != nil {
 			return err
 		}
-- 
2.43.0


From 6d179c9de64975f71715672c27fca00d6d58f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:44 +0000
Subject: [PATCH 61/72] fix: return write errors of names and links instead of
 panicking

The length written was checked before the error, so that a failing output made
writing a name or a symbolic link panic.
---
 pkg/iso9660/rrip/nm.go | 3 +++
 pkg/iso9660/rrip/sl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/iso9660/rrip/nm.go b/pkg/iso9660/rrip/nm.go
index 55a81c0..1f10e6c 100644
--- a/pkg/iso9660/rrip/nm.go
+++ b/pkg/iso9660/rrip/nm.go
@@ -106,6 +106,9 @@ func (nm *Name) WriteTo(w io.Writer) (n int64, err error) {
 
 	m, err = io.WriteString(w, nm.data)
 	n += int64(m)
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index db305eb..66cc8c1 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -212,6 +212,9 @@ func (sl *Symlink) WriteTo(w io.Writer) (n int64, err error) {
 
 	nn, err = sl.comp.WriteTo(w)
 	n += nn
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
-- 
2.43.0


From c7f785a8099e7d590b2f6ed9b37384698d54d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:05 +0000
Subject: [PATCH 62/72] fix: count concurrent positioned reads exactly

Positioned reads may run in parallel, but the byte count was updated without
synchronisation and lost updates.
---
 pkg/countio/readseeker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/countio/readseeker.go b/pkg/countio/readseeker.go
index 92bc46e..41ac1d5 100644
--- a/pkg/countio/readseeker.go
+++ b/pkg/countio/readseeker.go
@@ -45,7 +45,7 @@ func NewReaderAtSeekerWithAtomicCounter(r ReaderAtSeeker, counter *int64) *Count
 
 func (r *CountingReaderAtSeeker) Read(p []byte) (n int, err error) {
 	n, err = r.r.Read(p)
-	r.n += int64(n)
+	atomic.AddInt64(&r.n, int64(n))
 	if r.pn != nil {
 		atomic.AddInt64(r.pn, int64(n))
 	}
@@ -58,7 +58,7 @@ func (r *CountingReaderAtSeeker) Seek(offset int64, whence int) (int64, error) {
 
 func (r *CountingReaderAtSeeker) ReadAt(p []byte, off int64) (n int, err error) {
 	n, err = r.r.ReadAt(p, off)
-	r.n += int64(n)
+	atomic.AddInt64(&r.n, int64(n))
 	if r.pn != nil {
 		atomic.AddInt64(r.pn, int64(n))
 	}
@@ -66,5 +66,5 @@ func (r *CountingReaderAtSeeker) ReadAt(p []byte, off int64) (n int, err error)
 }
 
 func (r *CountingReaderAtSeeker) BytesRead() int64 {
-	return r.n
+	return atomic.LoadInt64(&r.n)
 }
-- 
2.43.0


From 06b4a8c48c34ee2c9ad5bb85eb7c1f4c70eba4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:34 +0000
Subject: [PATCH 63/72] fix: recognise the location of buckets in us-east-1

The store reports an empty location for these buckets (and EU for old ones
in eu-west-1). The address made from it named no host.
---
 pkg/storage/s3/region.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/region.go b/pkg/storage/s3/region.go
index cf52c12..810e988 100644
--- a/pkg/storage/s3/region.go
+++ b/pkg/storage/s3/region.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/aws/aws-sdk-go/aws/ec2metadata"
 	"github.com/aws/aws-sdk-go/aws/session"
+	"github.com/aws/aws-sdk-go/service/s3"
 )
 
 const DefaultRegion = "us-east-1"
@@ -97,7 +98,7 @@ func getBucketRegion(c *http.Client, bucketName string) regionPromise {
 			return "", err
 		}
 
-		return res.Location, nil
+		return s3.NormalizeBucketLocation(res.Location), nil
 	})
 }
 
-- 
2.43.0


From 8b266d5b0566a8f5e0ffeb4820c5ca235edb7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:34 +0000
Subject: [PATCH 64/72] fix: ask again for the region of a bucket after a
 failure

A failed lookup was kept for good, so the bucket stayed out of reach until
the process was restarted.
---
 pkg/storage/s3/s3.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 40ff199..4782501 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -216,7 +216,16 @@ func (d *Driver) getBucketRegion(bucketName string) (string, error) {
 	}
 	d.mu.Unlock()
 
-	return rp.Apply()
+	region, err := rp.Apply()
+	if err != nil {
+		// Do not remember the failure, the next request asks again.
+		d.mu.Lock()
+		if d.bucketRegionCache[bucketName] == rp {
+			delete(d.bucketRegionCache, bucketName)
+		}
+		d.mu.Unlock()
+	}
+	return region, err
 }
 
 func (d *Driver) newClient(ctx context.Context, bucketRegion string) *http.Client {
-- 
2.43.0


From 381ed50e80d97483b36820cde1243530228cf9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:34 +0000
Subject: [PATCH 65/72] fix: upload objects under exactly the key of their
 address

Keys with empty or dot segments were shortened on upload, but not on
reading, so the object ended up under another key. With swift it could end
up in another container.
---
 pkg/storage/s3/s3.go       | 5 ++++-
 pkg/storage/swift/swift.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 4782501..d848f34 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -74,9 +74,12 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		config = config.WithCredentials(creds)
 	}
 
+	// Keys may have empty and dot segments
+	config.DisableRestProtocolURICleaning = aws.Bool(true)
+
 	svc := s3.New(d.sess, config)
 
-	return NewObjectWriter(svc, parsed.Bucket, parsed.URL.Path, url), nil
+	return NewObjectWriter(svc, parsed.Bucket, strings.TrimPrefix(parsed.URL.Path, "/"), url), nil
 }
 
 func (d *Driver) Remove(ctx context.Context, url string) error {
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 6ced879..0787ad8 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -81,6 +81,9 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithCredentials(credentials.NewCredentials(prov)).
 		WithMaxRetries(100)
 
+	// Keys may have empty and dot segments
+	config.DisableRestProtocolURICleaning = aws.Bool(true)
+
 	svc := s3.New(d.sess, config)
 
 	return s3driver.NewObjectWriter(svc, parsed.Container, parsed.Key, url), nil
@@ -199,7 +202,7 @@ func (d *Driver) parseURL(url string) (*parsedURL, error) {
 		URL:       u,
 		Account:   parts[1],
 		Container: parts[2],
-		Key:       "/" + strings.Join(parts[3:], "/"),
+		Key:       strings.Join(parts[3:], "/"),
 	}, nil
 }
 
-- 
2.43.0


From d2ebeeedb16068daa78e8fad37bcd9a6d0616e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:34 +0000
Subject: [PATCH 66/72] fix: list swift directories in their container

The container was put in front of the prefix, and the listing asked for at
the root of the store, where there is none.
---
 pkg/s3util/listbucket.go   | 11 +++++++++--
 pkg/storage/swift/swift.go |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index bda1457..1328f7a 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -62,6 +62,12 @@ type ListBucketPage struct {
 type ListBucketCallback func(page *ListBucketPage) error
 
 func ListBucket(client *http.Client, url string, callback ListBucketCallback) error {
+	return ListBucketAt(client, url, "", callback)
+}
+
+// ListBucketAt lists a directory of a bucket which is addressed by the first
+// part of the path.
+func ListBucketAt(client *http.Client, url string, bucketPath string, callback ListBucketCallback) error {
 	v := stdurl.Values{}
 	v.Set("delimiter", "/")
 
@@ -70,14 +76,15 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		return err
 	}
 
-	dirpath := u.Path
+	dirpath := strings.TrimPrefix(u.Path, bucketPath)
 	if strings.HasPrefix(dirpath, "/") {
 		dirpath = dirpath[1:]
 	}
 	if !strings.HasSuffix(dirpath, "/") {
 		dirpath += "/"
 	}
-	u.Path = "/"
+	u.Path = bucketPath + "/"
+	u.RawPath = ""
 	if dirpath != "/" {
 		v.Set("prefix", dirpath)
 	}
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 0787ad8..c485f93 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -132,7 +132,7 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 	c := d.newClient(ctx, parsed.Account)
 
 	var results []os.FileInfo
-	err = s3util.ListBucket(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
+	err = s3util.ListBucketAt(c, parsed.URL.String(), "/"+parsed.Container, func(page *s3util.ListBucketPage) error {
 		for _, entry := range page.Version {
 			if !entry.IsLatest {
 				continue
-- 
2.43.0


From caa15fe1bdc916adbe0ac164c8979a9b0254d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:52 +0000
Subject: [PATCH 67/72] fix: keep object addresses that are not valid UTF-8

The trie of object addresses replaced each byte that is not valid UTF-8.
A file with such an address could not be read from the disc.
---
 pkg/vdisc/trie.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pkg/vdisc/trie.go b/pkg/vdisc/trie.go
index a82c88e..a74fb92 100644
--- a/pkg/vdisc/trie.go
+++ b/pkg/vdisc/trie.go
@@ -52,9 +52,12 @@ func (t *TrieMap) Put(key string, value iso9660.LogicalBlockAddress) {
 	node := t.root
 	contentIdx := 0
 
-	for _, r := range key {
+	for remaining := key; len(remaining) > 0; {
+		r, rLen := firstRune(remaining)
+		rs := remaining[:rLen]
+		remaining = remaining[rLen:]
 		if contentIdx < len(node.content) {
-			cr, crLen := utf8.DecodeRuneInString(node.content[contentIdx:])
+			cr, crLen := firstRune(node.content[contentIdx:])
 			if r == cr {
 				contentIdx += crLen
 			} else {
@@ -72,35 +75,35 @@ func (t *TrieMap) Put(key string, value iso9660.LogicalBlockAddress) {
 				node.children[cr] = other
 
 				newNode := &trieNode{
-					content:  string(r),
+					content:  rs,
 					terminal: false,
 					children: make(map[rune]*trieNode),
 				}
 
 				node.children[r] = newNode
 				node = newNode
-				contentIdx = utf8.RuneLen(r)
+				contentIdx = rLen
 			}
 		} else {
 			child, ok := node.children[r]
 			if ok {
 				node = child
-				contentIdx = utf8.RuneLen(r)
+				contentIdx = rLen
 			} else if node.terminal || len(node.children) > 0 {
 				// forced to split to preserve terminal
 				newNode := &trieNode{
-					content:  string(r),
+					content:  rs,
 					terminal: false,
 					children: make(map[rune]*trieNode),
 				}
 
 				node.children[r] = newNode
 				node = newNode
-				contentIdx = utf8.RuneLen(r)
+				contentIdx = rLen
 			} else {
 				// extentd the current node
-				node.content = node.content + string(r)
-				contentIdx += utf8.RuneLen(r)
+				node.content = node.content + rs
+				contentIdx += rLen
 			}
 		}
 	}
@@ -108,7 +111,7 @@ func (t *TrieMap) Put(key string, value iso9660.LogicalBlockAddress) {
 	remainder := node.content[contentIdx:]
 	if len(remainder) > 0 {
 		// we need to split the node
-		cr, _ := utf8.DecodeRuneInString(remainder)
+		cr, _ := firstRune(remainder)
 		other := &trieNode{
 			content:  remainder,
 			terminal: node.terminal,
@@ -128,9 +131,11 @@ func (t *TrieMap) Put(key string, value iso9660.LogicalBlockAddress) {
 func (t *TrieMap) Get(key string) (iso9660.LogicalBlockAddress, bool) {
 	node := t.root
 	contentIdx := 0
-	for _, r := range key {
+	for remaining := key; len(remaining) > 0; {
+		r, rLen := firstRune(remaining)
+		remaining = remaining[rLen:]
 		if contentIdx < len(node.content) {
-			cr, crLen := utf8.DecodeRuneInString(node.content[contentIdx:])
+			cr, crLen := firstRune(node.content[contentIdx:])
 			if r == cr {
 				contentIdx += crLen
 			} else {
@@ -141,7 +146,7 @@ func (t *TrieMap) Get(key string) (iso9660.LogicalBlockAddress, bool) {
 			child, ok := node.children[r]
 			if ok {
 				node = child
-				contentIdx = utf8.RuneLen(r)
+				contentIdx = rLen
 			} else {
 				return 0, false
 			}
@@ -154,6 +159,16 @@ func (t *TrieMap) Get(key string) (iso9660.LogicalBlockAddress, bool) {
 	return 0, false
 }
 
+// firstRune decodes the first rune of s. Each byte that is not valid UTF-8
+// gives a rune of its own, beyond those of Unicode.
+func firstRune(s string) (rune, int) {
+	r, n := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError && n == 1 {
+		r = utf8.MaxRune + 1 + rune(s[0])
+	}
+	return r, n
+}
+
 type traversalNode struct {
 	prefix      string
 	parentIndex int
-- 
2.43.0


From 79a507b4d8b0eb5cae73dc68631ed559b40a5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:23 +0000
Subject: [PATCH 68/72] fix: stop walking when the callback returns an error

The error of the callback was replaced by the result of reading the
directory. The walk went on and reported success.
---
 pkg/iso9660/walk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a80a847..cb62147 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -79,9 +79,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 		}
 		visited[item.fi.Extent()] = true
 
+		var fnErr error
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
-			if err = walkFn(path, fi, nil); err != nil {
+			if fnErr = walkFn(path, fi, nil); fnErr != nil {
 				return false
 			}
 
@@ -93,6 +94,9 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 			return true
 		})
+		if err == nil && fnErr != filepath.SkipDir {
+			err = fnErr
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 45907598dead922190fe397750640bf4491b39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:24 +0000
Subject: [PATCH 69/72] fix: fail a recursive listing that cannot read a
 directory

The tool printed what it had read so far and exited successfully.
---
 pkg/vdisc/cli/ls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/cli/ls.go b/pkg/vdisc/cli/ls.go
index efe8954..fca5a2f 100644
--- a/pkg/vdisc/cli/ls.go
+++ b/pkg/vdisc/cli/ls.go
@@ -44,7 +44,7 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 	w := iso9660.NewWalker(v.Image())
 	if cmd.Recursive {
 		prevPath := cmd.Path
-		w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
+		err := w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				zap.L().Fatal("recursive listing", zap.String("path", path), zap.Error(err))
 			}
@@ -56,6 +56,9 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 			cmd.listFile(info)
 			return nil
 		})
+		if err != nil {
+			zap.L().Fatal("recursive listing", zap.String("path", cmd.Path), zap.Error(err))
+		}
 	} else {
 		fi, err := w.Lstat(cmd.Path)
 		if err != nil {
-- 
2.43.0


From 403316fc138bb04c931832bb329012a42d6a515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:33 +0000
Subject: [PATCH 70/72] fix: refuse to remove the root or a filled directory in
 memory

Removing the root left the store unusable, and removing a directory
that held objects lost them without an error.
---
 pkg/storage/ram/ram.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 54c9edd..bcdd0f6 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -166,6 +166,16 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 		return err
 	}
 
+	if f.Ino == rootIno {
+		return os.NewSyscallError("remove", syscall.EBUSY)
+	}
+
+	it := d.inodes[f.Ino]
+	if it.Mode.IsDir() && len(it.Dir.Entries()) > 2 {
+		// more than "." and ".."
+		return os.NewSyscallError("remove", syscall.ENOTEMPTY)
+	}
+
 	f.Parent.Dir.Delete(f.Name)
 	delete(d.inodes, f.Ino)
 	return nil
-- 
2.43.0


From 37b2c5f45e42fd9496e727d6e036e52f1883b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:51 +0000
Subject: [PATCH 71/72] fix: refuse volumes with more blocks than addresses can
 tell apart

Block addresses have 32 bits. A file placed behind the last address got a small
one, so reading it gave bytes of another file. Larger ones made the program
stop. Adding such a file or writing such a volume now returns an error.
---
 pkg/iso9660/fileinode.go |  6 ++++++
 pkg/iso9660/volume.go    | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/fileinode.go b/pkg/iso9660/fileinode.go
index bc89db6..4a6e56e 100644
--- a/pkg/iso9660/fileinode.go
+++ b/pkg/iso9660/fileinode.go
@@ -15,7 +15,9 @@
 package iso9660
 
 import (
+	"errors"
 	"io"
+	"math"
 	"os"
 	"time"
 
@@ -35,6 +37,10 @@ type FileInode struct {
 }
 
 func NewFileInode(ia InodeAllocator, o storage.Object) (*FileInode, error) {
+	if o.Size()/LogicalBlockSize >= math.MaxUint32 {
+		return nil, errors.New("File too large")
+	}
+
 	ino, err := ia.Next()
 	if err != nil {
 		return nil, err
diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index e5b8266..dc20d5b 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"path"
 	"strings"
 	"time"
@@ -245,10 +246,14 @@ func (v *Volume) assignLogicalBlockAddresses() error {
 	// Allocate sectors for each FileInode. Only allocate sectors once
 	// per FileInode.
 	inodesVisited := make(map[InodeNumber]struct{})
-	v.root.VisitFiles(func(rel Relationship) error {
+	err = v.root.VisitFiles(func(rel Relationship) error {
 		finode := rel.Child.(*FileInode)
 		if _, ok := inodesVisited[finode.InodeNumber()]; !ok {
 			inodesVisited[finode.InodeNumber()] = struct{}{}
+			// The addresses of all blocks and their number have 32 bits
+			if finode.Object().Size()/LogicalBlockSize >= math.MaxUint32-int64(sectors.Allocated()) {
+				return errors.New("Volume too large")
+			}
 			parts := finode.Parts()
 			finode.SetStart(sectors.Alloc(parts[0].Size()))
 			for i := 1; i < len(parts); i++ {
@@ -257,6 +262,9 @@ func (v *Volume) assignLogicalBlockAddresses() error {
 		}
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
 	v.pvd.VolumeSpaceSize = sectors.Allocated()
 	return nil
-- 
2.43.0


From 09c63cc8dc73d78d255b2a09b835a073c8c443cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:36:06 +0000
Subject: [PATCH 72/72] fix: honour the declared size of objects in memory

Opening an object with a size cut the data to that size, but then used all of
it. A disc with such a file held the whole object instead of the declared part.
---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index bcdd0f6..05fb1a2 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -74,7 +74,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 
 	return &object{
 		url: pathToUrl(path),
-		br:  bytes.NewReader(it.File),
+		br:  bytes.NewReader(data),
 	}, nil
 }
 
-- 
2.43.0

