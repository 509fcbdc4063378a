From 578a1be7541872ae4c216aeb45d2ab58303a96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:50 +0000
Subject: [PATCH 01/28] fix: stop unwrapping self-referential pointers and
 interfaces when encoding a snapshot

A value such as 'var x any; x = &x' (or a self-referential pointer type) made
streamField follow the pointer chain forever, hanging the instrumented process.
---
 lens/astclient.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..68bd742 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -263,12 +263,24 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	}
 
 	// Unwrap interfaces and pointers
+	var unwrapped []uintptr // pointers followed so far, a chain such as "var x any; x = &x" never reaches a value
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
 			lw.writeString(v.Type().String())
 			lw.writeByte(lensTypeTagNil)
 			return
 		}
+		if v.Kind() == reflect.Pointer {
+			for _, addr := range unwrapped {
+				if addr == v.Pointer() {
+					lw.writeString(v.Type().String())
+					lw.writeByte(lensTypeTagString)
+					lw.writeString("<cycle:" + valuePath + ">")
+					return
+				}
+			}
+			unwrapped = append(unwrapped, v.Pointer())
+		}
 		v = v.Elem()
 	}
 	if !v.IsValid() {
-- 
2.43.0


From 95467193dfb10a5524c0e58c9e167adac38a4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:16 +0000
Subject: [PATCH 02/28] fix: bound decoder allocations and nesting by the input
 actually received

---
 lens/astsrv.go | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..0b263f6 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -237,8 +237,16 @@ type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current nesting of fields being decoded
 }
 
+const (
+	lensDecodeMaxDepth   = 10_000 // nesting accepted from a client, far beyond any client side recursion limit
+	lensDecodeMaxReserve = 16     // elements reserved before their content has been received
+
+	lensDecodeMaxStringReserve = 1 << 16 // string bytes reserved before their content has been received
+)
+
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
 	return &lensReader{r: r, maxFieldLen: maxFieldLen}
 }
@@ -362,11 +370,24 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The slice grows with the fields read rather than being reserved from the
+// untrusted count.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	if lr.depth >= lensDecodeMaxDepth {
+		return nil, fmt.Errorf("field nesting exceeds maximum %d", lensDecodeMaxDepth)
+	}
+	lr.depth++
+	defer func() { lr.depth-- }()
+	fields := make([]LensMonitorField, 0, min(count, lensDecodeMaxReserve))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var f LensMonitorField
+		if err := lr.readField(&f); err != nil {
 			return nil, err
 		}
+		fields = append(fields, f)
 	}
 	return fields, nil
 }
@@ -465,25 +486,15 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	case lensTypeTagStruct:
 		count, err := lr.readVarint()
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -559,6 +570,13 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
+	if length > lensDecodeMaxStringReserve { // grow with the content received, the length is not trusted
+		var sb strings.Builder
+		if _, err := io.CopyN(&sb, lr.r, int64(length)); err != nil {
+			return "", err
+		}
+		return sb.String(), nil
+	}
 	buf := make([]byte, length)
 	if _, err := io.ReadFull(lr.r, buf); err != nil {
 		return "", err
-- 
2.43.0


From fe4978b7d0dc73bf37fbe8c6310fb62fb4e9f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:02 +0000
Subject: [PATCH 03/28] fix: report only tests that were compared on both sides

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..e78c33b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From 4bb605a4ba1f4e14d5b6a0a98695275183672757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:08 +0000
Subject: [PATCH 04/28] fix: compare call intervals without 32-bit overflow

---
 lens/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index e78c33b..98c079c 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -497,7 +497,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 					preInterval := preTime - lastPreCallTime
 					postInterval := postTime - lastPostCallTime
 
-					if max(1, preInterval)*uint32(timeMultiplier) < postInterval {
+					if uint64(max(1, preInterval))*uint64(timeMultiplier) < uint64(postInterval) {
 						// Performance regression detected
 						intervalDiff := int64(postInterval) - int64(preInterval)
 						_, _ = fmt.Fprintf(&performanceLogBuffer,
@@ -513,7 +513,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 								PostTimeMs: postInterval,
 							}
 						}
-					} else if preInterval > max(1, postInterval)*uint32(timeMultiplier) {
+					} else if uint64(preInterval) > uint64(max(1, postInterval))*uint64(timeMultiplier) {
 						// Performance improvement detected
 						intervalDiff := int64(postInterval) - int64(preInterval)
 						_, _ = fmt.Fprintf(&performanceLogBuffer,
-- 
2.43.0


From 18a8f8a5c6e2deeca0cba0ed74e76d0bbfe4a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:36 +0000
Subject: [PATCH 05/28] fix: frame field tree keys so that different trees
 never share one

---
 lens/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..438565a 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -635,6 +635,9 @@ func (fv FieldValues) ID() string {
 	walk = func(cur FieldValues) {
 		sortedKeys := bulk.MapKeysSlice(cur)
 		slices.Sort(sortedKeys)
+		// entry count so that an entry can't shift between a node and its parent
+		binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(sortedKeys)))
+		hash.Write(lenBuf[:])
 		for _, key := range sortedKeys {
 			writeFramed([]byte(key))
 			fv := cur[key]
@@ -643,6 +646,7 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				writeFramed([]byte(fv.Value))
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From d9a62a04601721498ea84851508fa781953b704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:02 +0000
Subject: [PATCH 06/28] fix: on-disk storage keeps empty values and values that
 look like a split marker, and reads split values in one transaction

---
 lens/storage.go | 94 +++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 42 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..ebd2268 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -159,10 +159,11 @@ func (m *memStorage) Close() {
 	// no resources to free
 }
 
-const badgerSplitBuffer = 16         // small extra buffer to avoid ever hitting the max anywhere
-const badgerSplitLogFileBuffer = 240 // extra log file space compared to max value size
-const splitPrefixString = "badger_split:"
-const badgerCompression = options.ZSTD // disabling db compression results in less splitting, but benchmarks are worse
+const badgerSplitBuffer = 16              // small extra buffer to avoid ever hitting the max anywhere
+const badgerSplitLogFileBuffer = 240      // extra log file space compared to max value size
+const splitPrefixString = "badger_split:" // reserved key prefix for the parts of a split value
+const badgerSplitMeta = byte(1)           // entry user meta marking a split value, values are free to look like a marker
+const badgerCompression = options.ZSTD    // disabling db compression results in less splitting, but benchmarks are worse
 
 // badgerSplitLimit is max size before value split, updated by tests to reduce test overhead.
 var badgerSplitLimit = (1 << 30) - badgerSplitBuffer - badgerSplitLogFileBuffer
@@ -238,6 +239,9 @@ func NewBadgerStorage(path string, maxMemMB int) (Storage, error) {
 }
 
 func (b *badgerStorage) SaveState(key string, blob []byte) error {
+	if strings.HasPrefix(key, splitPrefixString) {
+		return fmt.Errorf("key uses the reserved prefix %q: %s", splitPrefixString, key)
+	}
 	storeBlob := blob
 	if badgerCompression == options.None { // manual compression allows us to better avoid split logic
 		storeBlob = ZstdCompress(nil, blob)
@@ -247,7 +251,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 		mainKey := []byte(key)
 
 		// wipe any old split‐parts if this key was previously split
-		if item, err := txn.Get(mainKey); err == nil {
+		if item, err := txn.Get(mainKey); err == nil && item.UserMeta() == badgerSplitMeta {
 			_ = item.Value(func(val []byte) error {
 				if m := splitRe.FindSubmatch(val); m != nil {
 					oldCount, _ := strconv.Atoi(string(m[1]))
@@ -257,7 +261,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 				}
 				return nil
 			})
-		} else if !errors.Is(err, badger.ErrKeyNotFound) {
+		} else if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
 			return err
 		}
 
@@ -286,13 +290,19 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			off += sz
 		}
 		// store a marker of the form "badger_split:<parts>:<compressLen>:<origLen>"
-		return txn.Set(mainKey, []byte(fmt.Sprintf("%s%d:%d:%d", splitPrefixString, parts, len(storeBlob), len(blob))))
+		marker := []byte(fmt.Sprintf("%s%d:%d:%d", splitPrefixString, parts, len(storeBlob), len(blob)))
+		return txn.SetEntry(badger.NewEntry(mainKey, marker).WithMeta(badgerSplitMeta))
 	})
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
-	err := b.db.View(func(txn *badger.Txn) error {
+	var stored []byte
+	var decompressedSize int
+	var found bool
+	err := b.db.View(func(txn *badger.Txn) error { // one transaction, so that the parts match their marker
+		if strings.HasPrefix(key, splitPrefixString) {
+			return nil // never saved under this key
+		}
 		item, err := txn.Get([]byte(key))
 		if err != nil {
 			if errors.Is(err, badger.ErrKeyNotFound) {
@@ -300,53 +310,50 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+		found = true
+		raw, err := item.ValueCopy(nil)
+		if err != nil {
+			return err
+		} else if item.UserMeta() != badgerSplitMeta {
+			stored = raw // it was stored whole
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if raw == nil {
-		return nil, false, nil
-	}
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		// reassemble split value
+		m := splitRe.FindSubmatch(raw)
+		if m == nil {
+			return fmt.Errorf("invalid split marker for %s", key)
+		}
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil || !found {
+		return nil, false, err
 	}
 
 	if badgerCompression == options.None { // manually decompress
@@ -359,6 +366,9 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 }
 
 func (b *badgerStorage) DeleteState(key string) error {
+	if strings.HasPrefix(key, splitPrefixString) {
+		return nil // never saved under this key
+	}
 	return b.db.Update(func(txn *badger.Txn) error {
 		mainKey := []byte(key)
 		item, err := txn.Get(mainKey)
@@ -375,7 +385,7 @@ func (b *badgerStorage) DeleteState(key string) error {
 			return nil
 		})
 		// if it’s split, delete each part
-		if m := splitRe.FindSubmatch(raw); m != nil {
+		if m := splitRe.FindSubmatch(raw); m != nil && item.UserMeta() == badgerSplitMeta {
 			count, _ := strconv.Atoi(string(m[1]))
 			for i := 0; i < count; i++ {
 				if err := txn.Delete([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i))); err != nil {
-- 
2.43.0


From 001b3004fa44db6b97d9be53ec12642242b34dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:08 +0000
Subject: [PATCH 07/28] fix: expand recursive go.work entries relative to the
 workspace, and absolute ones where they point

---
 lens/module.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..ceec4af 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -342,11 +342,19 @@ func parseGoWork(workPath string) ([]string, error) {
 
 	// helper to walk a tree for "..."
 	walkEllipsis := func(prefix string) error {
-		start := filepath.Join(workDir, prefix)
+		start := prefix
+		if !filepath.IsAbs(prefix) {
+			start = filepath.Join(workDir, prefix)
+		}
 		return filepath.WalkDir(start, func(path string, d fs.DirEntry, err error) error {
 			if err != nil || !d.IsDir() {
 				return err
 			} else if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
+				if !filepath.IsAbs(prefix) {
+					if path, err = filepath.Rel(workDir, path); err != nil {
+						return err
+					}
+				}
 				add(path)
 			}
 			return nil
-- 
2.43.0


From 877c8ac38cf80e794fe9d167fec4b59e1c64410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:07 +0000
Subject: [PATCH 08/28] fix: order Go pre-release versions

---
 lens/module.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index ceec4af..eb3f481 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -494,7 +494,21 @@ func parseProjectDeps(projectDir string, preferNewest bool) (map[string]string,
 // compareGoVersions compares two Go version strings (e.g., "1.12", "1.21").
 // Returns -1 if a < b, 0 if a == b, 1 if a > b.
 func compareGoVersions(a, b string) int {
-	return semver.Compare("v"+a, "v"+b)
+	return semver.Compare(goVersionSemver(a), goVersionSemver(b))
+}
+
+// goVersionSemver converts a Go version to semver form, a pre-release ("1.21rc2") has no semver separators ("v1.21.0-rc.2").
+func goVersionSemver(v string) string {
+	preIdx := strings.IndexAny(v, "abcdefghijklmnopqrstuvwxyz")
+	if preIdx <= 0 || strings.ContainsAny(v, "-+") {
+		return "v" + v
+	}
+	base, pre := v[:preIdx], v[preIdx:]
+	if strings.Count(base, ".") == 1 {
+		base += ".0"
+	}
+	kind := strings.TrimRight(pre, "0123456789")
+	return "v" + base + "-" + kind + "." + pre[len(kind):]
 }
 
 // olderGoVersion returns the older version, treating empty as "no constraint".
-- 
2.43.0


From d39d8b33814b32f0a31bdce1bb5dbdebc1172649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 09/28] fix: look up module versions with upper case letters
 where the module cache stores them

---
 lens/module.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index eb3f481..032ebad 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -285,12 +285,16 @@ func loadModulePackageFromCache(gomodcache, modName, version string) (string, []
 // Returns the filesystem directory where the module source is located.
 func FindModulePathInCache(gomodcache, modPath, version string) (string, error) {
 	// Attempt to form the actual cache directory name. The local module cache
-	// structure is typically: GOPATH/pkg/mod/<escaped module>@<version>.
+	// structure is typically: GOPATH/pkg/mod/<escaped module>@<escaped version>.
 	escapedMod, err := module.EscapePath(modPath)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVer, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVer
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From eb930b48886aaac3283e995108b933ab4da3a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:14 +0000
Subject: [PATCH 10/28] fix: treat names that merely start with two dots as
 inside their directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 92f93cb..164035e 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -41,8 +41,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If the first element of rel is "..", file is outside the directory (a name may start with "..", like "..cache")
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From 5beaef398eee8f833aca6398f26f457ab516e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:14 +0000
Subject: [PATCH 11/28] fix: trim the Go root from stack files by path element
 instead of by length

---
 lens/astexec.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..16811de 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -659,11 +659,10 @@ func trimStackFile(projectDir, goroot, file string) string {
 	file = filepath.ToSlash(file)
 	if goroot != "" {
 		if ok, err := fileWithinDir(file, goroot); err == nil && ok {
-			trimIndex := len(goroot) // remove goroot, but leave the `/` prefix to match below
-			if goroot[trimIndex-1] == filepath.Separator {
-				trimIndex--
+			// remove goroot, but leave the `/` prefix to match below
+			if rel, err := filepath.Rel(goroot, file); err == nil {
+				file = "/" + filepath.ToSlash(rel)
 			}
-			file = file[trimIndex:]
 		}
 	}
 	if idx := strings.Index(file, "/pkg/mod/"); idx >= 0 {
-- 
2.43.0


From 3cf0c497837b4ad5ea82982cee1ac9defcaad2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 12/28] fix: keep the module cache at its place inside the
 copied GOPATH and remove the copy when it fails

---
 lens/engine.go | 19 +++++++++++++------
 lens/file.go   |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 98c079c..41a6328 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1025,23 +1025,30 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 	ctx := context.Background()
 	newProj := filepath.Join(tempRoot, "project")
 	if err := CopyDir(ctx, e.Config.AbsProjDir, newProj, copyProgressHandler); err != nil {
+		cleanup()
 		return nil, fmt.Errorf("unable to copy project: %w", err)
 	}
-	e.Config.AbsProjDir = newProj
 
 	newGOPATH := filepath.Join(tempRoot, "gopath")
 	if err := CopyDir(ctx, e.Config.Gopath, newGOPATH, copyProgressHandler); err != nil {
+		cleanup()
 		return nil, fmt.Errorf("unable to copy GOPATH: %w", err)
 	}
-	if within, err := fileWithinDir(e.Config.Gomodcache, e.Config.Gopath); err != nil || !within {
-		newModCache := filepath.Join(tempRoot, "gomodcache")
+	var newModCache string
+	if within, err := fileWithinDir(e.Config.Gomodcache, e.Config.Gopath); err == nil && within {
+		if rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache); err == nil {
+			newModCache = filepath.Join(newGOPATH, rel) // already copied with GOPATH, at the same place within it
+		}
+	}
+	if newModCache == "" {
+		newModCache = filepath.Join(tempRoot, "gomodcache")
 		if err := CopyDir(ctx, e.Config.Gomodcache, newModCache, copyProgressHandler); err != nil {
+			cleanup()
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
-		e.Config.Gomodcache = newModCache
-	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
 	}
+	e.Config.AbsProjDir = newProj
+	e.Config.Gomodcache = newModCache
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
 	return cleanup, nil
diff --git a/lens/file.go b/lens/file.go
index 164035e..399762c 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -129,6 +129,7 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 		}
 	})
 	if err != nil {
+		_ = eg.Wait() // nothing is copied after the return
 		return err
 	}
 	return eg.Wait()
-- 
2.43.0


From 5cb195e74d723fe44e1069d2f6cbced18453085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 13/28] fix: validate the charts report path also when a JSON
 report path is given

---
 lens/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 41a6328..ff10df3 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1143,7 +1143,8 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
+	}
+	if c.ReportChartsFile != "" {
 		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
-- 
2.43.0


From 20dc6f495f0418d21777c1a66fa253ed1553c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 14/28] fix: do not replace an existing .write_test file when
 checking the report directory

---
 lens/engine.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index ff10df3..1126793 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1208,12 +1208,11 @@ func (c *Config) validateOutputPath(path string) error {
 		}
 	}
 
-	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	// Check if we can write to the directory, with a new file so that none of the user's is replaced
+	file, err := os.CreateTemp(dir, ".write_test-*")
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
-- 
2.43.0


From 3688f683f4b12cbb85b7535e53f2278cdb337f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 15/28] fix: do not keep target modules of a rejected
 configuration

---
 lens/engine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 1126793..999733a 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1076,13 +1076,14 @@ func (c *Config) Prepare() error {
 	}
 	c.AbsProjDir = absProjDir
 
-	// Parse and validate target modules
+	// Parse and validate target modules, set only once the configuration is accepted
+	targetModules := slices.Clone(c.TargetModules)
 	if c.ModuleVersionFlag != "" {
 		targetModule, err := parseTargetModule(c.ModuleVersionFlag)
 		if err != nil {
 			return fmt.Errorf("invalid module version format: %w", err)
 		}
-		c.TargetModules = append(c.TargetModules, targetModule)
+		targetModules = append(targetModules, targetModule)
 	}
 
 	if c.ModulesVersionFlag != "" {
@@ -1096,7 +1097,7 @@ func (c *Config) Prepare() error {
 			if err != nil {
 				return fmt.Errorf("invalid module version format in modules list: %w", err)
 			}
-			c.TargetModules = append(c.TargetModules, targetModule)
+			targetModules = append(targetModules, targetModule)
 		}
 	}
 
@@ -1150,6 +1151,7 @@ func (c *Config) Prepare() error {
 		}
 	}
 
+	c.TargetModules = targetModules
 	c.prepared = true
 	return nil
 }
-- 
2.43.0


From 4fea9514e52ee458b34d375ed63066738b8c3132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:33 +0000
Subject: [PATCH 16/28] fix: do not wait forever for a state message with an
 unknown point id

---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 16811de..45b0039 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -697,8 +697,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -730,6 +728,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		storageKey = *callerIdent
 	}
 
+	t.wait.Add(1) // done in routine
 	lock := t.pointLocks.Lock(storageKey)
 	go func() {
 		defer t.wait.Done()
-- 
2.43.0


From da6ade1e0ad297caa4a2f59ead32da14ccd0ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:53 +0000
Subject: [PATCH 17/28] fix: do not count unknown point ids as changed
 functions reached

---
 lens/astexec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 45b0039..645c059 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -908,7 +908,9 @@ func (t *testMonitor) makeTestResult(tFunc *TestFunction, failure bool) TestResu
 func (t *testMonitor) getModuleChangesReachCount() int {
 	var count int
 	t.moduleChangesReached.Range(func(key, _ any) bool {
-		count++
+		if _, ok := t.moduleEntryPointIdToIdent[key.(uint32)]; ok {
+			count++
+		}
 		return true
 	})
 	return count
-- 
2.43.0


From 189a5c5e08d2309fede312e89cab555008be0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 18/28] fix: instrument the returns of else-if chains, select
 clauses and labeled statements

---
 lens/asttweak.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..5d2948a 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -575,19 +575,20 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 					return err
 				}
 			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
+				for s != nil { // every branch of an else-if chain
+					if err := rewriteBlock(s.Body); err != nil {
+						return err
+					}
 					switch e := s.Else.(type) {
 					case *ast.BlockStmt:
 						if err := rewriteBlock(e); err != nil {
 							return err
 						}
+						s = nil
 					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
+						s = e
+					default:
+						s = nil
 					}
 				}
 			case *ast.ForStmt:
@@ -618,6 +619,22 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 						cc.Body = blk.List
 					}
 				}
+			case *ast.SelectStmt:
+				for _, stmt := range s.Body.List {
+					if cc, ok := stmt.(*ast.CommClause); ok {
+						blk := &ast.BlockStmt{List: cc.Body}
+						if err := rewriteBlock(blk); err != nil {
+							return err
+						}
+						cc.Body = blk.List
+					}
+				}
+			case *ast.LabeledStmt:
+				blk := &ast.BlockStmt{List: []ast.Stmt{s.Stmt}}
+				if err := rewriteBlock(blk); err != nil {
+					return err
+				}
+				s.Stmt = blk.List[0]
 			}
 		}
 		return nil
@@ -1262,7 +1279,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.SelectStmt, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From 90257fa0cb0f1dcf0a22a46f1d46859025996fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 19/28] fix: do not take helpers named like Testing for test
 functions

---
 lens/static.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..a4cb007 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,8 +642,10 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if name, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
 		return false
+	} else if first, _ := utf8.DecodeRuneInString(name); unicode.IsLower(first) {
+		return false // "go test" runs TestXxx only when Xxx does not start with a lowercase letter
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
-- 
2.43.0


From 8f0bcfe6d513ab4f59f92bf5c5e3f84c563a3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 20/28] fix: insert function lines by their place in the file,
 whatever its line directives say

---
 lens/asttweak.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 5d2948a..c247a40 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1907,10 +1907,12 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	} else if decl.Body == nil {
 		return fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
-	funcStartLine := fset.Position(decl.Pos()).Line
+	// lines of the file itself, regardless of any line directives
+	lineOf := func(pos token.Pos) int { return fset.PositionFor(pos, false).Line }
+	funcStartLine := lineOf(decl.Pos())
 	// determine which lines are "inside" the function body (exclude the braces themselves)
-	bodyOpenLine := fset.Position(decl.Body.Lbrace).Line + 1  // first line after '{'
-	bodyCloseLine := fset.Position(decl.Body.Rbrace).Line - 1 // last line before '}'
+	bodyOpenLine := lineOf(decl.Body.Lbrace) + 1  // first line after '{'
+	bodyCloseLine := lineOf(decl.Body.Rbrace) - 1 // last line before '}'
 	lines := strings.Split(string(data), "\n")
 
 	if bodyOpenLine > bodyCloseLine { // empty body or single line function like "func() {}"
@@ -1927,7 +1929,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 		if tok == token.EOF {
 			break
 		}
-		lno := fset.Position(pos).Line
+		lno := lineOf(pos)
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
-- 
2.43.0


From 0249c5bf1c84b9998fcea43f1a270776814d1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 21/28] fix: do not insert function lines inside multi-line
 strings and comments

---
 lens/asttweak.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index c247a40..8d681a5 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1920,22 +1920,27 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	}
 
 	// classify every line inside the body
-	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1)    // false by default
+	insideToken := make([]bool, bodyCloseLine-bodyOpenLine+1) // line starts within a multi-line string or comment
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
-	prevLine := bodyOpenLine
 	for {
 		pos, tok, lit := sc.Scan()
 		if tok == token.EOF {
 			break
 		}
 		lno := lineOf(pos)
+		if tok == token.STRING || tok == token.COMMENT {
+			// text inserted before a continuation line would become part of the literal
+			for l := lno + 1; l <= lno+strings.Count(lit, "\n"); l++ {
+				if l >= bodyOpenLine && l <= bodyCloseLine {
+					insideToken[l-bodyOpenLine] = true
+				}
+			}
+		}
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
-		if lno != prevLine {
-			prevLine = lno
-		}
 		switch tok {
 		case token.COMMENT:
 			// skip comment-only lines
@@ -1969,7 +1974,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !insideToken[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
-- 
2.43.0


From 8a1bddc4a7af12348e59d5522f48847bfd7232cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 22/28] fix: restore the modes, link targets and files with an
 earlier backup too

---
 lens/asttweak.go | 33 +++++++++++++++++++++++----------
 lens/file.go     | 22 ++++++++++++++++++++++
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 8d681a5..4288dfe 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -71,6 +71,7 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backups        map[string]bool // files which cleanupActions restores
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -101,6 +102,7 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 		}
 	}
 	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	m.backups = nil
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -382,17 +384,28 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
-func (m *ASTModifier) backupOrigFile(filepath string) error {
-	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
-		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+// backupOrigFile keeps a copy of the file for Restore, unless this modifier already has one.
+func (m *ASTModifier) backupOrigFile(path string) error {
+	origFile, err := filepath.EvalSymlinks(path) // edits are written to the target of a link
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
 	}
+	m.cleanupLock.Lock()
+	defer m.cleanupLock.Unlock()
+	if m.backups[origFile] {
+		return nil
+	}
+	bkpFile, err := backupFile(origFile)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	if m.backups == nil {
+		m.backups = make(map[string]bool)
+	}
+	m.backups[origFile] = true
+	m.cleanupActions = append(m.cleanupActions, func() error {
+		return replaceFile(bkpFile, origFile)
+	})
 	return nil
 }
 
diff --git a/lens/file.go b/lens/file.go
index 399762c..2ef80a7 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -94,6 +95,27 @@ func CopyFile(src, dst string) (err error) {
 	return out.Sync()
 }
 
+// backupFile copies the file and its mode to a new .bkp file next to it. A backup left by an interrupted run is kept.
+func backupFile(path string) (string, error) {
+	info, err := os.Stat(path)
+	if err != nil {
+		return "", err
+	}
+	bkpFile := path + ".bkp"
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(bkpFile); err != nil {
+			break // an error other than not existing also fails the copy
+		}
+		bkpFile = path + ".bkp" + strconv.Itoa(i)
+	}
+	if err := CopyFile(path, bkpFile); err != nil {
+		return "", errors.Join(err, os.RemoveAll(bkpFile))
+	} else if err := os.Chmod(bkpFile, info.Mode()); err != nil {
+		return "", errors.Join(err, os.Remove(bkpFile))
+	}
+	return bkpFile, nil
+}
+
 // CopyDir recursively copies src directory contents into dst.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
 	eg, ctx := errgroup.WithContext(ctx)
-- 
2.43.0


From e4b390df6f9e4c2428ed3d27b2f801f337a2c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 23/28] fix: remove the injected client also when writing it
 failed

---
 lens/asttweak.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 4288dfe..ad6c6db 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -236,19 +236,26 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	})
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
-	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
-		return err
 	}
 	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
+	m.addCleanupAction(func() error { // added first, a failed write may leave a file too
+		var result error
+		for _, file := range []string{clientFile, apiFile} {
+			if err := os.Remove(file); err != nil && !errors.Is(err, fs.ErrNotExist) {
+				result = errors.Join(result, err)
+			}
+		}
+		return result
+	})
+	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+		return err
+	}
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
-- 
2.43.0


From ed023df7fc9f3c0affdb76130fe7b9d80c499689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:55 +0000
Subject: [PATCH 24/28] fix: restore all module files as they were after an
 update analysis

---
 lens/astexec.go | 45 ++++++++++++---------------------------------
 lens/file.go    | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 645c059..e77c07f 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"maps"
-	"os"
 	"path/filepath"
 	"runtime"
 	"slices"
@@ -112,42 +111,22 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
+	modFiles := make([]string, 0, len(goModPaths)*2+2)
+	for _, gm := range goModPaths {
+		modFiles = append(modFiles, gm, filepath.Join(filepath.Dir(gm), "go.sum"))
+	}
+	modFiles = append(modFiles, filepath.Join(projectDir, "go.work"), filepath.Join(projectDir, "go.work.sum"))
+	restoreModFiles, err := backupFiles(modFiles)
+	if err != nil {
+		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
+			fmt.Errorf("backup module files failed: %w", err)
 	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
-	// restore originals (and remove .bkp) on every return path, including early errors
+	// restore originals (and remove the backups) on every return path, including early errors
 	defer func() {
-		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
-			}
+		for _, err := range restoreModFiles() {
+			log.Printf("%sFailed to restore module files: %v", ErrorLogPrefix, err)
 		}
 	}()
-	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
-			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
-		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
-			}
-		}
-		backups = append(backups, info)
-	}
 
 	for _, gm := range goModPaths {
 		modDir := filepath.Dir(gm)
diff --git a/lens/file.go b/lens/file.go
index 2ef80a7..a1bfa64 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -116,6 +116,42 @@ func backupFile(path string) (string, error) {
 	return bkpFile, nil
 }
 
+// backupFiles backs up those of the files which exist. The returned function restores these and removes the others.
+func backupFiles(paths []string) (restore func() []error, err error) {
+	var actions []func() error
+	restore = func() (result []error) {
+		for _, action := range actions {
+			if err := action(); err != nil {
+				result = append(result, err)
+			}
+		}
+		return result
+	}
+	for _, path := range paths {
+		if _, err := os.Lstat(path); errors.Is(err, fs.ErrNotExist) {
+			actions = append(actions, func() error {
+				if err := os.Remove(path); err != nil && !errors.Is(err, fs.ErrNotExist) {
+					return err
+				}
+				return nil
+			})
+			continue
+		}
+		origFile, err := filepath.EvalSymlinks(path) // edits are written to the target of a link
+		if err != nil {
+			return nil, errors.Join(append(restore(), err)...)
+		}
+		bkpFile, err := backupFile(origFile)
+		if err != nil {
+			return nil, errors.Join(append(restore(), err)...)
+		}
+		actions = append(actions, func() error {
+			return os.Rename(bkpFile, origFile)
+		})
+	}
+	return restore, nil
+}
+
 // CopyDir recursively copies src directory contents into dst.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
 	eg, ctx := errgroup.WithContext(ctx)
-- 
2.43.0


From b77a801b15c87bdf29f75d816fe9658e8207bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 25/28] fix: report charts show N/A instead of NaN% where there
 is nothing to count

---
 lens/report.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..daffecc 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"slices"
 	"strconv"
@@ -506,7 +507,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topLeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(topLeftOpt.Theme, topLeftOpt.SeriesList)
 	topLeftOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(moduleChangeFuncCount)
-		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
+		return formatPercent(100.0 * (total - f) / total)
 	}
 	if err := topLeft.BarChart(topLeftOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -534,7 +535,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topRightOpt.SeriesList[2].Label.FontStyle.FontColor = firstValueSeriesRankColor(topRightOpt.Theme, topRightOpt.SeriesList)
 	topRightOpt.SeriesList[2].Label.ValueFormatter = func(f float64) string {
 		total := float64(reachableModuleFunctionCount)
-		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
+		return formatPercent(100.0 * (total - f) / total)
 	}
 	if err := topRight.BarChart(topRightOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -560,7 +561,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if diff > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some field diffs
 		}
-		return charts.FormatValueHumanize(percent, 1, false) + "%"
+		return formatPercent(percent)
 	}
 	if err := down1Left.BarChart(down1LeftOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -584,7 +585,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if f > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some surviving mutations
 		}
-		return charts.FormatValueHumanize(percent, 1, false) + "%"
+		return formatPercent(percent)
 	}
 	if err := down1Right.BarChart(down1RightOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -808,6 +809,14 @@ func firstValueSeriesRankColor(theme charts.ColorPalette, sl charts.BarSeriesLis
 	}
 }
 
+// formatPercent formats the percentage label of a gauge, a total of zero has no percentage.
+func formatPercent(percent float64) string {
+	if math.IsNaN(percent) {
+		return "N/A"
+	}
+	return charts.FormatValueHumanize(percent, 1, false) + "%"
+}
+
 func axisUnitForMax(val int) float64 {
 	if val >= 8000 {
 		return 2000
-- 
2.43.0


From c5deabe7d712514aa7ae345ea30136c9849a636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 26/28] fix: report charts show a slowdown as a positive
 percentage

---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index daffecc..a281b25 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -623,7 +623,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
-- 
2.43.0


From 31d7bb21201aa0f0494a51edb06ea493d4fa4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 27/28] fix: list callers in a consistent order in the report

---
 lens/report.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index a281b25..560a770 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -162,7 +162,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // consistent order in report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
@@ -646,7 +647,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) { // consistent for the same results
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From e115f5136f41554805ad244dde4c8e0358fa05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 28/28] fix: count the fields, not the callers, left out of the
 risky tests table

---
 lens/report.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index 560a770..f935bc9 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -645,19 +645,23 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 				regressionStr = "Baseline FAIL"
 			}
 
-			var lines int
+			var lines, shownFields, changedFields int
+			for _, fieldMap := range tr.CallerFieldChanges {
+				changedFields += len(fieldMap)
+			}
 			var fieldChangeBuilder strings.Builder
 			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) { // consistent for the same results
 				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
-					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
+					fieldChangeBuilder.WriteString(strconv.Itoa(changedFields - shownFields))
 					fieldChangeBuilder.WriteString(" more field differences)")
 					break
 				} else if lines > 0 {
 					fieldChangeBuilder.WriteRune('\n')
 				}
 				lines++
+				shownFields += len(fieldMap)
 
 				fieldChangeStr := callerIdent + "[" + strings.Join(slices.Sorted(maps.Keys(fieldMap)), "|") + "]"
 				if len(fieldChangeStr) > 66 {
-- 
2.43.0

