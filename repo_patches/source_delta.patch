From 45ce6e304dd27ff27d39e63688f74d8ac25db735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 1/9] fix: reject stored caches that do not have the expected
 size

A file under a cache's name that is shorter than its header panicked the
process, and one that is truncated or too long was used as the cache.
---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..fd3a8fc 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,8 +38,9 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// has to hold exactly size bytes of data behind its header.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
@@ -53,6 +54,12 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	if uint64(len(mem)) != uint64(len(dumpMagic))*4+size {
+		mem.Unmap()
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	for i, magic := range dumpMagic {
 		if buffer[i] != magic {
 			mem.Unmap()
@@ -160,5 +167,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From 62c92778f9153dd646b0ba962e7576e58fdc9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 2/9] fix: never share a temporary cache file with another
 process

The random number generator is seeded alike in every process (before Go 1.20),
so two processes generating the same epoch truncated and filled the same file.
---
 internal/dag/mmap.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index fd3a8fc..b9aba1a 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -107,6 +107,20 @@ func memoryMapFile(file *os.File, write bool) (mmap.MMap, []uint32, error) {
 	return mem, view, nil
 }
 
+// createTemp creates a new temporary file next to path. It never opens a file that
+// already exists, since another process may be filling it.
+func createTemp(path string) (string, *os.File, error) {
+	for try := 0; ; try++ {
+		temp := path + "." + strconv.Itoa(rand.Int())
+		file, err := os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if os.IsExist(err) && try < 10000 {
+			continue
+		}
+
+		return temp, file, err
+	}
+}
+
 // ensureSize expands the file to the given size. This is to prevent runtime
 // errors later on, if the underlying file expands beyond the disk capacity,
 // even though it ostensibly is already expanded, but due to being sparse
@@ -131,8 +145,7 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	}
 
 	// Create a huge temporary empty file to fill with data
-	temp := path + "." + strconv.Itoa(rand.Int())
-	dump, err := os.Create(temp)
+	temp, dump, err := createTemp(path)
 	if err != nil {
 		return df, err
 	}
-- 
2.43.0


From 1ac45acdcf609de5c09c18896a50e8fc69644d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 3/9] fix: force a generated cache to disk before renaming it

After a power loss the renamed file could be complete in name and size while
parts of its contents had never been written.
---
 internal/dag/mmap.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index b9aba1a..1219433 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -168,10 +168,24 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	data := buffer[len(dumpMagic):]
 	generator(data)
 
+	// The data has to be on the disk before the file gets its final name
+	if err := mem.Flush(); err != nil {
+		mem.Unmap()
+		dump.Close()
+		os.Remove(temp)
+		return df, err
+	}
+
 	if err := mem.Unmap(); err != nil {
 		return df, err
 	}
 
+	if err := dump.Sync(); err != nil {
+		dump.Close()
+		os.Remove(temp)
+		return df, err
+	}
+
 	if err := dump.Close(); err != nil {
 		return df, err
 	}
-- 
2.43.0


From 63d3e0a520bc26fc486b0a8901205c26f59defde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 4/9] fix: allocate a cache file's blocks before mapping it

Truncating only makes a sparse file, so on a full disk the first write through
the mapping killed the process with SIGBUS instead of falling back to memory.
---
 internal/dag/mmap.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 1219433..03df947 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -126,11 +126,19 @@ func createTemp(path string) (string, *os.File, error) {
 // even though it ostensibly is already expanded, but due to being sparse
 // does not actually occupy the full declared size on disk.
 func ensureSize(f *os.File, size int64) error {
-	// On systems which do not support fallocate, we merely truncate it.
-	// More robust alternatives  would be to
-	// - Use posix_fallocate, or
-	// - explicitly fill the file with zeroes.
-	return f.Truncate(size)
+	// Not every system supports fallocate, so explicitly fill the file with zeroes.
+	zeroes := make([]byte, 1<<20)
+	for left := size; left > 0; left -= int64(len(zeroes)) {
+		if left < int64(len(zeroes)) {
+			zeroes = zeroes[:left]
+		}
+
+		if _, err := f.Write(zeroes); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
 
 // memoryMapAndGenerate tries to memory map a temporary file of uint32s for write
-- 
2.43.0


From b98dde61ce7b8dbaf7837453446d6f50b0af0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 5/9] fix: remove the temporary cache file when it cannot be
 put in place

---
 internal/dag/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 03df947..81765dc 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -185,6 +185,8 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	}
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
@@ -195,10 +197,12 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From b98dc470ef108604f0ad7a191ab765873c3286f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 6/9] fix: write the last, incomplete row of a lookup table too

The number of epochs is not a multiple of the row length, so the last three of
2048 epochs were missing from the generated tables.
---
 cmd/gen-lookup/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..63d63ec 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
-- 
2.43.0


From 779a31d1c6f302f9aab7dbd399bcc034947c78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 7/9] fix: complete the lookup tables up to their 2048 epochs

The tables held 2045 entries but were used for 2048 epochs, so requesting (or
preparing in the background) epochs 2045 to 2047 panicked.
---
 ethash/ethash_lookup.go   | 2 ++
 firopow/firopow_lookup.go | 2 ++
 kawpow/kawpow_lookup.go   | 2 ++
 octopus/octopus_lookup.go | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/ethash/ethash_lookup.go b/ethash/ethash_lookup.go
index 30722e3..5adcf20 100644
--- a/ethash/ethash_lookup.go
+++ b/ethash/ethash_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/firopow/firopow_lookup.go b/firopow/firopow_lookup.go
index 90af954..bcad4f7 100644
--- a/firopow/firopow_lookup.go
+++ b/firopow/firopow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18639486848, 18647874688, 18656262784, 18664651648, 18673037696,
 	18681429376, 18689814656, 18698201728, 18706594688, 18714980224,
 	18723370112, 18731761024, 18740150144, 18748538752, 18756927104,
+	18765314944, 18773701504, 18782091392,
 }
diff --git a/kawpow/kawpow_lookup.go b/kawpow/kawpow_lookup.go
index 00e4e58..ec90e03 100644
--- a/kawpow/kawpow_lookup.go
+++ b/kawpow/kawpow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/octopus/octopus_lookup.go b/octopus/octopus_lookup.go
index ea6d295..38f6bfa 100644
--- a/octopus/octopus_lookup.go
+++ b/octopus/octopus_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	149814976, 149880128, 149943616, 150010688, 150076352,
 	150142144, 150208064, 150272704, 150338624, 150404416,
 	150470464, 150535232, 150600256, 150666688, 150732224,
+	150798016, 150862784, 150927808,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	38352710912, 38369479424, 38386267904, 38403044096, 38419820288,
 	38436601088, 38453377792, 38470155008, 38486933248, 38503693568,
 	38520487168, 38537264384, 38554037504, 38570818304, 38587595008,
+	38604372736, 38621145344, 38637924608,
 }
-- 
2.43.0


From ab790b6ccecd2feb9afa21721d0dcba1bfb2e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 8/9] fix: set the mix size of Ethereum Classic

Without it the dataset size of epochs beyond the lookup table divided by zero.
---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From e20b1f64bb04ffba740e3693213317147a605575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 9/9] fix: enforce the ascending order of Cuckoo and Cuckaroo
 edges

The comparison with the previous edge could never run, so every reordering of a
valid cycle was accepted as another solution.
---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0

