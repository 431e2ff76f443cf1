From 1853623e19751a87f36ef546b3b852650b7e15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 01/54] fix: ReadAll reads the whole file, wherever the file
 position is

---
 memfile/appendoptimized.go | 2 +-
 memfile/filewithsize.go    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..907df12 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -49,7 +49,7 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	info, _ := a.file.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	_, err = a.file.ReadAt(data, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..0e67c56 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -31,4 +31,11 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	data := make([]byte, fws.Size())
+	_, err := fws.file.ReadAt(data, 0)
+	if err != nil {
+		return nil, err
+	}
+	return data, nil
+}
-- 
2.43.0


From a9e4728b0c4d99dc6a84d047b75c526292ab24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 02/54] fix: memory-held file no longer reads or writes the
 spare capacity beyond its end

---
 memfile/fixedsize.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/memfile/fixedsize.go b/memfile/fixedsize.go
index 875fd85..08f2723 100644
--- a/memfile/fixedsize.go
+++ b/memfile/fixedsize.go
@@ -25,7 +25,10 @@ func NewFixedSizeMemFile(filename string, perm os.FileMode) (SparseLookupFile, e
 }
 
 func (f fixedSizeMemFile) ReadAt(p []byte, off int64) (n int, err error) {
-	copied := copy(p, f.buffer[off:off+int64(len(p))])
+	if off < 0 || off > int64(len(f.buffer)) {
+		return 0, errors.New("memfile.fixedSizeMemFile.ReadAt(): Offset is outside the file")
+	}
+	copied := copy(p, f.buffer[off:])
 	if copied == len(p) {
 		return copied, nil
 	}
@@ -33,7 +36,10 @@ func (f fixedSizeMemFile) ReadAt(p []byte, off int64) (n int, err error) {
 }
 
 func (f fixedSizeMemFile) WriteAt(p []byte, off int64) (n int, err error) {
-	copied := copy(f.buffer[off:off+int64(len(p))], p)
+	if off < 0 || off > int64(len(f.buffer)) {
+		return 0, errors.New("memfile.fixedSizeMemFile.WriteAt(): Offset is outside the file")
+	}
+	copied := copy(f.buffer[off:], p)
 	if copied == len(p) {
 		return copied, nil
 	}
-- 
2.43.0


From 355728291c3d9e41dca23d47a41f639bd4837b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 03/54] fix: an append reaches the file whole or not at all, so
 a crash never leaves part of a word

---
 memfile/appendoptimized.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 907df12..60b3401 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -62,6 +62,13 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		if off == a.nextAppendOffset {
 			// This WriteAt operation is also an append
 			// So we just squirt it through the buffer
+			// (flushing first if it doesn't fit, so that it never reaches the file in two parts)
+			if len(p) > a.bufferedWriter.Available() {
+				err := a.bufferedWriter.Flush()
+				if err != nil {
+					return 0, err
+				}
+			}
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
 				// A failed append doesn't count as an append
-- 
2.43.0


From f6b52c4552df12284c27180b8ee36b68e6eb3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 04/54] fix: reading a whole word file includes unflushed words
 and does not depend on the file position

---
 wordfile/wordfile.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..5f9d119 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -2,7 +2,6 @@ package wordfile
 
 import (
 	"encoding/binary"
-	"io"
 	"log"
 	"os"
 
@@ -84,10 +83,17 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
+	err := wf.file.Sync() // There may be appended words not yet in the underlying file
+	if err != nil {
+		return nil, err
+	}
+	info, err := wf.underlying.Stat()
+	if err != nil {
+		return nil, err
+	}
 	size := info.Size()
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	_, err = wf.underlying.ReadAt(data, 0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 96c04255e391675900c869ec2c25d8e6ac93daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 05/54] fix: shadowed word file reports reads beyond its end

---
 wordfile/memshadowedwordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..8389076 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"github.com/KitchenMishap/pudding-shed/memfile"
+	"io"
 	"os"
 )
 
@@ -25,6 +26,9 @@ func NewMemShadowedWordFile(file memfile.AppendableLookupFileReadAll, underlying
 }
 
 func (wf *MemShadowedWordFile) ReadWordAt(off int64) (int64, error) {
+	if off < 0 || off >= int64(len(wf.shadow)) {
+		return -1, io.EOF // As the underlying file would say
+	}
 	// Just read the shadow
 	return wf.shadow[off], nil
 }
-- 
2.43.0


From 058dd55fc21dd8bdcfa939fc3b55548c565786ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 06/54] fix: an empty file can be opened as a memory-mapped
 file

---
 memfile/mmapfile.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 20fcbe4..a72a286 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -18,6 +18,14 @@ var _ io.Closer = (*MmapReadOnly)(nil)
 var _ LookupFile = (*MmapReadOnly)(nil)
 
 func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
+	stat, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if stat.Size() == 0 {
+		// An empty file cannot be mapped
+		return &MmapReadOnly{file: f}, nil
+	}
 	// Map as read-only. 0 is the flag for default behaviour.
 	m, err := mmap.Map(f, mmap.RDONLY, 0)
 	if err != nil {
@@ -45,12 +53,18 @@ func (m *MmapReadOnly) ReadAll() ([]byte, error) {
 }
 
 func (m *MmapReadOnly) Sync() error {
+	if m.data == nil {
+		return nil
+	}
 	return m.data.Flush()
 }
 
 func (m *MmapReadOnly) Close() error {
 	// 1. Unmap the memory first
-	err := m.data.Unmap()
+	var err error
+	if m.data != nil {
+		err = m.data.Unmap()
+	}
 	// 2. Close thee underlying file
 	if fErr := m.file.Close(); fErr != nil {
 		return fErr
-- 
2.43.0


From f4134c98b58a595c3f8775308eb37531a1817cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 07/54] fix: a key of the int array map whose file was never
 needed reads as an empty array

---
 intarrayarray/cachedintarraymapstore.go | 3 +++
 intarrayarray/intarraymapstore.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..40831db 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,6 +53,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any of the arrays in this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..8ba47f0 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -45,6 +45,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any of the arrays in this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From a5ca3de42a80388e4c022812cc3848833934cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 08/54] fix: int array map creates the folder of an older file
 before it needs to save it

---
 intarrayarray/intarraymapstore.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 8ba47f0..6951e84 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -101,21 +101,20 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 			if err != nil {
 				return err
 			}
 		}
 		// We can now safely load the required file into "older"
+		// Don't forget to create the folder it will be saved in... as it may not exist yet
+		err := os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// Make a note of the filename
 		ms.olderFilepath = filepath
-		err := ms.olderIntArrayArray.LoadFile(filepath)
+		err = ms.olderIntArrayArray.LoadFile(filepath)
 		if err != nil {
 			// We don't mind a file not found here
 		}
-- 
2.43.0


From 249c1bf938e238362a80770d686783cee5cccdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 09/54] fix: classic hash store refuses a hash it cannot index
 before storing it, and allows 8 byte entries

---
 indexedhashes/hashstore.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..75c762d 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -39,28 +39,34 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 		println("Note: Added a hash we know to be duplicated in the blockchain!")
 	}
 
-	// Write to hashes file
-	index, err := hs.hashesFile.AppendHash(hash)
-	if err != nil {
-		// AppendHash() has already printed error
-		return -1, err
-	}
-
-	hashV := binary.LittleEndian.Uint64(hash[0:8])
-	valnum := index
-
 	NBYTES := hs.entryByteCount
 	MSB := int64(0x80) << (8 * (NBYTES - 1))
 	NBITS := hs.partialHashBitCount
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
+	// The index PLUS ONE is what gets stored, and its MSB must be clear
+	// (compared as unsigned, because an 8 byte MSB is negative as a signed number)
+	count, err := hs.hashesFile.CountHashes()
+	if err != nil {
+		return -1, err
+	}
+	if uint64(count+1) >= uint64(MSB) {
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
 	}
 
+	// Write to hashes file
+	index, err := hs.hashesFile.AppendHash(hash)
+	if err != nil {
+		// AppendHash() has already printed error
+		return -1, err
+	}
+
+	hashV := binary.LittleEndian.Uint64(hash[0:8])
+	valnum := index
+
 	const MAXNBYTES = 8 // Fairly arbitrary and conservative
 	const MAXCPC = 8    // Fairly arbitrary but not conservative
 	const MAXCHUNK = MAXNBYTES * (MAXCPC + 1)
@@ -108,7 +114,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			return -1, err
 		}
 		availableChunks := filestat.Size() / (NBYTES * (CPC + 1))
-		if availableChunks+1 >= MSB {
+		if uint64(availableChunks+1) >= uint64(MSB) {
 			err = errors.New("fatal: size of collisions file is now too large to index into")
 			log.Println("AppendHash(): FATAL: Size of collisions file is now too large to index into")
 			return -1, err
-- 
2.43.0


From 146c2dae27aeeca0fa8853a143e3d9f8066325c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 10/54] fix: classic hash store refuses parameters whose chunks
 would be corrupt or too big for its buffer

---
 indexedhashes/concretehashstorecreator.go | 9 +++++++--
 indexedhashes/hashstore.go                | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..7ebc3a0 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -21,8 +21,13 @@ type ConcreteHashStoreCreator struct {
 func NewConcreteHashStoreCreator(name string, folder string,
 	partialHashBitCount int64, entryByteCount int64, collisionsPerChunk int64,
 	useMemFileForLookup bool, useAppendOptimizedForHashes bool) (*ConcreteHashStoreCreator, error) {
-	if entryByteCount > ZEROBUF {
-		err := errors.New("hard coded ZEROBUF not big enough")
+	if entryByteCount < 1 || entryByteCount > 8 {
+		err := errors.New("entryByteCount must be from 1 to 8")
+		return nil, err
+	}
+	if collisionsPerChunk < 2 || collisionsPerChunk > 8 {
+		// A chunk is begun with two collisions
+		err := errors.New("collisionsPerChunk must be from 2 to 8")
 		return nil, err
 	}
 
diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 75c762d..419c293 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -30,7 +30,7 @@ func NewHashStore(partialHashBitCount int64, entryByteCount int64, collisionsPer
 	return &result
 }
 
-const ZEROBUF = 32 // Arbitrary number. Should be enough (we do check)
+const ZEROBUF = 72 // A whole chunk: MAXNBYTES * (MAXCPC + 1)
 
 func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 
-- 
2.43.0


From 6620ea8fa7e7e845c63860c71ded2f6aefe58ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 11/54] fix: memory-indexed hash store indexes the hashes of
 the file it opens, and keeps the first index of a repeated hash

---
 indexedhashes/memoryindexed.go | 45 +++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..71e23af 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -8,6 +8,7 @@ type MemoryIndexedHashes struct {
 	theMap   map[Sha256]int64
 	theStore *BasicHashStore
 	count    int64
+	loaded   bool // Whether the hashes already in the file have been put in theMap
 }
 
 func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
@@ -17,12 +18,46 @@ func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
 	return &result
 }
 
+// load indexes the hashes that were already in the file when it was opened
+func (mih *MemoryIndexedHashes) load() error {
+	if mih.loaded {
+		return nil
+	}
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for index := int64(0); index < count; index++ {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(index, &hash)
+		if err != nil {
+			return err
+		}
+		mih.add(&hash, index)
+	}
+	mih.loaded = true
+	mih.count = count
+	return nil
+}
+
+// add indexes a hash, unless it is already there at a lower index
+func (mih *MemoryIndexedHashes) add(hash *Sha256, index int64) {
+	_, exists := mih.theMap[*hash]
+	if !exists {
+		mih.theMap[*hash] = index
+	}
+}
+
 func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
+	err := mih.load()
+	if err != nil {
+		return -1, err
+	}
 	index, err := mih.theStore.AppendHash(hash)
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
+	mih.add(hash, index)
 	mih.count++
 	return index, nil
 }
@@ -32,6 +67,10 @@ func (mih *MemoryIndexedHashes) Sync() error {
 }
 
 func (mih *MemoryIndexedHashes) IndexOfHash(hash *Sha256) (int64, error) {
+	err := mih.load()
+	if err != nil {
+		return -1, err
+	}
 	val, ok := mih.theMap[*hash]
 	if ok {
 		return val, nil
@@ -45,6 +84,10 @@ func (mih *MemoryIndexedHashes) GetHashAtIndex(index int64, hash *Sha256) error
 }
 
 func (mih *MemoryIndexedHashes) CountHashes() (int64, error) {
+	err := mih.load()
+	if err != nil {
+		return 0, err
+	}
 	return mih.count, nil
 }
 
-- 
2.43.0


From 441d4d7f6f5c61f5df58bf6672c0a72b1a353f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 12/54] fix: uniform hash store can write its parameters file

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..8f4dc1b 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From 0d79ff18c9bd5221d83f95ddceb0f7d654ffe394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 13/54] fix: uniform hash store has a bin for the highest
 hashes

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..560d667 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1 // Exactly: the highest possible hash must have a bin
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From dbfd484a99ccd0ecc996e26fdd4cf843cc7892e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 14/54] fix: uniform preloader closes each overflow file,
 rather than running out of open files

---
 indexedhashes/multipasspreloader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index 560d667..063d1ea 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -214,16 +214,20 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 			if err != nil {
 				return err
 			}
-			defer file.Close()
 			for i := 0; i < len(element); i++ {
 				ih := element[i]
 				bytes := make([]byte, 8)
 				binary.LittleEndian.PutUint64(bytes[0:8], uint64(ih.index))
 				_, err = file.Write(bytes)
 				if err != nil {
+					file.Close()
 					return err
 				}
 			}
+			err = file.Close() // Now, not at the end: there can be very many of these files
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 145b8c630651a17649b0336a9f6dc05c65fb5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 15/54] fix: hash index lookup starts from the first entry
 having the sort number

---
 indexedhashes3/binbytes.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..7ef8c57 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -211,8 +211,14 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 		} else if snMid > sn {
 			return startIndex, midIndex
 		} else {
-			// Equal
-			return midIndex, midIndex // END
+			// Equal. Keep stepping back one to find the first occurrence of sn
+			// (We know that snStart < sn, so this ends after startIndex)
+			for snMid == sn {
+				midIndex--
+				entryMid = b.getEntry(midIndex, p)
+				_, snMid = entryMid.getHashIndexSortNum(p)
+			}
+			return midIndex + 1, midIndex + 1 // END
 		}
 	} else {
 		// sn must be equal to snEnd
-- 
2.43.0


From 93523ac98509d3f042e5f924e797343de5a16964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 16/54] fix: building a hash index keeps hashes that differ
 only in their sort number

---
 indexedhashes3/binbytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 7ef8c57..66a2050 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -320,19 +320,22 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
 		currentChunk := b.bytes[readIdx*bytesPerEntry : (readIdx+1)*bytesPerEntry]
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
 
-		if currentTH != lastTH {
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From 8f42217f124d4b9a4b518f5dc65d3a2829cdf56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 17/54] fix: adaptive index build copes with workers that get
 no bins

---
 indexedhashes3/adaptivepass.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..3c54dea 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening, and nothing will be sent
 			}
 
 			wg.Add(1)
@@ -335,7 +334,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
+		// (The pass is not over until this is done with the channels and the bin numbers)
+		wg.Add(1)
 		go func() {
+			defer wg.Done()
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
-- 
2.43.0


From 8ee9693d2eac385e8b1c8554fb1e527a05ed401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 18/54] fix: adaptive index build reports failure to read the
 hashes

---
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..2d362e4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From 6db92528e627c660eb08917be989e3597eed389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 19/54] fix: the highest hashes have a bin when the number of
 bins is not a power of two

---
 indexedhashes3/abbreviatedhash.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/abbreviatedhash.go b/indexedhashes3/abbreviatedhash.go
index 122cf60..52734b0 100644
--- a/indexedhashes3/abbreviatedhash.go
+++ b/indexedhashes3/abbreviatedhash.go
@@ -10,10 +10,15 @@ func newAbbreviatedHashFromBinNumSortNum(bn binNum, sn sortNum, p *HashIndexingP
 
 func (ah *abbreviatedHash) toBinNum(p *HashIndexingParams) binNum {
 	// Integer division
-	return binNum(uint64(*ah) / p.Divider())
+	bn := uint64(*ah) / p.Divider()
+	// When the number of bins is not a power of two, the remainder of the division belongs in the last bin
+	if bn >= uint64(p.NumberOfBins()) {
+		bn = uint64(p.NumberOfBins()) - 1
+	}
+	return binNum(bn)
 }
 
 func (ah *abbreviatedHash) toSortNum(p *HashIndexingParams) sortNum {
 	// Remainder
-	return sortNum(uint64(*ah) % p.Divider())
+	return sortNum(uint64(*ah) - uint64(ah.toBinNum(p))*p.Divider())
 }
-- 
2.43.0


From eb30943dfc42afb7a8457b63bb580456b84bc43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 20/54] fix: multipass index build copes with a memory budget
 smaller than one bin

---
 indexedhashes3/multipasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..3a9ab15 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -44,6 +44,9 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		expectedEntriesPerBin = 1
 	}
 	binsPerPass := mp.bytesPerPass / (mp.params.BytesPerBinEntry() * expectedEntriesPerBin)
+	if binsPerPass < 1 {
+		binsPerPass = 1 // However little memory we are given
+	}
 	passes := 1 + mp.params.NumberOfBins()/binsPerPass
 
 	for pass := int64(0); pass < passes; pass++ {
-- 
2.43.0


From 03ac90d3defa47298ecb77f9fe78465fc5de88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 21/54] fix: an empty hash index is created with room for every
 bin

---
 indexedhashes3/hashstorecreator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..e7eec0b 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,7 +127,8 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	defer binStartsFile.Close()
+	err = binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e0fe5b9ac0368abe28916b5bae66b509071abce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 22/54] fix: a hash appended again to a hash index is still
 found at its first index

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 66a2050..b669736 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -72,6 +72,15 @@ func (b *bin) insertBinEntry(sn sortNum, hi hashIndex, th truncatedHash, p *Hash
 	if insertionPoint > b.length(bytesPerEntry) {
 		panic("insertionPoint too large")
 	}
+	// Go after any others having the same sortNum, so that the first of a repeated hash is the one that's found
+	for insertionPoint < b.length(bytesPerEntry) {
+		entry := b.getEntry(insertionPoint, p)
+		_, snFound := entry.getHashIndexSortNum(p)
+		if snFound != sn {
+			break
+		}
+		insertionPoint++
+	}
 	// For some reason I couldn't get slices.Insert() to compile
 	// Alternative insertion algorithm:
 	if len(b.bytes) == 0 {
-- 
2.43.0


From 61171023fb0946888ff7553e1777849f61b1d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 23/54] fix: rebuilding a hash index does not inherit overflows
 from the previous one

---
 indexedhashes3/adaptivepasspreloader.go | 4 ++++
 indexedhashes3/multipasspreloader.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 2d362e4..3186b44 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -153,6 +153,10 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
+	err = os.RemoveAll(ofFolderPath) // Overflows of a previous index would be taken for our own
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 3a9ab15..ef89465 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -184,6 +184,10 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
+	err = os.RemoveAll(ofFolderPath) // Overflows of a previous index would be taken for our own
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From 7b593af7b4b9409e2ce1526be1dc1fe05a5382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 24/54] fix: progress reports don't fail when stdout is a
 terminal or a pipe

---
 indexedhashes3/multipasspreloader.go | 5 +----
 jobs/intrinsicparallel.go            | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index ef89465..ca066ff 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -52,10 +52,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		_ = os.Stdout.Sync() // Terminals and pipes can't be synced, and that doesn't matter
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..f1a7efd 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -678,10 +678,7 @@ func (p *Progress) Update(currentItem int64) {
 			float64(100)*float64(currentItem-p.startItem)/float64(p.endItem-p.startItem),
 			p.taskName, prediction.Format(dateFormat), int(math.Round(itemsPerSecond)))
 		fmt.Printf("%s%s          ", p.backslashR, msg)
-		err := os.Stdout.Sync()
-		if err != nil {
-			panic(err)
-		}
+		_ = os.Stdout.Sync() // Terminals and pipes can't be synced, and that doesn't matter
 
 		p.checkpointTime = now
 		p.checkpointItem = currentItem
-- 
2.43.0


From 111e003244ca46339197beb67c7cc366608a4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 25/54] fix: the last hashes of the chain are streamed as they
 are, not as zeros

---
 corereader2/blockhashes.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..32982e0 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,8 @@
 package corereader2
 
 import (
+	"crypto/sha256"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -43,25 +45,42 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			close(channel)
 			return err
 		}
-		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
-		err = resp.Body.Close()
+		bodyOutHeaders, err := io.ReadAll(resp.Body)
+		closeErr := resp.Body.Close()
+		if err == nil {
+			err = closeErr
+		}
+		if err == nil && resp.StatusCode != 200 {
+			err = errors.New("StreamBlockHashes(): response to headers request: " + resp.Status)
+		}
 		if err != nil {
 			fmt.Println(err.Error())
 			close(channel)
 			return err
 		}
+		// If there are fewer headers than we asked for, the last one is the last of the blockchain
+		headersCount := len(bodyOutHeaders) / 80
+		exhausted := headersCount < 1002
+		hashesCount := 1002 - 2
+		if exhausted {
+			hashesCount = headersCount
+		}
 
 		// Each header is 80 bytes. header counts from 0
-		for header := range len(bodyOutHeaders)/80 - 2 {
+		for header := range hashesCount {
 			// We will ignore the first header, as the second header contains the hash of the first block (as "prev hash")
 			offset := (header + 1) * 80
 
 			// The hash of the next block to request
-			hashBytes := bodyOutHeaders[offset+4 : offset+36]
 			hash := indexedhashes.Sha256{}
-			copy(hash[:], hashBytes)
+			if header+1 < headersCount {
+				hashBytes := bodyOutHeaders[offset+4 : offset+36]
+				copy(hash[:], hashBytes)
+			} else {
+				// No header follows the last header of the blockchain, so this one hash we have to calculate
+				firstHash := sha256.Sum256(bodyOutHeaders[offset-80 : offset])
+				hash = sha256.Sum256(firstHash[:])
+			}
 			channel <- hash
 
 			sentBlocks++
@@ -75,7 +94,7 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 		// But we still want more blocks.
 		// If we didn't get the 1002 headers we requested, then we've exhausted the blockchain before
 		// the requested number of blocks.
-		if len(bodyOutHeaders) < 80*1002 {
+		if exhausted {
 			fmt.Println("Blockchain exhausted")
 			close(channel)
 			return nil // Let's not treat it as an error
-- 
2.43.0


From 249b0f0b8f5ce1620634005e8fcabf687c64c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 26/54] fix: a coinbase input parsed from JSON is the same as
 parsed from binary

---
 intrinsicobjects/jsontransaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intrinsicobjects/jsontransaction.go b/intrinsicobjects/jsontransaction.go
index 5f9a3b5..af1b2a1 100644
--- a/intrinsicobjects/jsontransaction.go
+++ b/intrinsicobjects/jsontransaction.go
@@ -41,16 +41,17 @@ func parseJsonTransaction(parsed *JsonTransEssential, targetTrans *Transaction,
 	for i := 0; i < txiCount; i++ {
 		thisTxi := Txi{}
 
+		thisTxi.VOut = int64(parsed.J_vin[i].J_vout)
 		if parsed.J_vin[i].J_txid == "" {
 			// Must be a coinbase transaction
 			thisTxi.TxId = indexedhashes.Sha256{} // All zeroes
+			thisTxi.VOut = 0xffffffff             // As in the binary form
 		} else {
 			err = indexedhashes.HashHexToSha256(parsed.J_vin[i].J_txid, &thisTxi.TxId)
 			if err != nil {
 				return err
 			}
 		}
-		thisTxi.VOut = int64(parsed.J_vin[i].J_vout)
 
 		storage.Txis = append(storage.Txis, thisTxi)
 	}
-- 
2.43.0


From 327a1559a237e9d5e11d3d0d0f93fd9ee129b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 27/54] fix: a truncated binary block is an error and is
 fetched again

---
 corereader2/getparseblocksbinary.go | 10 ++++++++--
 intrinsicobjects/binaryblock.go     | 12 +++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 901ef0a..1dd6ce5 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -79,8 +79,14 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 											success = true
 										}
 									} else {
-										intrinsicobjects.ParseBinaryBlock(bodyOutBlock, &numbered.Block)
-										success = true
+										err = intrinsicobjects.ParseBinaryBlock(bodyOutBlock, &numbered.Block)
+										if err != nil {
+											success = false
+											fmt.Println(err.Error())
+											fmt.Println("Error parsing binary")
+										} else {
+											success = true
+										}
 									}
 									if success {
 										outChan <- numbered
diff --git a/intrinsicobjects/binaryblock.go b/intrinsicobjects/binaryblock.go
index 93f2edb..a6e2648 100644
--- a/intrinsicobjects/binaryblock.go
+++ b/intrinsicobjects/binaryblock.go
@@ -3,10 +3,19 @@ package intrinsicobjects
 import (
 	"crypto/sha256"
 	"encoding/binary"
+	"fmt"
 	"math/big"
 )
 
-func ParseBinaryBlock(bin []byte, targetBlock *Block) {
+// ParseBinaryBlock returns an error if the binary ends before the block does
+func ParseBinaryBlock(bin []byte, targetBlock *Block) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("binary block is truncated or malformed: %v", r)
+		}
+	}()
+	bin = bin[:len(bin):len(bin)] // Otherwise a slice beyond the end, but within the capacity, would go unnoticed
+
 	if targetBlock.Storage == nil {
 		targetBlock.Storage = NewMultiTransactionStorage()
 	} else {
@@ -69,6 +78,7 @@ func ParseBinaryBlock(bin []byte, targetBlock *Block) {
 	}
 
 	targetBlock.Size = len(bin)
+	return nil
 }
 
 func CalculateDifficulty(nBits uint32) float64 {
-- 
2.43.0


From c9fd323965a2233092df371cafd93e39da676c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 28/54] fix: re-opened hash lists of a chain continue after
 their last hash

---
 chainstorage/concretehasheschainfactory.go | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..b144e6c 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -93,31 +93,51 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err := hashesInFile(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	result.blkHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err = hashesInFile(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	result.trnHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err = hashesInFile(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	result.adrHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	return &result, nil
 }
+
+func hashesInFile(file *os.File) (int64, error) {
+	fileInfo, err := file.Stat()
+	if err != nil {
+		return -1, err
+	}
+	return fileInfo.Size() / 32, nil
+}
-- 
2.43.0


From 43e9347ea1fc3a9c656aee9658b70242c720b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 29/54] fix: a failure to append an address hash is reported

---
 chainstorage/concretehasheschain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
-- 
2.43.0


From c4426c4d67a712e9f9ad91f23e60c3f4cada6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 30/54] fix: handles looked up by hash can be used, and failed
 lookups are errors

---
 chainstorage/concretereadablechain.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..167dd21 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -269,7 +269,10 @@ func (crc *concreteReadableChain) AddressHandleByHeight(addressHeight int64) (ch
 }
 func (crc *concreteReadableChain) AddressHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IAddressHandle, error) {
 	result := AddressHandle{}
-	index, _ := crc.addrHashes.IndexOfHash(&sha256)
+	index, err := crc.addrHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("address hash not found")
 	}
@@ -285,25 +288,33 @@ func (crc *concreteReadableChain) AddressHandleByString(address string) (chainre
 
 func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.ITransHandle, error) {
 	result := TransHandle{}
-	index, _ := crc.trnHashes.IndexOfHash(&sha256)
+	index, err := crc.trnHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
 func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IBlockHandle, error) {
 	result := BlockHandle{}
-	index, _ := crc.blkHashes.IndexOfHash(&sha256)
+	index, err := crc.blkHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From c71846e8eda6f450e64a13214191d804f284d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 31/54] fix: a second chain can be written by the same process

---
 chainstorage/concreteappendablechainfactory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..6b39b71 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -282,6 +282,7 @@ func (cacc *ConcreteAppendableChainCreator) OpenWithIndexer() (IAppendableChain,
 func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableChain, error) {
 	result := concreteAppendableChain{}
 	result.transactionIndexingIsDelegated = cacc.transactionIndexingToBeDelegated
+	PrevFirstTxo, PrevTrans = -1, -1 // Whatever chain was appended to before, this is another one
 
 	var err error
 	result.blkHashes, err = cacc.blockHashStoreCreator.OpenHashStore()
-- 
2.43.0


From 5f2e92c2d83d05259d08aed139397c090ec4cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 32/54] fix: chain being written can be asked for parents;
 unindexed transactions are errors

---
 chainstorage/concreteappendablechain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..9f77a68 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -65,6 +65,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
@@ -695,6 +698,9 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 	if !cac.transactionIndexingIsDelegated {
 		// We now assume that all hashes have already been stored and indexed
 		transNum, err := cac.trnHashes.IndexOfHash(&transHash) // ToDo is this legal in the face of duplicate trans hashes?
+		if err != nil {
+			return -1, err
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
-- 
2.43.0


From 5359ae390b79fe8c6ecbb3ed443de98aa24500f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 33/54] fix: reading a memory-mapped file at a negative offset
 is an error, not a panic

---
 memfile/mmapfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index a72a286..6152f6d 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -38,6 +38,9 @@ func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
 }
 
 func (m *MmapReadOnly) ReadAt(p []byte, off int64) (n int, err error) {
+	if off < 0 {
+		return 0, errors.New("ReadAt() at a negative offset in MmapReadOnly")
+	}
 	if off >= int64(len(m.data)) {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 96dd02232593801599c62542cbfabc4ac12102f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 34/54] fix: top tier finds a hash by index after a bake

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From 6811f7478f05f944952371eb1537d04d049eb5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 35/54] fix: top tier keeps its own copy of an appended hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..ed8dcdd 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From 02a3f047e8fdf5edd22e9d9e3df48e5cc1a95370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 36/54] fix: a lower tier's potential match is checked against
 the hashes file

---
 weddingcakeback/tierbelow.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..b86f629 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -238,9 +239,15 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match: check the entire hash against the hashes file
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				candidate, err := tb.hashesFile.ReadHashAt(int64(globalPi - tb.DonutForestsInfo[0].FirstGlobalPresentationIndex))
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if bytes.Equal(candidate[:], hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 2919abbc4cb891463375db307585aebef28fd62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 37/54] fix: jump tables are read in the order they are written

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b86f629..af87c7e 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// Jump tables are written with the first byte of the prefix as the most significant
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From a9064264b0144ba7bc450dcf16caff4449e166ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 38/54] fix: level files are named as they are looked for

---
 weddingcakeback/donutforestwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..74b0d25 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -324,7 +324,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open for append or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -435,7 +435,7 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tier
 			}
 			if dfw.LevelFiles[levelNum] == nil {
 				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 				filePath := filepath.Join(tierFolderPath, filename)
 				var err error
 				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From f98b50f698e568c41c6958ef6fe22d303d42cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 39/54] fix: a bake keeps the tiers below the one it replaces

---
 weddingcakeback/donutforestwrite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 74b0d25..93860e4 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -201,7 +201,10 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The source's next tier is about to be replaced by newTierBelow; it is the one after that we keep
+		if replacedTier := sourceReadable.GetNextTier(); replacedTier != nil {
+			preservedNextTier = replacedTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 68a56ef4fd3e9fc8a69b7b70c9395da8dda04f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 40/54] fix: a lone hash's reassurance bytes follow its prefix

---
 weddingcakeback/singletree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..95f5907 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -116,7 +116,7 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
 		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		copy(leafNode.ReassuranceHashBytes, input[0].Hash[PrefixBytesN:])
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 21ac5fe19a97c8e8caf5fd6bdb3f23ff847af7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 41/54] fix: nodes of many trees are laid out as the level
 index describes

---
 weddingcakeback/donutforestwrite.go | 57 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 93860e4..ad29de4 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,9 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, where in its file the next node of each format group goes.
+	// (A level's nodes are laid out group by group across ALL the trees of the DonutForest)
+	nextNodeOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -117,7 +121,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.appendToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -330,23 +334,34 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		offset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+		// The nodes follow, one group after another
+		offset += int64(len(levelIndexBytes))
+		dfw.nextNodeOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.nextNodeOffsets[levelNum][groupIndex] = offset
+			offset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is a slice of slices of byte slices, one for each group of each level of the tree.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -359,10 +374,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each group of each level, a byte slice
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -371,7 +386,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -393,6 +407,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			levelNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -430,25 +445,17 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+// appendToLevelsFiles writes a tree's nodes, each after those that previous trees had in the same level and group
+func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsNodesBytes {
+		for groupIndex, nodesBytes := range groupsNodesBytes {
+			if len(nodesBytes) != 0 {
+				nextOffset := &dfw.nextNodeOffsets[levelNum][groupIndex]
+				_, err := dfw.LevelFiles[levelNum].WriteAt(nodesBytes, *nextOffset)
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				*nextOffset += int64(len(nodesBytes))
 			}
 		}
 	}
-- 
2.43.0


From c966308b4569686f02f78229077e401801375d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 42/54] fix: a hash presented again is tolerated, and found at
 its first index

---
 weddingcakeback/tierbelowsource.go |  8 ++++++++
 weddingcakeback/tiertop.go         | 22 +++++++++++++++-------
 weddingcakefront/cake.go           | 19 +++++++------------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index e8b2a29..cb8f775 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -34,6 +34,9 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 	jumpTableIndex := index
 
 	result := make([]SingleTreeHash, 0, 1000)
+	// The same hash can have been presented to more than one DonutForest. SingleTree does not tolerate
+	// duplicates, so we keep just the first presentation (DonutForests are in order of presentation)
+	seen := make(map[Sha256]bool, 1000)
 
 	// Work out the size of each jump table
 	nodeIdConfig := &tb.ThisTierConfig.NodeIdConfig
@@ -73,6 +76,11 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 						panic(err)
 					}
 
+					if seen[hash] {
+						return
+					}
+					seen[hash] = true
+
 					// singleTreeOffset is used to convert globalPi to singleTreePi.
 					// It needs to be the same in all cases for this bake, as these pairs will be sent to construct a SingleTree.
 					// It is therefore the firstPresentationIndex from the source tier (ie, this TierBelow)
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ed8dcdd..262c804 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -120,7 +120,9 @@ func (tt *TierTop) Open(readOnly bool) error {
 		if err != nil {
 			return err
 		}
-		tt.theMap[hash] = i
+		if _, repeated := tt.theMap[hash]; !repeated {
+			tt.theMap[hash] = i // Reverse lookup gives the FIRST index
+		}
 		tt.theSlice[i] = hash[:]
 	}
 	return nil
@@ -192,7 +194,9 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
+	if _, repeated := tt.theMap[h]; !repeated {
+		tt.theMap[h] = TierTopIndex(index) // Reverse lookup gives the FIRST index
+	}
 	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
@@ -238,14 +242,18 @@ func (tt *TierTop) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []Si
 	if index != 0 {
 		panic("TierZero.GetHashesForIndex() should only be called with index=0")
 	}
-	result := make([]SingleTreeHash, len(tt.theSlice))
+	result := make([]SingleTreeHash, 0, len(tt.theSlice))
 	for i := range tt.theSlice {
+		if tt.theMap[Sha256(tt.theSlice[i])] != TierTopIndex(i) {
+			continue // Repeats an earlier hash. SingleTree does not tolerate duplicates
+		}
 		globalPi := GlobalPiFromTierTopIndex(TierTopIndex(i), offsetToUse)
 		singleTreePi := SingleTreePiFromGlobalPi(globalPi)
-		result[i].PresentationIndex = singleTreePi
-		//result[i].SourceOffset = offsetToUse
-		result[i].Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
-		copy(result[i].Hash, tt.theSlice[i][:])
+		pair := SingleTreeHash{PresentationIndex: singleTreePi}
+		//pair.SourceOffset = offsetToUse
+		pair.Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
+		copy(pair.Hash, tt.theSlice[i][:])
+		result = append(result, pair)
 	}
 	return result
 }
diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index e6a3496..bef3fa0 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -2,7 +2,6 @@ package weddingcakefront
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
 )
@@ -28,21 +27,17 @@ func (c *Cake) IndexOfHash(hash *Sha256) (int64, error) {
 	found := false
 	reader := c.tierReader
 	var result GlobalPiType
-	var err error
-	tierCount := -1 // To represent TierTop
-	for !found && reader != nil {
-		if tierCount == 1 {
-			fmt.Printf("Breakpoint here: tier %d\n", tierCount)
-		}
-		result, found, err = reader.TryIndexOfHash((*hash)[:])
+	// The same hash may have been presented several times. Each tier is older than those above it,
+	// so the first presentation is in the lowest tier which finds the hash.
+	for reader != nil {
+		index, foundHere, err := reader.TryIndexOfHash((*hash)[:])
 		if err != nil {
 			return -1, err
 		}
-		if !found {
-			fmt.Printf("Hash not found in tier %d\n", tierCount)
-			reader = reader.GetNextTier()
+		if foundHere {
+			result, found = index, true
 		}
-		tierCount++
+		reader = reader.GetNextTier()
 	}
 	if !found {
 		return -1, nil
-- 
2.43.0


From 770567099aee327ac3b2dd981dbd0d62d1da24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 43/54] fix: a negative index is out of range for tier zero

---
 weddingcake/tierzero.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index e8e9341..da950ef 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -68,7 +68,7 @@ func (tz *TierZero) IndexOfHash(hash *Sha256) (int64, error) {
 }
 
 func (tz *TierZero) GetHashAtIndex(index int64, hash *Sha256) error {
-	if index < int64(len(tz.theSlice)) {
+	if index >= 0 && index < int64(len(tz.theSlice)) {
 		*hash = tz.theSlice[index]
 		return nil
 	}
-- 
2.43.0


From c98947a8dd929d7a281d6457442694e7f0a10800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 44/54] fix: every chunk of the chunk files is read into its
 own place

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From 53135d2fdf0f5698aadc8645d3164d93f03ce294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 45/54] fix: a tree that uses every level of a 64 byte hash has
 a shape

---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From 88075684ac01a16f78014d085e53ec6cbeb27bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 46/54] fix: MemoryWasFreed() wakes everyone waiting for
 memory, not just one of them

---
 memblocker/memblocker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index a4b997a..4bc6993 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -43,7 +43,7 @@ func (mb *MemBlocker) StartFreeingMem() {
 }
 func (mb *MemBlocker) MemoryWasFreed() {
 	mb.someBytesFreedCond.L.Unlock()
-	mb.someBytesFreedCond.Signal()
+	mb.someBytesFreedCond.Broadcast() // Everyone waiting may go on, not just one of them
 }
 
 // countAllocatedMemory returns the current process heap allocation.
-- 
2.43.0


From 6a8d32460c657fae547ed67e18f4446f7f15c62d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 47/54] fix: an overflow file that can not be read is not taken
 for one that is not there

---
 indexedhashes3/binfiles.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..221b538 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -34,6 +34,9 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return nil, err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
@@ -65,6 +68,9 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
-- 
2.43.0


From d4d0f3c48ca3379b294e63255f166048a5928e17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 48/54] fix: index parameters that could not be written are
 reported

---
 indexedhashes3/hashstorecreator.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index e7eec0b..8be9b65 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -25,10 +25,10 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(hashStoreFolderPath, params)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -50,10 +50,10 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(hashStoreFolderPath, params)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -72,6 +72,15 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	return creator, preloader, nil
 }
 
+func writeParamsFile(hashStoreFolderPath string, params *HashIndexingParams) error {
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return err
+	}
+	sep := string(os.PathSeparator)
+	return os.WriteFile(hashStoreFolderPath+sep+"HashIndexingParams.json", byts, 0666)
+}
+
 func NewHashStoreCreatorFromFile(
 	folder string, name string, hashesInRamDANGER bool) (indexedhashes.HashStoreCreator, error) {
 	sep := string(os.PathSeparator)
-- 
2.43.0


From 307fc12af2e20876b8e6924d4ce9c3a40b1dae4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 49/54] fix: phases one and three report data that could not be
 written

---
 jobs/intrinsicparallel.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index f1a7efd..0997920 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -351,8 +351,10 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		progress.Update(transCount)
 	}
 
+	// Closing says nothing of data that could not be written. Syncing does
+	err = hc.Sync()
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -436,8 +438,10 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 		progress.Update(transCount)
 	}
 
+	// Closing says nothing of data that could not be written. Syncing does
+	err = hc.Sync()
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
@@ -531,8 +535,10 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// Closing says nothing of data that could not be written. Syncing does
+	err = ac.Sync()
 	ac.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
@@ -622,8 +628,10 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// Closing says nothing of data that could not be written. Syncing does
+	err := ac.Sync()
 	ac.Close()
-	return nil
+	return err
 }
 
 type Progress struct {
-- 
2.43.0


From d04fdd969b0a56e82a1cb515102912576d57324c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 50/54] fix: saving arrays does not destroy the previous file
 when it fails

---
 intarrayarray/intarrayarray.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intarrayarray/intarrayarray.go b/intarrayarray/intarrayarray.go
index 4e6b8a4..84598d9 100644
--- a/intarrayarray/intarrayarray.go
+++ b/intarrayarray/intarrayarray.go
@@ -71,11 +71,13 @@ func (iaa *IntArrayArray) SaveFile(filepath string) error {
 		}
 	}
 	// Second write the file as a whole
-	err := os.WriteFile(filepath, buffer, 0755)
+	// (beside any previous version, which stays as it is until we know that this one is complete)
+	err := os.WriteFile(filepath+".tmp", buffer, 0755)
 	if err != nil {
+		_ = os.Remove(filepath + ".tmp")
 		return err
 	}
-	return err
+	return os.Rename(filepath+".tmp", filepath)
 }
 
 func (iaa *IntArrayArray) LoadFile(filepath string) error {
-- 
2.43.0


From d5bf76c779b9c3176c6c5e92153ebf8ee9e42c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 51/54] fix: arrays that could not be saved or loaded are
 reported

---
 intarrayarray/cachedintarraymapstore.go | 12 ++++++++----
 intarrayarray/intarraymapstore.go       | 23 +++++++++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 40831db..b90ab5d 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -83,8 +83,9 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		// Don't mind a file not found here, we just stay empty
+		return nil, err
 	}
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
@@ -92,7 +93,10 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.cacheElementCount += cached.elementTally
 
 	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return &cached, nil
 }
@@ -134,7 +138,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 6951e84..79bfb99 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -71,7 +71,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
@@ -79,13 +82,15 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		if err != nil {
 			return err
 		}
-		// Make a note of the filename and number
-		ms.latestFilepath = filepath
-		ms.latestFileNumber = fileNumber
+		ms.latestFilepath = ""
 		err = ms.latestIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind about file not found, happy to be empty
+			return err
 		}
+		// Make a note of the filename and number
+		ms.latestFilepath = filepath
+		ms.latestFileNumber = fileNumber
 		// Append to the array
 		ms.latestIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
@@ -112,12 +117,14 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		if err != nil {
 			return err
 		}
-		// Make a note of the filename
-		ms.olderFilepath = filepath
+		ms.olderFilepath = ""
 		err = ms.olderIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind a file not found here
+			return err
 		}
+		// Make a note of the filename
+		ms.olderFilepath = filepath
 		// And append to it
 		ms.olderIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
-- 
2.43.0


From d6ed4fef63609ee9335c5df08ef7dbfb28939a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 52/54] fix: a write that failed does not move the end of the
 file

---
 memfile/appendoptimized.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 60b3401..f71cc4a 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -88,7 +88,7 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 			}
 			// Do the WriteAt without a buffer
 			nWritten, err := a.file.WriteAt(p, off)
-			if off+int64(nWritten) > a.totalSize {
+			if nWritten > 0 && off+int64(nWritten) > a.totalSize {
 				a.totalSize = off + int64(nWritten)
 			}
 			return nWritten, err
@@ -112,7 +112,7 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		}
 		// No it's not an append. Do it without a buffer
 		nWritten, err := a.file.WriteAt(p, off)
-		if off+int64(nWritten) > a.totalSize {
+		if nWritten > 0 && off+int64(nWritten) > a.totalSize {
 			a.totalSize = off + int64(nWritten)
 		}
 		return nWritten, err
-- 
2.43.0


From 9e1384299f79ba5c09c1a41ae134de3e435ad0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 53/54] fix: appends go on failing after buffered ones were
 lost

---
 memfile/appendoptimized.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index f71cc4a..fc5ab2f 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -71,9 +71,8 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 			}
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
-				// A failed append doesn't count as an append
-				a.bufferedWriter = nil
-				a.totalSize += int64(nWritten)
+				// What was buffered can not reach the file any more. The bufferedWriter knows
+				// (it goes on to give the error) so we keep it
 				return nWritten, err
 			}
 			a.nextAppendOffset += int64(nWritten)
-- 
2.43.0


From c7d88ab6d0b901dab101d51081d3cffc86f07966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:42 +0000
Subject: [PATCH 54/54] fix: reading the hashes to index them may fail

---
 indexedhashes/multipasspreloader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index 063d1ea..9a92b21 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"sync"
@@ -130,8 +131,14 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 
 	chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
 
-	nBytes, _ := hashesFile.Read(chunk)
-	for nBytes > 0 {
+	for {
+		nBytes, err := io.ReadFull(hashesFile, chunk)
+		if err == io.EOF {
+			break
+		}
+		if err != nil && err != io.ErrUnexpectedEOF { // (which is no more than the last, shorter chunk)
+			return err
+		}
 		if nBytes%32 != 0 {
 			return errors.New("invalid hash file length")
 		}
@@ -141,7 +148,6 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 			spd.dealWithOneHash(&ih, mp)
 			ih.index++
 		}
-		nBytes, _ = hashesFile.Read(chunk)
 	}
 	return nil
 }
-- 
2.43.0

