From e1ad1788323bef2b855ce7103ea0b9ae80b11478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 01/21] fix: keep the order in InsertSavingOrder when the list
 has duplicates

---
 internal/helpers/arrays.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..cb5f4e7 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -144,8 +144,12 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 		return append(haystack, value)
 	}
 	index := BinaryIndexOfClosest(haystack, value)
-	if value >= haystack[index] {
-		return Insert(haystack, index+1, value)
+	// The closest element may have duplicates on either side of it
+	for index < len(haystack) && haystack[index] <= value {
+		index++
+	}
+	for index > 0 && haystack[index-1] > value {
+		index--
 	}
 	return Insert(haystack, index, value)
 }
-- 
2.43.0


From c81bf83ae7f9b8242c2bd5a1fc46ef8c98f06af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 02/21] fix: similarity of profiles with nothing to compare is
 0 instead of NaN

---
 internal/domain/profile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..a789adb 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -100,6 +100,9 @@ func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
 	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
+	if likesWeight+dislikesWeight == 0 {
+		return 0
+	}
 	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
 		(float32(likesWeight) + float32(dislikesWeight)))
 }
-- 
2.43.0


From 93d9da07d66ed8876ac96eb0fccb2ab6b7097cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 03/21] fix: look up flushed operations of a user that has
 unflushed ones

---
 internal/infra/delta/storage.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..3ff093d 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,13 +146,15 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
+	op, exists := findLast(s.newDelta[user], item)
 	if !exists {
-		return domain.DeltaOpAdd, false
+		op, exists = findLast(s.deltaCache[user], item)
 	}
+	return op, exists
+}
+
+// Returns the last operation associated with the item in the list of deltas.
+func findLast(deltas []itemDelta, item uint64) (domain.DeltaOp, bool) {
 	for i := range deltas {
 		delta := deltas[len(deltas)-i-1]
 		if delta.item == item {
-- 
2.43.0


From 90ad4db49f578761c8c7d19d8155b2ecfc694b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 04/21] fix: report failed seeks when flushing a delta storage

---
 internal/infra/delta/storage.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 3ff093d..557ee5f 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek to the header: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -57,7 +60,10 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	_, err := s.file.Seek(0, io.SeekEnd)
+	if err != nil {
+		return fmt.Errorf("failed to seek to the entries: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -80,7 +86,7 @@ func (s *storage) flushEntries() error {
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
-- 
2.43.0


From 81fc0b133a5446b7550558aaf20f81cfb8f499aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 05/21] fix: flushing a delta storage again after a failed
 flush leaves no stray entries

---
 internal/infra/delta/storage.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 557ee5f..d7cc785 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -60,7 +60,9 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	_, err := s.file.Seek(0, io.SeekEnd)
+	// An earlier failed attempt may have left some of these entries in the file
+	flushed := s.totalItemCount - s.unflushedItemCount
+	_, err := s.file.Seek(int64(len(prefix)+headerSize+flushed*entrySize), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf("failed to seek to the entries: %v", err)
 	}
@@ -77,12 +79,6 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
@@ -90,6 +86,10 @@ func (s *storage) flushEntries() error {
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From adb259ac49f2fcd8fde827169e473519d43588f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 06/21] fix: recover a delta file from its beginning whatever
 its position is

---
 internal/infra/delta/storagefactory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..088fa49 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,12 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fa4349903fb4429c734966dea1c0c8300c57d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 07/21] fix: a read error during delta recovery is not the end
 of the file

---
 internal/infra/delta/protocol.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..c827a31 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -40,6 +40,9 @@ var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 // The offset of the lock byte of the header from the beginning of the file.
 const lockedOffset = len(prefix) + 1
 
+// The error of reading a wrong file prefix.
+var errNotDeltaFile = errors.New("not a delta file")
+
 // Provides delta file functions.
 type Protocol interface {
 	// Writes the file prefix, aka "Magic number", which verifies type of the file.
@@ -107,7 +110,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDeltaFile
 	}
 	return nil
 }
@@ -247,6 +250,11 @@ func (p *protocol) IsLocked(file io.ReadSeeker) (bool, error) {
 	return bytes[0] != 0, err
 }
 
+// Tells whether the error means that there is no more data to read.
+func isEndOfSource(err error) bool {
+	return err == io.EOF || err == io.ErrUnexpectedEOF
+}
+
 // Recovers a corrupted file making its data consistent. All inconsistent
 // data is skipped. The file is considered corrupted if it's locked, which
 // means it hasn't been closed properly.
@@ -265,6 +273,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if err != errNotDeltaFile && !isEndOfSource(err) {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +284,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isEndOfSource(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -287,6 +301,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	for {
 		err = p.ReadEntry(&entry, reader)
 		if err != nil {
+			if !isEndOfSource(err) {
+				return err
+			}
 			break
 		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
-- 
2.43.0


From 09f2eb777b10e815a9db38090e9172c197d98251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 08/21] fix: open empty and cut short delta files with recovery

---
 internal/infra/delta/storagefactory.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 088fa49..0acf20e 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -142,11 +142,19 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
 	if err != nil {
-		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		return nil, fmt.Errorf("failed to get file size: %v", err)
+	}
+	// A file that is cut short before its first entry is corrupted too
+	corrupted := size > 0 && size < int64(len(prefix)+headerSize)
+	if size > 0 && !corrupted {
+		corrupted, err = f.proto.IsLocked(file)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		}
 	}
-	if locked {
+	if corrupted {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From eba94a99c7cc3e887ab823ffbda5510bbd3fafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 09/21] fix: report a locked index file as corrupted and
 rebuild it

---
 internal/domain/likenamespace.go       | 4 ++--
 internal/infra/index/storage.go        | 3 +--
 internal/infra/index/storagefactory.go | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..328c0ae 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,9 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The failed attempt has closed the file
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..b19bc5b 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -59,7 +58,7 @@ func (s *storage) load() error {
 		return fmt.Errorf("failed to read index header: %v", err)
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return domain.NewCorruptedFileError()
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 39f3d8602b667b40b1d08636e059426bb0c6136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 10/21] fix: keep a closing index file locked until its entries
 are written

---
 internal/infra/index/storage.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index b19bc5b..850df9c 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -82,22 +82,30 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
-	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
+	err := s.save()
+	if s.closer != nil {
+		closeErr := s.closer.Close()
+		if err == nil {
+			err = closeErr
 		}
+	}
+	return err
+}
+
+// Saves the storage into the disk.  The file stays locked until everything
+// else has been written.
+func (s *storage) save() error {
+	err := s.saveHeader(true)
+	if err != nil {
 		return err
 	}
 	err = s.saveEntries()
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return err
 	}
-	if s.closer != nil {
-		return s.closer.Close()
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		return fmt.Errorf("failed to unlock the file: %v", err)
 	}
 	return nil
 }
@@ -111,17 +119,11 @@ func (s *storage) saveHeader(locked bool) error {
 	header := Header{Version, lockedByte, uint32(len(s.indices))}
 	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to seek: %v", err)
 	}
 	writer := bufio.NewWriter(s.file)
 	_, err = s.proto.WriteHeader(&header, writer)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to write index header: %v", err)
 	}
 	err = writer.Flush()
-- 
2.43.0


From e6805b3fb6297f85a96a3755966e718ceab61765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 11/21] fix: write out the buffered header of a new profile
 database

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From edbb40ea57e97686d214ee91ae9242978f97f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 12/21] fix: report a failed seek in a new profile database

---
 internal/infra/recdb/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..360b334 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -174,7 +174,11 @@ func (p *protocol) OpenOrCreateFile(filePath string) (*os.File, error) {
 				file.Close()
 				return nil, err
 			}
-			file.Seek(0, io.SeekStart)
+			_, err = file.Seek(0, io.SeekStart)
+			if err != nil {
+				file.Close()
+				return nil, fmt.Errorf("failed to rewind RECDB file: %v", err)
+			}
 			return file, nil
 		}
 		return nil, fmt.Errorf("failed to open database file: %v", err)
-- 
2.43.0


From fbe15a5f6080b3ebdfe9f9af020654b90c28b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 13/21] fix: refuse to write a database entry that exceeds its
 capacity

---
 internal/infra/recdb/protocol.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index 360b334..49d3cfe 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -242,7 +242,15 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("failed to write database entry: "+
+			"entry's capacity=%d is less than its size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 6ad02636eba573a177e70a449f1382fea44ab1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 14/21] fix: check the size of a stored profile against its
 capacity before reading it

---
 internal/infra/recdb/likeprotocol.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..c72036a 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -36,6 +36,10 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	err = p.checkDataSize(entry, numLikes, 0)
+	if err != nil {
+		return 0, err
+	}
 	likes := make([]uint64, numLikes)
 	err = binary.Read(reader, binary.BigEndian, likes)
 	if err != nil {
@@ -47,6 +51,10 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	err = p.checkDataSize(entry, numLikes, numDislikes)
+	if err != nil {
+		return 0, err
+	}
 	dislikes := make([]uint64, numDislikes)
 	err = binary.Read(reader, binary.BigEndian, dislikes)
 	if err != nil {
@@ -58,16 +66,18 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 		Likes:    likes,
 		Dislikes: dislikes,
 	}
-	// Check data integrity
-	size, err := p.PredictDataSize(entry.Data)
-	if err != nil {
-		return 0, fmt.Errorf("cannot predict data size: %w", err)
-	}
-	if size > int(entry.Capacity-entryHeaderSize) {
-		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
+	return p.PredictDataSize(entry.Data)
+}
+
+// Checks that a profile with the given number of likes and dislikes fits the
+// capacity of the entry.
+func (p *likeProtocol) checkDataSize(entry *Entry, numLikes, numDislikes uint32) error {
+	size := 8 + 4 + int(numLikes)*8 + 4 + int(numDislikes)*8
+	if size > int(entry.Capacity)-entryHeaderSize {
+		return fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
-	return size, nil
+	return nil
 }
 
 // Writes entry data from the `Entry.Data` field into the stream.
-- 
2.43.0


From 996415b7a244eef3bd0e3581b7f0d290d215b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 15/21] fix: rewrite the record returned last wherever the file
 was read to

---
 internal/infra/recdb/iterator.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..44a2895 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -86,14 +86,15 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.entry = entry
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
-	entryCopy := iter.entry
-	return &entryCopy, nil
+	return &entry, nil
 }
 
 // Rewrites a previously read entry. The capacity must be left unchanged.
@@ -105,17 +106,22 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	// Continue with the entry that follows, however far the file was read ahead
+	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
+	if seekErr != nil {
+		return fmt.Errorf(msg, seekErr)
+	}
 	return nil
 }
-- 
2.43.0


From f0d4d5021a0682263fd634f3d1c80870ba9464f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 16/21] fix: skip the last bytes of a stream that reports its
 end along with them

---
 internal/helpers/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..d34ab51 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -40,7 +40,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		// The last bytes of a stream may come together with its end
+		if err != nil && (err != io.EOF || skipped < size) {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From 468cfbe8d63133841007e69bb9b2aa08c5638c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 17/21] fix: keep the files of a created namespace in the base
 path

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From b02e03a0bc0f4cfb8cce2248997804061d4a8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 18/21] fix: answer a rename request

UpdateNamespace waited forever for a message on a nil channel.
---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 328c0ae..82218d3 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	result := make(chan error, 1)
+	result <- nil
+	return result
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From 12cde6042ef1280357dcc9764a7e7bca84a420e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 19/21] fix: take the namespace name from the URL

The handlers read the path parameter "namespace", the routes named it "domain".
---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From 75ddd03d409178c1095041792b6294b02f643604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 20/21] fix: refuse renaming to a taken name with 400

---
 internal/api/shard/endpoints/namespaceendpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index a5973d7..4198ca6 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -129,7 +129,7 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 	}
 	if ns.GetName().Value() != req.Name &&
 		endpoint.nsService.GetNamespaceByName(domainDto.Name) != nil {
-		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace name taken"})
+		ctx.IndentedJSON(http.StatusBadRequest, dto.Error{Message: "namespace name taken"})
 		return
 	}
 	ns, err = endpoint.nsService.UpdateNamespace(name, domainDto)
-- 
2.43.0


From ac9f7e4d98d112776b267aaf01409fac0920ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 21/21] fix: save what makes up the namespaces and restore them
 from it

The saved registry was a list of empty objects, and loading one failed, as
an interface cannot be decoded into.
---
 internal/domain/likenamespace.go    |  5 +++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 53 +++++++++++++++++++++++++++--
 3 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 82218d3..74aee77 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -93,6 +93,11 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.name.Value() + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..85f3bd9 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -24,6 +24,14 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// The form in which a namespace is saved.
+type savedNamespace struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // Manages namespaces.
 type NamespaceService struct {
 	namespaces          []Namespace
@@ -79,6 +87,28 @@ func (s *NamespaceService) Start(ctx context.Context) error {
 	return nil
 }
 
+// Makes a namespace of its saved form.
+func (s *NamespaceService) restoreNamespace(saved *savedNamespace) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(saved.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(saved.Type)
+	if err != nil {
+		return nil, err
+	}
+	ns, err := s.forgeNamespace(&NamespaceCreateRequest{
+		Name:          name,
+		Type:          nsType,
+		DislikeFactor: saved.DislikeFactor,
+	})
+	if err != nil {
+		return nil, err
+	}
+	ns.SetMaxSimilarProfiles(saved.MaxSimilarProfiles)
+	return ns, nil
+}
+
 func (s *NamespaceService) getNamespacesJsonPath() string {
 	return s.basePath + "namespaces.json"
 }
@@ -92,16 +122,35 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var saved []savedNamespace
+	err = json.Unmarshal(data, &saved)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, len(saved))
+	for i := range saved {
+		ns, err := s.restoreNamespace(&saved[i])
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+		namespaces[i] = ns
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	saved := make([]savedNamespace, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		saved[i] = savedNamespace{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(saved)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0

