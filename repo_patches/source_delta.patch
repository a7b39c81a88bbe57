From dda52d4ce4f51737b3f3b58a5d6a841875b583f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 01/28] fix: free the drive when opening or closing it fails

---
 pkg/tape/manager.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..f147eec 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -55,6 +55,8 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
@@ -78,15 +80,17 @@ func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	closer := m.closer
+	if closer == nil {
+		// Nothing is open
+		return nil
 	}
+	m.closer = nil
 
-	m.physicalLock.Unlock()
+	// The drive has to be free for the next call even if closing fails
+	defer m.physicalLock.Unlock()
 
-	return nil
+	return closer()
 }
 
 func (m *TapeManager) openOrReuseReader() error {
@@ -106,6 +110,8 @@ func (m *TapeManager) openOrReuseReader() error {
 
 		r, rr, err := OpenTapeReadOnly(m.drive)
 		if err != nil {
+			m.physicalLock.Unlock()
+
 			return err
 		}
 
-- 
2.43.0


From 9ca0fdfe28c800126130c41cac8f57bbc2f021be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 02/28] fix: free the drive when an operation fails part-way

---
 pkg/operations/archive.go | 8 ++++++++
 pkg/operations/delete.go  | 8 ++++++++
 pkg/operations/move.go    | 8 ++++++++
 pkg/operations/update.go  | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..58dab12 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -47,6 +47,13 @@ func (o *Operations) archive(
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	writerOpen := true
+	defer func() {
+		// Free the drive if the call fails before the writer has been closed
+		if writerOpen {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -261,6 +268,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
+	writerOpen = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..85b58cc 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -25,6 +25,13 @@ func (o *Operations) Delete(name string) error {
 	if err != nil {
 		return err
 	}
+	writerOpen := true
+	defer func() {
+		// Free the drive if the call fails before the writer has been closed
+		if writerOpen {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -107,6 +114,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writerOpen = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..c5026b7 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -32,6 +32,13 @@ func (o *Operations) Move(from string, to string) error {
 	if err != nil {
 		return err
 	}
+	writerOpen := true
+	defer func() {
+		// Free the drive if the call fails before the writer has been closed
+		if writerOpen {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -126,6 +133,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writerOpen = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..7fd029d 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -32,6 +32,13 @@ func (o *Operations) Update(
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	writerOpen := true
+	defer func() {
+		// Free the drive if the call fails before the writer has been closed
+		if writerOpen {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -279,6 +286,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writerOpen = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
-- 
2.43.0


From ffddd5ff479f7110bb1f06d10aad4e187a821e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 03/28] fix: index archives with incomplete tails, padding and
 read errors

---
 pkg/recovery/index.go |  86 +++++-------------------------------
 pkg/recovery/query.go |  80 +++++----------------------------
 pkg/recovery/scan.go  | 100 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 120 insertions(+), 146 deletions(-)
 create mode 100644 pkg/recovery/scan.go

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..0edcc9f 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -49,71 +49,19 @@ func Index(
 	}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return err
-		}
+		scanner := newRegularScanner(reader.Drive, pipes.RecordSize, record, block)
 
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
 		i := 0
 
 		for {
-			hdr, err := tr.Next()
+			hdr, record, block, err := scanner.Next()
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
-
-						continue
-					}
-
+				if err == io.EOF {
+					// EOF
 					break
 				}
-			}
-
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
-
-					return err
-				}
 
-				continue
+				return err
 			}
 
 			if i >= offset {
@@ -130,29 +78,15 @@ func Index(
 				}
 			}
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return err
-			}
+			if err := scanner.Skip(); err != nil {
+				if err == io.EOF {
+					// The content of the last header is not complete
+					break
+				}
 
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
 				return err
 			}
 
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
-
 			i++
 		}
 	} else {
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..3c45b7d 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -28,63 +28,17 @@ func Query(
 	headers := []*tar.Header{}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
+		scanner := newRegularScanner(reader.Drive, pipes.RecordSize, record, block)
 
 		for {
-			hdr, err := tr.Next()
+			hdr, record, block, err := scanner.Next()
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-
-							break
-						}
-
-						continue
-					}
-
+				if err == io.EOF {
+					// EOF
 					break
 				}
-			}
-
-			if hdr == nil {
-				// EOF
 
-				break
+				return []*tar.Header{}, err
 			}
 
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
@@ -106,28 +60,14 @@ func Query(
 
 			headers = append(headers, hdr)
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return []*tar.Header{}, err
-			}
+			if err := scanner.Skip(); err != nil {
+				if err == io.EOF {
+					// The content of the last header is not complete
+					break
+				}
 
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
 				return []*tar.Header{}, err
 			}
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
 		}
 	} else {
 		// Seek to record
diff --git a/pkg/recovery/scan.go b/pkg/recovery/scan.go
new file mode 100644
index 0000000..31d7101
--- /dev/null
+++ b/pkg/recovery/scan.go
@@ -0,0 +1,100 @@
+package recovery
+
+import (
+	"archive/tar"
+	"bytes"
+	"errors"
+	"io"
+	"io/ioutil"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// regularScanner iterates over the headers of all archives on a regular drive
+type regularScanner struct {
+	drive      io.ReadSeeker
+	recordSize int
+
+	blocks int64 // Block at which the next header is expected
+	tr     *tar.Reader
+}
+
+func newRegularScanner(drive io.ReadSeeker, recordSize int, record int, block int) *regularScanner {
+	return &regularScanner{
+		drive:      drive,
+		recordSize: recordSize,
+
+		blocks: int64(recordSize)*int64(record) + int64(block),
+	}
+}
+
+// Next returns the next header and its position; if there are no more headers, it returns `io.EOF`
+func (s *regularScanner) Next() (hdr *tar.Header, record int64, block int64, err error) {
+	for {
+		if err := s.skipZeroBlocks(); err != nil {
+			return nil, 0, 0, err
+		}
+
+		s.tr = tar.NewReader(s.drive)
+
+		hdr, err := s.tr.Next()
+		if err == nil {
+			return hdr, s.blocks / int64(s.recordSize), s.blocks % int64(s.recordSize), nil
+		}
+
+		if !errors.Is(err, tar.ErrHeader) && !errors.Is(err, tar.ErrFieldTooLong) && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return nil, 0, 0, err
+		}
+
+		// There is no (complete) header at this position, continue at the next block
+		s.blocks++
+	}
+}
+
+// Skip continues after the current header's content; if the content is not complete, it returns `io.EOF`
+func (s *regularScanner) Skip() error {
+	if _, err := io.Copy(ioutil.Discard, s.tr); err != nil {
+		if err == io.ErrUnexpectedEOF {
+			return io.EOF
+		}
+
+		return err
+	}
+
+	curr, err := s.drive.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	s.blocks = (curr + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize
+
+	return nil
+}
+
+// skipZeroBlocks seeks to the next block which is not a part of a trailer; this also makes it possible to append to a tar file created by i.e. GNU tar
+func (s *regularScanner) skipZeroBlocks() error {
+	zeroes := make([]byte, config.MagneticTapeBlockSize)
+	buf := make([]byte, config.MagneticTapeBlockSize)
+
+	if _, err := s.drive.Seek(s.blocks*config.MagneticTapeBlockSize, io.SeekStart); err != nil {
+		return err
+	}
+
+	for {
+		if _, err := io.ReadFull(s.drive, buf); err != nil {
+			if err == io.ErrUnexpectedEOF {
+				return io.EOF
+			}
+
+			return err
+		}
+
+		if !bytes.Equal(buf, zeroes) {
+			_, err := s.drive.Seek(s.blocks*config.MagneticTapeBlockSize, io.SeekStart)
+
+			return err
+		}
+
+		s.blocks++
+	}
+}
-- 
2.43.0


From b4d5bbd6ce0950fbb8debfce6d0d9abc67fca49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 04/28] fix: continue at a block boundary after a cut-off write

---
 pkg/tape/write.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..05d71de 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -62,6 +62,22 @@ func OpenTapeWriteOnly(
 		}
 
 		// No need to go to end manually due to `os.O_APPEND`
+
+		// Continue at the next block if the last write was cut off
+		stat, err := f.Stat()
+		if err != nil {
+			_ = f.Close()
+
+			return nil, false, err
+		}
+
+		if remainder := stat.Size() % config.MagneticTapeBlockSize; remainder != 0 {
+			if _, err := f.Write(make([]byte, config.MagneticTapeBlockSize-remainder)); err != nil {
+				_ = f.Close()
+
+				return nil, false, err
+			}
+		}
 	} else {
 		f, err = os.OpenFile(drive, os.O_APPEND|os.O_WRONLY, os.ModeCharDevice)
 		if err != nil {
-- 
2.43.0


From 5be4e0f243b8dc89f15e9da973b4e0de6bc140ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 05/28] fix: never add a root to a tape with records and index
 missing records on open

---
 pkg/fs/filesystem.go | 148 ++++++++++++++++++++++++++++++-------------
 1 file changed, 105 insertions(+), 43 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..3eb0433 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -212,65 +212,127 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
+	if err == nil {
+		indexed, err := f.indexMissingHeaders()
+		if err != nil {
+			return "", err
+		}
 
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
+		if indexed {
+			return existingRoot, nil
+		}
+	} else if err != config.ErrNoRootDirectory {
+		return "", err
+	}
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
+	mkdirRoot := func() (string, error) {
+		if f.readOnly {
+			return "", os.ErrPermission
+		}
 
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+		if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
+			return "", err
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
-		if err != nil {
+		// Ensure that the new root path is being used
+		return f.metadata.Metadata.GetRootPath(context.Background())
+	}
+
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
 			return mkdirRoot()
 		}
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
+		return "", err
+	}
 
-			0,
-			0,
-			true,
-			false,
-			0,
+	foundHeader := false
+	err = f.index(reader, 0, 0, true, 0, func() { foundHeader = true })
+	if cerr := f.readOps.GetBackend().CloseReader(); cerr != nil && err == nil {
+		err = cerr
+	}
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+	// Reading from an empty tape can fail
+	if err != nil && (foundHeader || reader.DriveIsRegular) {
+		return "", err
+	}
 
-			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
-		}
+	// Only create a new root if there is nothing on the tape yet
+	if !foundHeader {
+		return mkdirRoot()
+	}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
-			return "", err
+	// Ensure that the new root path is being used
+	return f.metadata.Metadata.GetRootPath(context.Background())
+}
+
+// index indexes the tape starting with the given position
+func (f *STFS) index(reader config.DriveReaderConfig, record, block int, overwrite bool, offset int, onTapeHeader func()) error {
+	return recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		record,
+		block,
+		overwrite,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			onTapeHeader()
+
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	)
+}
+
+// indexMissingHeaders indexes headers which have been written to the tape, but not to the index (i.e. due to a crash);
+// `indexed` is false if the tape ends before the last indexed header
+func (f *STFS) indexMissingHeaders() (indexed bool, err error) {
+	record, block, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+	if err != nil {
+		return false, err
+	}
+
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		// There is no readable tape to compare the index to
+		return true, nil
+	}
+	defer f.readOps.GetBackend().CloseReader()
+
+	if err := recovery.Fetch(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		nil,
+		nil,
+		int(record),
+		int(block),
+		"",
+		true,
+
+		nil,
+	); err != nil {
+		if err == io.EOF || err == io.ErrUnexpectedEOF || errors.Is(err, tar.ErrHeader) {
+			return false, nil
 		}
 
-		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
-		return "", err
+		return false, err
 	}
 
-	return existingRoot, nil
+	return true, f.index(reader, int(record), int(block), false, 1, func() {})
 }
 
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
-- 
2.43.0


From 8ac9fcd3b5ebd3ff3ccf3bf03f3f84cc5c4e98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 06/28] fix: replay moves, updates and deletions of names which
 were used before

---
 pkg/persisters/metadata.go | 39 ++++++++++++++++-----------------
 pkg/recovery/index.go      | 45 ++++++++++++++------------------------
 2 files changed, 36 insertions(+), 48 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..f7222fd 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -144,44 +144,43 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
-	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
-		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-			models.TableNames.Headers,
-			models.HeaderColumns.Name,
-			models.HeaderColumns.Lastknownrecord,
-			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Name,
-		),
-		newName,
-		lastknownrecord,
-		lastknownblock,
-		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
-	if err != nil {
-		return err
+	if oldName == newName {
+		return nil
 	}
 
-	written, err := n.RowsAffected()
+	dbhdrs, err := models.Headers(
+		qm.Where(models.HeaderColumns.Name+" = ?", oldName),
+		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+	).All(ctx, p.sqlite.DB)
 	if err != nil {
 		return err
 	}
 
-	if written < 1 {
+	for _, dbhdr := range dbhdrs {
+		// Replace headers which used the new name before
+		if _, err := models.Headers(
+			qm.Where(models.HeaderColumns.Name+" = ?", newName),
+			qm.Where(models.HeaderColumns.Linkname+" = ?", dbhdr.Linkname),
+		).DeleteAll(ctx, p.sqlite.DB); err != nil {
+			return err
+		}
+
+		// We can't do this with `dbhdr.Update` because we are renaming the primary key
 		if _, err := queries.Raw(
 			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
+				`update %v set %v = ?, %v = ?, %v = ? where %v = ? and %v = ?;`,
 				models.TableNames.Headers,
 				models.HeaderColumns.Name,
 				models.HeaderColumns.Lastknownrecord,
 				models.HeaderColumns.Lastknownblock,
 				models.HeaderColumns.Name,
+				models.HeaderColumns.Linkname,
 			),
 			newName,
 			lastknownrecord,
 			lastknownblock,
 			oldName,
+			dbhdr.Linkname,
 		).ExecContext(ctx, p.sqlite.DB); err != nil {
 			return err
 		}
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 0edcc9f..33458ff 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -11,7 +11,6 @@ import (
 	"strconv"
 
 	"github.com/pojntfx/stfs/internal/converters"
-	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
@@ -233,7 +232,8 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			// To support ignoring previous `Move` and `Delete` operations, we need to ignore non-existent headers here
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
@@ -244,37 +244,26 @@ func indexHeader(
 				oldName = hdr.PAXRecords[records.STFSRecordReplacesName]
 			}
 
-			var newHdr *models.Header
-			if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
-				// Content & metadata update; use the new record & block
-				h, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
-				if err != nil {
-					return err
-				}
-
-				newHdr = h
+			// To support ignoring previous `Move` and `Delete` operations, we need to ignore non-existent headers here, as moving changes the primary keys
+			oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
+			if err != nil && err != sql.ErrNoRows {
+				return err
+			}
 
-				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
-					return err
-				}
-			} else {
+			if err == nil {
 				// Metadata-only update; use the old record & block
-				oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
-				if err == nil {
-					h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
-					if err != nil {
-						return err
-					}
-
-					newHdr = h
+				newRecord, newBlock := oldHdr.Record, oldHdr.Block
+				if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
+					// Content & metadata update; use the new record & block
+					newRecord, newBlock = record, block
+				}
 
-					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
-						return err
-					}
+				newHdr, err := converters.TarHeaderToDBHeader(newRecord, record, newBlock, block, hdr)
+				if err != nil {
+					return err
 				}
 
-				// To support ignoring previous `Move` operations, we need to ignore non-existent headers here, as moving changes the primary keys
-				if err != nil && err != sql.ErrNoRows {
+				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From 9d366ac99502fcf6d2bc3d3615ec643b34c24804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 07/28] fix: keep size and position on metadata-only updates
 after moves and edits

---
 pkg/operations/move.go   | 1 +
 pkg/operations/update.go | 1 +
 pkg/recovery/index.go    | 7 ++++---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index c5026b7..cff438c 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -98,6 +98,7 @@ func (o *Operations) Move(from string, to string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
+		hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
 
 		hdrs = append(hdrs, *hdr)
 
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 7fd029d..f270300 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -79,6 +79,7 @@ func (o *Operations) Update(
 		}
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
+		delete(hdr.PAXRecords, records.STFSRecordReplacesName) // The header might have been moved before
 
 		var f io.ReadSeekCloser
 		if file.Info.Mode().IsRegular() && replace && (file.Info.Size() > 0 || skipSizeCheck) {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 33458ff..a84a1cd 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -251,17 +251,18 @@ func indexHeader(
 			}
 
 			if err == nil {
-				// Metadata-only update; use the old record & block
-				newRecord, newBlock := oldHdr.Record, oldHdr.Block
+				// Metadata-only update; use the old record & block and keep the size of the content there
+				newRecord, newBlock, newSize := oldHdr.Record, oldHdr.Block, oldHdr.Size
 				if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
 					// Content & metadata update; use the new record & block
-					newRecord, newBlock = record, block
+					newRecord, newBlock, newSize = record, block, hdr.Size
 				}
 
 				newHdr, err := converters.TarHeaderToDBHeader(newRecord, record, newBlock, block, hdr)
 				if err != nil {
 					return err
 				}
+				newHdr.Size = newSize
 
 				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 					return err
-- 
2.43.0


From 9708859e33d86c037dba7514f2e323dcf8c32d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 08/28] fix: index exactly the headers which an operation
 appended

---
 pkg/operations/archive.go    | 18 ++++++------------
 pkg/operations/delete.go     |  8 ++++----
 pkg/operations/move.go       |  8 ++++----
 pkg/operations/operations.go | 24 ++++++++++++++++++++++++
 pkg/operations/update.go     |  9 ++++-----
 5 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 58dab12..1f9b840 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"errors"
 	"io"
 	"strconv"
@@ -61,10 +60,10 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord := int64(0)
-	lastIndexedBlock := int64(0)
+	// If we are starting fresh, index from start
+	record, block, skip := 0, 0, 0
 	if !overwrite {
-		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+		record, block, skip, err = o.getAppendPosition(writer)
 		if err != nil {
 			return []*tar.Header{}, err
 		}
@@ -263,11 +262,6 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
 	writerOpen = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
@@ -286,11 +280,11 @@ func (o *Operations) archive(
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		record,
+		block,
 		overwrite,
 		initializing,
-		index,
+		skip,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 85b58cc..b1e0214 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -39,7 +39,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	record, block, skip, err := o.getAppendPosition(writer)
 	if err != nil {
 		return err
 	}
@@ -132,11 +132,11 @@ func (o *Operations) Delete(name string) error {
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		record,
+		block,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		skip,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index cff438c..5258244 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -46,7 +46,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	record, block, skip, err := o.getAppendPosition(writer)
 	if err != nil {
 		return err
 	}
@@ -152,11 +152,11 @@ func (o *Operations) Move(from string, to string) error {
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		record,
+		block,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		skip,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..7700e4d 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,8 @@
 package operations
 
 import (
+	"context"
+	"io"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -53,3 +55,25 @@ func (o *Operations) GetPipes() config.PipeConfig {
 func (o *Operations) GetCrypto() config.CryptoConfig {
 	return o.crypto
 }
+
+// getAppendPosition returns the position from which headers which will be appended can be indexed, and the amount of headers to skip there
+func (o *Operations) getAppendPosition(writer config.DriveWriterConfig) (record int, block int, skip int, err error) {
+	if drive, ok := writer.Drive.(io.Seeker); ok && writer.DriveIsRegular {
+		end, err := drive.Seek(0, io.SeekEnd)
+		if err != nil {
+			return 0, 0, 0, err
+		}
+
+		blocks := int((end + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize)
+
+		return blocks / o.pipes.RecordSize, blocks % o.pipes.RecordSize, 0, nil
+	}
+
+	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return 0, 0, 0, err
+	}
+
+	// Ignore the first header, which is the last header which we already indexed
+	return int(lastIndexedRecord), int(lastIndexedBlock), 1, nil
+}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index f270300..01b9a14 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"io"
 	"strconv"
 	"strings"
@@ -46,7 +45,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	record, block, skip, err := o.getAppendPosition(writer)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
@@ -305,11 +304,11 @@ func (o *Operations) Update(
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		record,
+		block,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		skip,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
-- 
2.43.0


From 7bb4e7218adfcfe503c1a823a36c1f0966914b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 09/28] fix: select children by their exact name prefix

---
 pkg/persisters/metadata.go | 116 +++++++++++--------------------------
 1 file changed, 35 insertions(+), 81 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index f7222fd..f5ffe89 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -23,10 +23,6 @@ import (
 	"github.com/volatiletech/sqlboiler/v4/queries/qm"
 )
 
-type depth struct {
-	Depth int64 `boil:"depth" json:"depth" toml:"depth" yaml:"depth"`
-}
-
 type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
@@ -236,8 +232,11 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	prefix := getChildPrefix(name)
+
+	// We can't use `like` here because the name can contain wildcards
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -257,37 +256,7 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 
 func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name string, limit int) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
-	prefix := strings.TrimSuffix(name, "/") + "/"
-	rootDepth := 0
-
-	// We want <=, not <
-	if limit > 0 {
-		limit++
-	}
-
-	// Root node
-	if pathext.IsRoot(name, false) {
-		prefix = ""
-		depth := depth{}
-
-		if err := queries.Raw(
-			fmt.Sprintf(
-				`select min(length(%v) - length(replace(%v, "/", ""))) as depth from %v where %v != 1`,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Name,
-				models.TableNames.Headers,
-				models.HeaderColumns.Deleted,
-			),
-		).Bind(ctx, p.sqlite.DB, &depth); err != nil {
-			if err == sql.ErrNoRows {
-				return []*config.Header{}, nil
-			}
-
-			return nil, err
-		}
-
-		rootDepth = int(depth.Depth)
-	}
+	prefix := getChildPrefix(name)
 
 	getHeaders := func(prefix string, useLinkname bool) ([]*config.Header, error) {
 		pk := models.HeaderColumns.Name
@@ -298,20 +267,15 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 		}
 		headers := []*config.Header{}
 
+		// We can't use `like` here because the name can contain wildcards
 		query := fmt.Sprintf(
-			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v
 from %v
-where %v like ?
-    and (
-        depth = ?
-        or (
-            %v like '%%/'
-            and depth = ?
-        )
-    )
-	and %v != 1
-	and %v
+where substr(%v, 1, length(?)) = ?
+    and rtrim(substr(%v, length(?) + 1), '/') != ''
+    and instr(rtrim(substr(%v, length(?) + 1), '/'), '/') = 0
+    and %v != 1
+    and %v
     and not %v in ('', '.', '/', './')`,
 			models.HeaderColumns.Record,
 			models.HeaderColumns.Lastknownrecord,
@@ -319,8 +283,8 @@ where %v like ?
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
@@ -334,47 +298,27 @@ where %v like ?
 			models.HeaderColumns.Devminor,
 			models.HeaderColumns.Paxrecords,
 			models.HeaderColumns.Format,
-			pk,
-			pk,
 			models.TableNames.Headers,
 			pk,
 			pk,
+			pk,
 			models.HeaderColumns.Deleted,
 			exclude,
 			pk,
 		)
+		args := []interface{}{prefix, prefix, prefix, prefix}
 
 		if limit > 0 {
-			if err := queries.Raw(
-				query+`limit ?`,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-				limit+1, // +1 to accomodate the parent directory if it exists
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
+			query += ` limit ?`
+			args = append(args, limit)
+		}
 
-				return nil, err
+		if err := queries.Raw(query, args...).Bind(ctx, p.sqlite.DB, &headers); err != nil {
+			if err == sql.ErrNoRows {
+				return headers, nil
 			}
-		} else if limit <= 0 {
-			if err := queries.Raw(
-				query,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
 
-				return nil, err
-			}
+			return nil, err
 		}
 
 		return headers, nil
@@ -428,11 +372,21 @@ where %v like ?
 		}
 	}
 
-	if limit <= 0 || len(outhdrs) < limit || len(outhdrs) == 0 {
+	if limit <= 0 || len(outhdrs) <= limit {
 		return outhdrs, nil
 	}
 
-	return outhdrs[:limit-1], nil
+	return outhdrs[:limit], nil
+}
+
+// getChildPrefix returns the prefix which the names of all children of the (sanitized) name have
+func getChildPrefix(name string) string {
+	// The names of the root's children don't have to be prefixed
+	if name == "" || name == "." {
+		return ""
+	}
+
+	return strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
 }
 
 func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastknownrecord, lastknownblock int64) (*config.Header, error) {
-- 
2.43.0


From 3f3b6462dfcbece6c6fa0958fb2310d4e8520d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 10/28] fix: look up directories with a trailing slash by their
 name

---
 pkg/recovery/index.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index a84a1cd..0d3a294 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -9,9 +9,11 @@ import (
 	"io/ioutil"
 	"math"
 	"strconv"
+	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/internal/pathext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -200,6 +202,11 @@ func indexHeader(
 		hdr.Name = newName
 	}
 
+	// Most tar implementations add a trailing slash to directories
+	if hdr.Typeflag == tar.TypeDir && !pathext.IsRoot(hdr.Name, false) {
+		hdr.Name = strings.TrimSuffix(hdr.Name, "/")
+	}
+
 	if onHeader != nil {
 		dbhdr, err := converters.TarHeaderToDBHeader(record, -1, block, -1, hdr)
 		if err != nil {
-- 
2.43.0


From 89735ff24f796f580af38ff83816f9685fefad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 11/28] fix: create all missing parents and only below
 directories

---
 pkg/fs/filesystem.go | 107 ++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 72 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 3eb0433..b6c849f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -96,21 +96,6 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
-		}
-
-		return nil, err
-	}
-
 	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
 }
 
@@ -335,6 +320,31 @@ func (f *STFS) indexMissingHeaders() (indexed bool, err error) {
 	return true, f.index(reader, int(record), int(block), false, 1, func() {})
 }
 
+// checkParentWithoutLocking returns an error if nothing can be created with the name because its parent is missing or not a directory
+func (f *STFS) checkParentWithoutLocking(name string) error {
+	parent, err := inventory.Stat(
+		f.metadata,
+
+		filepath.Dir(name),
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
+		}
+
+		return err
+	}
+
+	if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
+	}
+
+	return nil
+}
+
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.log.Debug("FileSystem.Mkdir", map[string]interface{}{
 		"name": name,
@@ -350,18 +360,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(name); err != nil {
 		return err
 	}
 
@@ -405,16 +404,13 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
-	currentPath := ""
-
-	for _, part := range parts {
-		if currentPath == "" {
-			currentPath = part
-		} else {
-			currentPath = filepath.Join(currentPath, part)
-		}
+	// Start with the topmost directory
+	parts := []string{path}
+	for !pathext.IsRoot(parts[0], false) && filepath.Dir(parts[0]) != parts[0] {
+		parts = append([]string{filepath.Dir(parts[0])}, parts...)
+	}
 
+	for _, currentPath := range parts {
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
@@ -528,18 +524,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			createFile := func() error {
 				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
-
-						filepath.Dir(name),
-						false,
-
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
-
+					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
 
@@ -814,18 +799,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
@@ -1217,18 +1191,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
-- 
2.43.0


From c451543d7a116560c760aa27479197507176ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 12/28] fix: support opening files exclusively

---
 pkg/fs/filesystem.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b6c849f..6101aa3 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -503,6 +503,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -523,7 +524,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				if flag&os.O_CREATE != 0 {
+					if f.readOnly {
+						return os.ErrPermission
+					}
+
 					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
@@ -544,6 +549,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
 						return err
 					}
+					created = true
 
 					hdr, err = inventory.Stat(
 						f.metadata,
@@ -615,6 +621,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing node if it should have been created
+	if !created && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 81cb4a1ec089a3f6345ee4961740c163f9626e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 13/28] fix: rename onto existing entries and refuse moving a
 directory into itself

---
 pkg/fs/filesystem.go   | 31 ++++++++++++++++++++++++++-----
 pkg/operations/move.go | 15 ++++++++++++++-
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 6101aa3..180fa27 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -776,7 +776,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
@@ -822,16 +822,37 @@ func (f *STFS) Rename(oldname, newname string) error {
 
 		f.onHeader,
 	)
+	if err != nil && err != sql.ErrNoRows {
+		return err
+	}
+
 	if err == nil {
+		// Ignore no-op rename operation
+		if target.Name == source.Name {
+			return nil
+		}
+
 		if target.Typeflag != source.Typeflag {
 			return os.ErrExist
 		}
 
-		if err := f.removeWithoutLocking(newname); err != nil {
-			return err
-		}
+		if target.Typeflag == tar.TypeDir {
+			hdrs, err := inventory.List(
+				f.metadata,
 
-		return err
+				newname,
+				-1,
+
+				f.onHeader,
+			)
+			if err != nil {
+				return err
+			}
+
+			if len(hdrs) > 0 {
+				return config.ErrDirectoryNotEmpty
+			}
+		}
 	}
 
 	return f.writeOps.Move(oldname, newname)
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 5258244..ae8b5aa 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -4,6 +4,7 @@ import (
 	"archive/tar"
 	"context"
 	"database/sql"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -52,6 +53,7 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	headersToMove := []*config.Header{}
+	isLink := false
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
 	if err != nil {
 		if err == sql.ErrNoRows {
@@ -59,6 +61,8 @@ func (o *Operations) Move(from string, to string) error {
 			if err != nil {
 				return err
 			}
+
+			isLink = true
 		} else {
 			return err
 		}
@@ -75,6 +79,11 @@ func (o *Operations) Move(from string, to string) error {
 		return nil
 	}
 
+	// Prevent moving a directory into itself
+	if !isLink && strings.HasPrefix(path.Join("/", to), strings.TrimSuffix(path.Join("/", dbhdr.Name), "/")+"/") {
+		return os.ErrInvalid
+	}
+
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
@@ -94,7 +103,11 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		if isLink {
+			hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		} else {
+			hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, headersToMove[0].Name))
+		}
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-- 
2.43.0


From 51321ad720d10d198bd28c4f0aca0a5d1561d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 14/28] fix: overwrite inside of and grow the in-memory write
 cache

---
 pkg/cache/write.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..46afee6 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -37,11 +37,43 @@ func (f filebufferWithSize) Sync() error {
 }
 
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	// Grow with zeros
+	if missing := size - int64(f.Buff.Len()); missing > 0 {
+		_, err := f.Buff.Write(make([]byte, missing))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
 }
 
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	// Fill the gap if we have been seeked past the end
+	if f.Index > int64(f.Buff.Len()) {
+		if err := f.Truncate(f.Index); err != nil {
+			return 0, err
+		}
+	}
+
+	// Overwrite the existing bytes before appending to them
+	n = copy(f.Buff.Bytes()[f.Index:], p)
+	f.Index += int64(n)
+
+	if n < len(p) {
+		appended, err := f.Buffer.Write(p[n:])
+
+		return n + appended, err
+	}
+
+	return n, nil
+}
+
 func NewCacheWrite(
 	root string,
 	cacheType string,
-- 
2.43.0


From 2904226c748112b64798add00a876a221b1ef53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 15/28] fix: buffer open files so that they act as a byte array
 with a cursor and never hold the drive

---
 pkg/fs/file.go       | 526 ++++++++++++++++++-------------------------
 pkg/fs/filesystem.go |  13 +-
 2 files changed, 232 insertions(+), 307 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..f853e61 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,14 +1,12 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
 	"os"
 	"path"
 	"sync"
-	"time"
 
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/pathext"
@@ -28,6 +26,15 @@ type FileFlags struct {
 	Truncate bool
 }
 
+// nopCloseWriteCache keeps the write cache usable after it has been read from
+type nopCloseWriteCache struct {
+	cache.WriteCache
+}
+
+func (c nopCloseWriteCache) Close() error {
+	return nil
+}
+
 type File struct {
 	afero.File
 
@@ -48,11 +55,9 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
-
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
+	modified      bool
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -109,70 +114,75 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
-	if f.writeBuf != nil {
-		done := false
-		if _, err := f.writeOps.Update(
-			func() (config.FileConfig, error) {
-				// Exit after the first write
-				if done {
-					return config.FileConfig{}, io.EOF
-				}
-				done = true
-
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
-				return config.FileConfig{
-					GetFile: func() (io.ReadSeekCloser, error) {
-						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-							return nil, err
-						}
-
-						return f.writeBuf, nil
-					},
-					Info: f.info,
-					Path: f.path,
-					Link: f.link,
-				}, nil
-			},
-			f.compressionLevel,
-			true,
-			true,
-		); err != nil {
-			return err
+	if f.writeBuf == nil || !f.modified {
+		return nil
+	}
+
+	size, err := f.writeBuf.Size()
+	if err != nil {
+		return err
+	}
+
+	// Keep the position; writing the buffer to the tape moves it
+	position, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	// Use the current attributes, they might have been changed since the file has been opened
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
+
+		return err
 	}
+	hdr.Size = size
 
-	return nil
+	done := false
+	if _, err := f.writeOps.Update(
+		func() (config.FileConfig, error) {
+			// Exit after the first write
+			if done {
+				return config.FileConfig{}, io.EOF
+			}
+			done = true
+
+			return config.FileConfig{
+				GetFile: func() (io.ReadSeekCloser, error) {
+					if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
+						return nil, err
+					}
+
+					// Don't close the buffer here, we want to re-use it!
+					return nopCloseWriteCache{f.writeBuf}, nil
+				},
+				Info: hdr.FileInfo(),
+				Path: hdr.Name,
+				Link: f.link,
+			}, nil
+		},
+		f.compressionLevel,
+		true,
+		true,
+	); err != nil {
+		return err
+	}
+
+	f.modified = false
+	f.info.size = size
+
+	_, err = f.writeBuf.Seek(position, io.SeekStart)
+
+	return err
 }
 
 func (f *File) closeWithoutLocking() error {
@@ -180,78 +190,79 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
+	if f.writeBuf == nil {
+		return nil
 	}
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
+	err := f.syncWithoutLocking()
+
+	if cerr := f.discardBuffer(); cerr != nil && err == nil {
+		err = cerr
 	}
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	return err
+}
 
-		if err := f.cleanWriteBuf(); err != nil {
-			return err
-		}
+func (f *File) discardBuffer() error {
+	err := f.writeBuf.Close()
+
+	if cerr := f.cleanWriteBuf(); cerr != nil && err == nil {
+		err = cerr
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
 	f.writeBuf = nil
+	f.modified = false
 
-	return nil
+	return err
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+// loadBuffer reads the file's content into the buffer if this hasn't been done already
+func (f *File) loadBuffer() error {
+	f.log.Trace("File.loadBuffer", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if f.writeBuf != nil {
+		return nil
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
-
-			f.path,
-			false,
-
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
-			return err
+		return err
+	}
+
+	// Create new buffer
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite("", config.WriteCacheTypeMemory)
 		}
+	}
+
+	f.writeBuf, f.cleanWriteBuf, err = getFileBuffer()
+	if err != nil {
+		f.writeBuf = nil
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
+		return err
+	}
 
-		// Read existing file into buffer
-		if exists {
+	if hdr.Size != 0 {
+		if f.flags.Truncate && f.flags.Write {
+			// Nothing to read
+			f.modified = true
+		} else {
+			// Read existing file into buffer
 			if err := f.readOps.Restore(
 				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
 					// Don't close the file here, we want to re-use it!
@@ -266,24 +277,36 @@ func (f *File) enterWriteMode() error {
 				"",
 				true,
 			); err != nil {
-				return err
-			}
-		}
+				_ = f.discardBuffer()
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
 				return err
 			}
 		}
+	}
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+	// Only truncate once
+	f.flags.Truncate = false
+
+	_, err = f.writeBuf.Seek(0, io.SeekStart)
+
+	return err
+}
+
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	if f.flags.Append {
+		if _, err := f.writeBuf.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
 		}
 	}
 
-	return nil
+	// Writing nothing doesn't change the file
+	if len(p) <= 0 {
+		return 0, nil
+	}
+
+	f.modified = true
+
+	return f.writeBuf.Write(p)
 }
 
 func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
@@ -298,82 +321,11 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
 	}
 
-	dst := int64(0)
-	switch whence {
-	case io.SeekStart:
-		dst = offset
-	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
-	case io.SeekEnd:
-		dst = f.info.Size() - offset
-	default:
-		return -1, config.ErrNotImplemented
-	}
-
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
-
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
-	}
-
-	if err != nil {
-		return -1, err
-	}
-
-	return written, nil
+	return f.writeBuf.Seek(offset, whence)
 }
 
 // Inventory
@@ -408,24 +360,22 @@ func (f *File) Stat() (os.FileInfo, error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
+	info := *f.info
+
 	if f.writeBuf != nil {
 		size, err := f.writeBuf.Size()
 		if err != nil {
 			return nil, err
 		}
 
-		f.info.size = size
+		info.size = size
 	}
 
 	if f.link != "" {
-		info := f.info
-
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -491,7 +441,7 @@ func (f *File) Read(p []byte) (n int, err error) {
 	})
 
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -499,61 +449,17 @@ func (f *File) Read(p []byte) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
-	}
-
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
-	}
-
-	if err != nil {
-		return -1, err
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
 	}
 
-	return copy(p, w.Bytes()), nil
+	return f.writeBuf.Read(p)
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -564,7 +470,7 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -572,14 +478,35 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
+	}
+
+	position, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	if _, err := f.writeBuf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	return f.Read(p)
+	n, err = io.ReadFull(f.writeBuf, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+
+	if _, serr := f.writeBuf.Seek(position, io.SeekStart); serr != nil && err == nil {
+		err = serr
+	}
+
+	return n, err
 }
 
 // Read/write operations
@@ -604,26 +531,21 @@ func (f *File) Write(p []byte) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
 	}
 
-	return n, nil
+	return f.writeWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -634,25 +556,36 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
+	}
+
+	position, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
 	}
 
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+	if _, err := f.writeBuf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	return f.writeBuf.Write(p)
+	n, err = f.writeWithoutLocking(p)
+
+	if _, serr := f.writeBuf.Seek(position, io.SeekStart); serr != nil && err == nil {
+		err = serr
+	}
+
+	return n, err
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -662,21 +595,21 @@ func (f *File) WriteString(s string) (ret int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if err := f.loadBuffer(); err != nil {
+		return 0, err
 	}
 
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -696,34 +629,17 @@ func (f *File) Truncate(size int64) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
+	if err := f.loadBuffer(); err != nil {
 		return err
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
+	f.modified = true
 
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
-	if err := f.writeBuf.Truncate(size); err != nil {
-		return err
-	}
-
-	return nil
+	return f.writeBuf.Truncate(size)
 }
 
 // Cleanup operations
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 180fa27..434a57b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -631,7 +631,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -650,7 +650,16 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	// Truncate the file even if nothing is written to it
+	if flags.Write && flags.Truncate {
+		if err := file.loadBuffer(); err != nil {
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
-- 
2.43.0


From b8854ee73e56274066c69ba22b6ef46ac16a399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 16/28] fix: restore files without content and close what has
 been restored

---
 pkg/recovery/fetch.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..1dc8fde 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -92,14 +92,25 @@ func Fetch(
 		if err != nil {
 			return err
 		}
+		dstFileOpen := true
+		defer func() {
+			// Close the file if the call fails before it has been closed
+			if dstFileOpen {
+				_ = dstFile.Close()
+			}
+		}()
 
-		// Don't decompress non-regular files
-		if !hdr.FileInfo().Mode().IsRegular() {
+		// Don't decompress non-regular files and files which have been written without content
+		uncompressedSize := hdr.PAXRecords[records.STFSRecordUncompressedSize]
+		isEmpty := hdr.Size <= 0 && (uncompressedSize == "" || uncompressedSize == "0")
+		if !hdr.FileInfo().Mode().IsRegular() || isEmpty {
 			if _, err := io.Copy(dstFile, tr); err != nil {
 				return err
 			}
 
-			return nil
+			dstFileOpen = false
+
+			return dstFile.Close()
 		}
 
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
@@ -140,6 +151,7 @@ func Fetch(
 			return err
 		}
 
+		dstFileOpen = false
 		if err := dstFile.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From c11df000124e7be698ac229f3f3fcfe2b1f51863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 17/28] fix: resolve symlink names while holding the lock

---
 pkg/fs/filesystem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 434a57b..79a87c4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1216,6 +1216,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1229,9 +1232,6 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
-- 
2.43.0


From 2a82590f7b78b108dd353e521ce089c65df5f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 18/28] fix: reject headers with malformed PGP signatures

---
 pkg/signature/verify.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..4f91101 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrIdentityUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrIdentityUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
 		if !ok {
-			return nil
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 603a3a30443c6cb71a0d99e2d8a823fc18f8aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 19/28] fix: unlock PGP keys which are protected with an empty
 password

---
 pkg/keys/identity.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..80f1d72 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,20 +43,19 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
-					return nil, config.ErrIdentityUnparsable
-				}
+		// Keys can be protected with an empty password, too; this is a no-op for unprotected keys
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
-					return nil, err
-				}
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
 
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
+			for _, subkey := range identity.Subkeys {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
+					return nil, err
 				}
 			}
 		}
-- 
2.43.0


From 1f4df321e958b3b9a7e62a11227f3f3603ad7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 20/28] fix: store the names of symlinks like the names of
 other headers

---
 pkg/persisters/metadata.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index f5ffe89..f813d13 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -101,6 +101,7 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 	hdr := *idbhdr
 	if !initializing {
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+		hdr.Linkname = p.getSanitizedLinkname(ctx, idbhdr.Linkname)
 	}
 
 	if _, err := models.Headers(
@@ -128,6 +129,7 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+	hdr.Linkname = p.getSanitizedLinkname(ctx, idbhdr.Linkname)
 
 	if _, err := hdr.Update(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 		return err
@@ -501,3 +503,12 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 
 	return path.Join(prefix, strings.TrimPrefix(name, "/"))
 }
+
+func (p *MetadataPersister) getSanitizedLinkname(ctx context.Context, linkname string) string {
+	// Headers without links and relative links don't depend on the root
+	if !strings.HasPrefix(linkname, "/") {
+		return linkname
+	}
+
+	return p.getSanitizedPath(ctx, linkname)
+}
-- 
2.43.0


From bbfd082a48908b6bc038562732a6e1d84ae43082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 21/28] fix: move and delete entries of archives in the USTAR
 and GNU formats

---
 pkg/operations/delete.go | 3 ++-
 pkg/operations/move.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index b1e0214..e2125e9 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -76,7 +76,8 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The header might have been indexed from an archive in another format
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index ae8b5aa..6a69f7c 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -102,7 +102,8 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The header might have been indexed from an archive in another format
 		if isLink {
 			hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
 		} else {
-- 
2.43.0


From dd7ddc09153c0a054310321434f919de82d742bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 22/28] fix: terminate the archive of a write which was cut off
 before continuing

---
 pkg/tape/write.go | 55 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 05d71de..9b7d5a5 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -1,6 +1,7 @@
 package tape
 
 import (
+	"bytes"
 	"os"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -63,21 +64,11 @@ func OpenTapeWriteOnly(
 
 		// No need to go to end manually due to `os.O_APPEND`
 
-		// Continue at the next block if the last write was cut off
-		stat, err := f.Stat()
-		if err != nil {
+		if err := terminateArchive(drive, f); err != nil {
 			_ = f.Close()
 
 			return nil, false, err
 		}
-
-		if remainder := stat.Size() % config.MagneticTapeBlockSize; remainder != 0 {
-			if _, err := f.Write(make([]byte, config.MagneticTapeBlockSize-remainder)); err != nil {
-				_ = f.Close()
-
-				return nil, false, err
-			}
-		}
 	} else {
 		f, err = os.OpenFile(drive, os.O_APPEND|os.O_WRONLY, os.ModeCharDevice)
 		if err != nil {
@@ -94,3 +85,45 @@ func OpenTapeWriteOnly(
 
 	return f, isRegular, nil
 }
+
+// terminateArchive makes sure that the next write starts at a block boundary and after a trailer, even if the last write
+// was cut off; otherwise, the remainder of a header which has been cut off could be combined with the headers which follow
+func terminateArchive(drive string, f *os.File) error {
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	size := stat.Size()
+	if size <= 0 {
+		return nil
+	}
+
+	r, err := os.Open(drive)
+	if err != nil {
+		return err
+	}
+	defer r.Close()
+
+	start := (size - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+	last := make([]byte, size-start)
+	if _, err := r.ReadAt(last, start); err != nil {
+		return err
+	}
+
+	if bytes.Equal(last, make([]byte, len(last))) {
+		// This is (a part of) a trailer
+		if len(last) < config.MagneticTapeBlockSize {
+			_, err = f.Write(make([]byte, config.MagneticTapeBlockSize-len(last)))
+		}
+
+		return err
+	}
+
+	// Don't fill with zeros, as that could complete a header
+	fill := bytes.Repeat([]byte{0xff}, config.MagneticTapeBlockSize-len(last))
+
+	_, err = f.Write(append(fill, make([]byte, config.MagneticTapeBlockSize)...))
+
+	return err
+}
-- 
2.43.0


From 1881c0ac16d675e43d17ba9e501db36286ba7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 23/28] fix: never create directories above the root

---
 pkg/fs/filesystem.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 79a87c4..36f1887 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -410,7 +411,17 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		parts = append([]string{filepath.Dir(parts[0])}, parts...)
 	}
 
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil && err != config.ErrNoRootDirectory {
+		return err
+	}
+
 	for _, currentPath := range parts {
+		// There is nothing above the root
+		if strings.HasPrefix(root, currentPath+"/") {
+			continue
+		}
+
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
-- 
2.43.0


From 3afca900c54d0aea6107c029e7e4599c0deafb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 24/28] fix: never restore content which is not covered by the
 verified header

---
 pkg/recovery/fetch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1dc8fde..5393d2a 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -104,7 +104,8 @@ func Fetch(
 		uncompressedSize := hdr.PAXRecords[records.STFSRecordUncompressedSize]
 		isEmpty := hdr.Size <= 0 && (uncompressedSize == "" || uncompressedSize == "0")
 		if !hdr.FileInfo().Mode().IsRegular() || isEmpty {
-			if _, err := io.Copy(dstFile, tr); err != nil {
+			// The record's own header is not covered by the signature, so it must not add content
+			if _, err := io.Copy(dstFile, io.LimitReader(tr, hdr.Size)); err != nil {
 				return err
 			}
 
-- 
2.43.0


From b7d51b666e6abbddd95672a45e7f92c22ecfb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 25/28] fix: only remove suffixes from the names of headers
 with content

---
 pkg/recovery/index.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 0d3a294..62106b5 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -194,7 +194,12 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only records with content have a suffix; without it, a suffix belongs to the name itself
+	hasContent := ok &&
+		hdr.PAXRecords[records.STFSRecordReplacesContent] != records.STFSRecordReplacesContentFalse &&
+		hdr.PAXRecords[records.STFSRecordAction] != records.STFSRecordActionDelete
+
+	if hasContent && hdr.FileInfo().Mode().IsRegular() {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
-- 
2.43.0


From 89ef4e98ed0c89a9de7cd5b121626a87436a5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 26/28] fix: don't report the end of the content for missing
 records and content

---
 pkg/recovery/fetch.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 5393d2a..fc77d41 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -31,7 +31,14 @@ func Fetch(
 	preview bool,
 
 	onHeader func(hdr *config.Header),
-) error {
+) (err error) {
+	defer func() {
+		// A missing record or missing content must not be mistaken for the end of the content
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	to = filepath.ToSlash(to)
 
 	var tr *tar.Reader
-- 
2.43.0


From 0ddecbf9c515e86592416c68ba3b8250e4202a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 27/28] fix: keep times readable and equal in the index: store
 them in UTC, and no modification time as the epoch

---
 internal/converters/header.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index 3f72aef..f28add1 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -3,6 +3,7 @@ package converters
 import (
 	"archive/tar"
 	"encoding/json"
+	"time"
 
 	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -97,6 +98,13 @@ func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, t
 		return nil, err
 	}
 
+	// A tar header can't hold a zero modification time; it is written as the Unix epoch
+	modTime := tarhdr.ModTime
+	if modTime.IsZero() {
+		modTime = time.Unix(0, 0)
+	}
+
+	// The database driver can't parse the names of all time zones back, so store UTC
 	hdr := models.Header{
 		Record:          record,
 		Lastknownrecord: lastKnownRecord,
@@ -111,9 +119,9 @@ func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, t
 		Gid:             int64(tarhdr.Gid),
 		Uname:           tarhdr.Uname,
 		Gname:           tarhdr.Gname,
-		Modtime:         tarhdr.ModTime,
-		Accesstime:      tarhdr.AccessTime,
-		Changetime:      tarhdr.ChangeTime,
+		Modtime:         modTime.UTC(),
+		Accesstime:      tarhdr.AccessTime.UTC(),
+		Changetime:      tarhdr.ChangeTime.UTC(),
 		Devmajor:        tarhdr.Devmajor,
 		Devminor:        tarhdr.Devminor,
 		Paxrecords:      string(paxRecords),
-- 
2.43.0


From 94e0a7043c22d0926e5e78bacfc588375cfb8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 28/28] fix: don't lose the seconds of a time zone's offset in
 embedded headers

---
 pkg/encryption/encrypt.go | 8 +++++++-
 pkg/signature/sign.go     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/encryption/encrypt.go b/pkg/encryption/encrypt.go
index dca3a09..818b103 100644
--- a/pkg/encryption/encrypt.go
+++ b/pkg/encryption/encrypt.go
@@ -56,7 +56,13 @@ func EncryptHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	// JSON can't hold the seconds of a time zone's offset, so embed UTC
+	embeddedHdr := *hdr
+	embeddedHdr.ModTime = hdr.ModTime.UTC()
+	embeddedHdr.AccessTime = hdr.AccessTime.UTC()
+	embeddedHdr.ChangeTime = hdr.ChangeTime.UTC()
+
+	wrappedHeader, err := json.Marshal(&embeddedHdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 6aa2e65..12108aa 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -101,7 +101,13 @@ func SignHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	// JSON can't hold the seconds of a time zone's offset, so embed UTC
+	embeddedHdr := *hdr
+	embeddedHdr.ModTime = hdr.ModTime.UTC()
+	embeddedHdr.AccessTime = hdr.AccessTime.UTC()
+	embeddedHdr.ChangeTime = hdr.ChangeTime.UTC()
+
+	wrappedHeader, err := json.Marshal(&embeddedHdr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

