From d0cf0a36c5a03f4f6705d2044a2ad5a385046825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 01/21] fix: circular buffer writes the rest of the data, not
 its start, after wrapping around

---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From ac6b8fc0f0e9fcc2e066b8444b67a82ed0638472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 02/21] fix: splitting a block range does not overflow with a
 very large desired request size

---
 blocksources/fixed_size_block_resolver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blocksources/fixed_size_block_resolver.go b/blocksources/fixed_size_block_resolver.go
index d81573e..4c1e468 100644
--- a/blocksources/fixed_size_block_resolver.go
+++ b/blocksources/fixed_size_block_resolver.go
@@ -46,9 +46,8 @@ func (r *FixedSizeBlockResolver) SplitBlockRangeToDesiredSize(startBlockID, endB
 	currentBlockID := startBlockID
 
 	for {
-		maxEndBlock := currentBlockID + blockCountPerRequest
-
-		if maxEndBlock > endBlockID {
+		// compare sizes rather than end blocks, so that a very large desired size cannot overflow
+		if blockCountPerRequest > endBlockID-currentBlockID {
 			requests = append(
 				requests,
 				QueuedRequest{
@@ -59,6 +58,8 @@ func (r *FixedSizeBlockResolver) SplitBlockRangeToDesiredSize(startBlockID, endB
 
 			return requests
 		} else {
+			maxEndBlock := currentBlockID + blockCountPerRequest
+
 			requests = append(
 				requests,
 				QueuedRequest{
-- 
2.43.0


From 64ce4c93562e6ef10b6f021cee62197804d0db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 03/21] fix: block verification resets the hash and skips only
 blocks without a checksum

---
 filechecksum/verifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..3412f49 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -30,18 +30,19 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			int(startBlockID) + i,
 		)
 
+		// nothing is known about this block: it is not checked
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
+		// an earlier failed verification may have left data in the hash
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From 89682c353f7ed2e8f999efbbcead8a2f84f254cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 04/21] fix: uniform readers report EOF only at the end of the
 data, not for an empty or negative-length read

---
 util/readers/uniformreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/readers/uniformreader.go b/util/readers/uniformreader.go
index e6045da..9cd3d6c 100644
--- a/util/readers/uniformreader.go
+++ b/util/readers/uniformreader.go
@@ -20,7 +20,8 @@ func (r *uniformReader) Read(p []byte) (n int, err error) {
 		read = readable
 	}
 
-	if read == 0 {
+	// only the end of the data is EOF, not a read into an empty slice
+	if readable <= 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 55e9610c1d1fdf5fa40f12a3b683c95c8f8a32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 05/21] fix: checksum generation reports read, compression and
 write failures, and finishes with its hashes before returning

---
 filechecksum/filechecksum.go | 56 +++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..7ef7bdc 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -101,20 +101,32 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // Potentially speaking, this might be better producing a channel of blocks, which would remove the need for io from
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
+	// Always receive until the channel is closed: only then has the generation finished with the hashes
 	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
-		if chunkResult.Err != nil {
-			return nil, chunkResult.Err
-		} else if chunkResult.Filechecksum != nil {
-			return chunkResult.Filechecksum, nil
+		if chunkResult.Err != nil && err == nil {
+			err = chunkResult.Err
+		}
+
+		if chunkResult.Filechecksum != nil {
+			fileChecksum = chunkResult.Filechecksum
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if err == nil {
+				_, err = output.Write(chunk.WeakChecksum)
+			}
+
+			if err == nil {
+				_, err = output.Write(chunk.StrongChecksum)
+			}
 		}
 	}
 
-	return nil, nil
+	if err != nil {
+		return nil, err
+	}
+
+	return fileChecksum, nil
 }
 
 type ChecksumResults struct {
@@ -167,16 +179,19 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readBlock(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF {
+			resultChan <- ChecksumResults{Err: err}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
 
 		// As hashes, the assumption is that they never error
-		// additionally, we assume that the only reason not
-		// to write a full block would be reaching the end of the file
 		fullChecksum.Write(section)
 		check.WeakRollingHash.SetBlock(section)
 		strongHash.Write(section)
@@ -190,7 +205,13 @@ func (check *FileChecksumGenerator) generate(
 		blockSize := int64(check.BlockSize)
 
 		if compressionFunction != nil {
-			blockSize, err = compressionFunction(section)
+			var compressionErr error
+			blockSize, compressionErr = compressionFunction(section)
+
+			if compressionErr != nil {
+				resultChan <- ChecksumResults{Err: compressionErr}
+				return
+			}
 		}
 
 		results = append(
@@ -235,3 +256,16 @@ func (check *FileChecksumGenerator) generate(
 
 	return
 }
+
+// readBlock reads until the buffer is full or the reader reports an error (including io.EOF).
+// io.ReadFull cannot be used, because it does not tell the end of the data from
+// a reader that fails with io.ErrUnexpectedEOF
+func readBlock(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	return n, err
+}
-- 
2.43.0


From 7b7725960088771466b734e425186b8910e7c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 06/21] fix: reading the next block does not overwrite the
 memory of the current window

---
 comparer/comparer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..1e67ec8 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From f4f7a693f323a12ed448afa5fe49d72b42d9f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 07/21] fix: matching with a block size of one looks at the
 byte just read

---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 1e67ec8..8471cc1 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -179,8 +179,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From 3b64c92e07ffae93a98cb0d3b1db55ee959490d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 08/21] fix: the comparer reports read failures instead of
 spinning, and looks at the window completed by a read that also returns EOF

---
 comparer/comparer.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 8471cc1..00b7a61 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -172,12 +172,22 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		case READ_NEXT_BYTE:
 			n, err = comparison.Read(singleByte)
 			readBytes = singleByte
+
+			// the window that ends with this byte has to be looked at before ending,
+			// and the next read reports the end again
+			if n > 0 && err == io.EOF {
+				err = nil
+			}
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = readBlock(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF {
+			break
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(readBytes)
 			blockMemory.Write(readBytes)
@@ -193,8 +203,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += int64(n)
 		}
 
-		if next != READ_NONE && (err == io.EOF || err == io.ErrUnexpectedEOF) {
-			err = io.EOF
+		if next != READ_NONE && err == io.EOF {
 			next = READ_NONE
 		}
 
@@ -215,3 +224,19 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		return
 	}
 }
+
+// readBlock is like io.ReadFull, but returns io.EOF for a partial block at the end of the data.
+// With io.ReadFull, a reader that fails with io.ErrUnexpectedEOF looks like the end of the data
+func readBlock(r io.Reader, block []byte) (n int, err error) {
+	for n < len(block) && err == nil {
+		var read int
+		read, err = r.Read(block[n:])
+		n += read
+	}
+
+	if n == len(block) {
+		err = nil
+	}
+
+	return n, err
+}
-- 
2.43.0


From 1078264d4e34d06a6ab4e0e7ae11428f0bad4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 09/21] fix: sequential patching reports seek and request
 failures and spans that come up short

---
 patcher/sequential/sequential.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..cd0e272 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,19 +57,32 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in the local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the last block of the file may be partial
+			if copied < blockSizeToRead && firstMatched.EndBlock < maxBlock {
+				return fmt.Errorf("Could only copy %v of %v bytes to output: %v", copied, blockSizeToRead, io.ErrUnexpectedEOF)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf("Could not request blocks %v-%v: %v", firstMissing.StartBlock, firstMissing.EndBlock, err)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
@@ -86,7 +99,11 @@ func SequentialPatcher(
 							firstMissing.BlockSize,
 						)
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
+						// only the last block of the file may be partial
+						isPartial := int64(len(result.Data)) != int64(completed)*firstMissing.BlockSize
+
+						if completed != (firstMissing.EndBlock-firstMissing.StartBlock)+1 ||
+							(isPartial && firstMissing.EndBlock < maxBlock) {
 							return fmt.Errorf(
 								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
 								firstMissing.StartBlock,
-- 
2.43.0


From debf1e4a1e5776f711b133fcf36caa8a5683eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 10/21] fix: failures while copying the temporary file to its
 destination are returned

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 59db7c1..e4ab562 100644
--- a/rsync.go
+++ b/rsync.go
@@ -298,7 +298,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -311,7 +311,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From a8a7c3a923fa4825e062c5969d494084fbc943f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 11/21] fix: an existing output file does not keep its old
 content after the patched bytes

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index e4ab562..973b3bb 100644
--- a/rsync.go
+++ b/rsync.go
@@ -215,7 +215,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_TRUNC|os.O_WRONLY, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 68aa71340759815c3c1d6a1bcc779e76e09be272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 12/21] fix: failing to create the temporary file is an error
 and not a crash

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 973b3bb..7bf33b7 100644
--- a/rsync.go
+++ b/rsync.go
@@ -220,6 +220,11 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+
+	if err != nil {
+		return
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From b491c18b4cd70920fbf7cc8729151575ce072d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 13/21] fix: patching copies no more than the partial last
 block, and an empty reference gives an empty result

---
 rsync.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 7bf33b7..5f73858 100644
--- a/rsync.go
+++ b/rsync.go
@@ -169,6 +169,11 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	// an empty file has no blocks, and there is nothing to write
+	if rsync.Summary.GetBlockCount() == 0 {
+		return nil
+	}
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
@@ -204,7 +209,11 @@ func (rsync *RSync) Patch() (err error) {
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
-		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+		splitPartialBlock(
+			toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+			rsync.Summary.GetBlockCount()-1,
+			rsync.Summary.GetFileSize(),
+		),
 		20*megabyte,
 		rsync.Output,
 	)
@@ -339,6 +348,36 @@ func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.Fo
 	return result
 }
 
+// The last block of the file may be shorter than the others. If it was found, it gets
+// a span with its actual size, so that no more than that is copied from the local file.
+func splitPartialBlock(spans []patcher.FoundBlockSpan, lastBlock uint, fileSize int64) []patcher.FoundBlockSpan {
+	if len(spans) == 0 {
+		return spans
+	}
+
+	last := &spans[len(spans)-1]
+	lastSize := fileSize - int64(lastBlock)*last.BlockSize
+
+	if last.EndBlock != lastBlock || lastSize >= last.BlockSize {
+		return spans
+	}
+
+	partial := patcher.FoundBlockSpan{
+		StartBlock:  lastBlock,
+		EndBlock:    lastBlock,
+		BlockSize:   lastSize,
+		MatchOffset: last.MatchOffset + int64(lastBlock-last.StartBlock)*last.BlockSize,
+	}
+
+	if last.StartBlock == lastBlock {
+		*last = partial
+		return spans
+	}
+
+	last.EndBlock--
+	return append(spans, partial)
+}
+
 func toPatcherMissingSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.MissingBlockSpan {
 	result := make([]patcher.MissingBlockSpan, len(sl))
 
-- 
2.43.0


From ab55abbf7a4f739603fb5a4fce871cda61f87879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 14/21] fix: block source does not deliver ahead of, or drop, a
 lower range that was requested later

---
 blocksources/blocksourcebase.go | 34 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..7d95c08 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -189,6 +189,19 @@ func (s *BlockSourceBase) loop() {
 			requestQueue = requestQueue[:len(requestQueue)-1]
 		}
 
+		// offer the lowest response, unless it has to wait for the response to a lower request
+		// (which may have been started since it arrived)
+		pendingResponse.clear()
+
+		if len(responseOrdering) > 0 {
+			lowestResponse := responseOrdering[len(responseOrdering)-1]
+			lowestRequest := requestOrdering[len(requestOrdering)-1]
+
+			if lowestRequest == lowestResponse.StartBlock {
+				pendingResponse.setResponse(&lowestResponse)
+			}
+		}
+
 		select {
 		case newRequest := <-s.requestChannel:
 			requestQueue = append(
@@ -235,32 +248,11 @@ func (s *BlockSourceBase) loop() {
 			// sort high to low
 			sort.Sort(sort.Reverse(responseOrdering))
 
-			// if we just got the lowest requested block, we can set
-			// the response. Otherwise, wait.
-			lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-			if lowestRequest == result.startBlockID {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				pendingResponse.clear()
-				pendingResponse.setResponse(&lowestResponse)
-			}
-
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
 			pendingResponse.clear()
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
-			// check if there's another response to enqueue
-			if len(responseOrdering) > 0 {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-				if lowestRequest == lowestResponse.StartBlock {
-					pendingResponse.setResponse(&lowestResponse)
-
-				}
-			}
-
 		case pendingErrors.sendIfSet() <- pendingErrors.Err():
 			pendingErrors.clear()
 
-- 
2.43.0


From 1b9be163160f5a952662b1759fc9ad0e1ee87590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 15/21] fix: a second failing request does not crash the block
 source, and no requests are started after a failure

---
 blocksources/blocksourcebase.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 7d95c08..292e3db 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -151,6 +151,19 @@ func (s *BlockSourceBase) loop() {
 	requestOrdering := make(UintSlice, 0, s.ConcurrentRequests)
 	responseOrdering := make(PendingResponses, 0, s.ConcurrentRequests)
 
+	// Only the first failure is reported, and no more requests are started after it
+	failed := false
+	fail := func(err error) {
+		if !failed {
+			pendingErrors.setError(err)
+		}
+
+		failed = true
+		state = STATE_EXITING
+		requestQueue = requestQueue[:0]
+		responseOrdering = responseOrdering[:0]
+	}
+
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
@@ -204,6 +217,10 @@ func (s *BlockSourceBase) loop() {
 
 		select {
 		case newRequest := <-s.requestChannel:
+			if failed {
+				break
+			}
+
 			requestQueue = append(
 				requestQueue,
 				s.BlockSourceResolver.SplitBlockRangeToDesiredSize(
@@ -218,23 +235,19 @@ func (s *BlockSourceBase) loop() {
 			inflightRequests -= 1
 
 			if result.err != nil {
-				pendingErrors.setError(result.err)
-				pendingResponse.clear()
-				state = STATE_EXITING
+				fail(result.err)
 				break
 			}
 
 			s.bytesRequested += int64(len(result.data))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
-				pendingErrors.setError(
+				fail(
 					fmt.Errorf(
 						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
 						result.startBlockID, result.endBlockID,
 					),
 				)
-				pendingResponse.clear()
-				state = STATE_EXITING
 				break
 			}
 
-- 
2.43.0


From be6c1d159286f323f1229d1a063573974fe9881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 16/21] fix: requesting blocks from a block source that has
 stopped is an error and not a crash

---
 blocksources/blocksourcebase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 292e3db..bb40117 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -96,7 +96,14 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 	return s.bytesRequested
 }
 
-func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
+func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) (err error) {
+	// a block source that has stopped has closed its channels
+	defer func() {
+		if recover() != nil {
+			err = BlockSourceAlreadyClosedError
+		}
+	}()
+
 	s.requestChannel <- block
 	return nil
 }
-- 
2.43.0


From 897de3a5e4c308affdcb0630cc9c60b9372d2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 17/21] fix: HTTP responses with an encoding other than gzip
 are rejected too

---
 blocksources/httpblocksource.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..b78bc54 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -77,6 +77,11 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 		"gzip",
 	) {
 		return nil, ResponseFromServerWasGZiped
+	} else if encoding := strings.Join(
+		rangedResponse.Header["Content-Encoding"],
+		",",
+	); encoding != "" && !strings.EqualFold(encoding, "identity") {
+		return nil, fmt.Errorf("HTTP response was encoded (%v). Ranges may not match those requested.", encoding)
 	} else {
 		buf := bytes.NewBuffer(make([]byte, 0, endOffset-startOffset))
 		_, err = buf.ReadFrom(rangedResponse.Body)
-- 
2.43.0


From 7c10c86f1ce9af032e3a53369a713ee18cac5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 18/21] fix: a seekable reader that fails with
 io.ErrUnexpectedEOF is not taken for the end of the data

---
 blocksources/readseeker_blocksource.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blocksources/readseeker_blocksource.go b/blocksources/readseeker_blocksource.go
index 67958f6..94134aa 100644
--- a/blocksources/readseeker_blocksource.go
+++ b/blocksources/readseeker_blocksource.go
@@ -40,9 +40,17 @@ func (r *ReadSeekerRequester) DoRequest(startOffset int64, endOffset int64) (dat
 		return
 	}
 
-	n, err := io.ReadFull(r.rs, buffer)
+	n := 0
 
-	if err != nil && err != io.ErrUnexpectedEOF {
+	// not io.ReadFull, for which a reader that fails with io.ErrUnexpectedEOF looks like the end of the data
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.rs.Read(buffer[n:])
+		n += read
+	}
+
+	// the data may end within the range
+	if n < len(buffer) && !(err == io.EOF && n > 0) {
 		return
 	}
 
-- 
2.43.0


From c0409e0a20fc962a967ecf583f62e9f68e4f6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 19/21] fix: the sections matched in parallel overlap by the
 block size and reach the end of the file

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..bf35acb 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -259,7 +259,7 @@ func multithreadedMatching(
 		}
 
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From 726ea13de2d466ef77aaebdf6e82e650981105ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 20/21] fix: the commands stop on an invalid, truncated or
 slowly delivered index file

---
 cmd/gosync/common.go | 31 ++++++++++++++++++++++++++++++-
 cmd/gosync/diff.go   |  8 ++++++--
 cmd/gosync/patch.go  | 12 ++++++++++++
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index bf35acb..b2be2d8 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
@@ -205,6 +205,17 @@ func readHeadersAndCheck(
 	}
 
 	err = binary.Read(r, binary.LittleEndian, &blocksize)
+	if err != nil {
+		return
+	}
+
+	if filesize < 0 || blocksize == 0 {
+		err = fmt.Errorf(
+			"Not a valid gosync file: file size %v, block size %v",
+			filesize, blocksize,
+		)
+	}
+
 	return
 }
 
@@ -235,6 +246,24 @@ func readIndex(r io.Reader, blocksize uint) (
 	return
 }
 
+// an index that ends early between two blocks can only be recognised by the number of blocks
+func checkBlockCount(filesize int64, blocksize uint32, blockCount uint) error {
+	expected := uint64(filesize) / uint64(blocksize)
+
+	if uint64(filesize)%uint64(blocksize) != 0 {
+		expected++
+	}
+
+	if uint64(blockCount) != expected {
+		return fmt.Errorf(
+			"The index has checksums for %v blocks, but the file it describes has %v",
+			blockCount, expected,
+		)
+	}
+
+	return nil
+}
+
 func multithreadedMatching(
 	localFile *os.File,
 	idx *index.ChecksumIndex,
diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..fecbb59 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -51,7 +51,7 @@ func Diff(c *cli.Context) error {
 
 	defer referenceFile.Close()
 
-	_, _, _, _, blocksize, e := readHeadersAndCheck(
+	_, _, _, filesize, blocksize, e := readHeadersAndCheck(
 		referenceFile,
 		magicString,
 		majorVersion,
@@ -64,13 +64,17 @@ func Diff(c *cli.Context) error {
 
 	fmt.Println("Blocksize: ", blocksize)
 
-	index, _, _, err := readIndex(referenceFile, uint(blocksize))
+	index, _, blockCount, err := readIndex(referenceFile, uint(blocksize))
 	referenceFile.Close()
 
 	if err != nil {
 		return err
 	}
 
+	if err = checkBlockCount(filesize, blocksize, blockCount); err != nil {
+		return err
+	}
+
 	fmt.Println("Weak hash count:", index.WeakCount())
 
 	fi, err := localFile.Stat()
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..83a3e71 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -70,11 +70,23 @@ func Patch(c *cli.Context) error {
 			majorVersion,
 		)
 
+		if e != nil {
+			return e
+		}
+
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
 
+		if err != nil {
+			return err
+		}
+
+		if err = checkBlockCount(filesize, blocksize, blockCount); err != nil {
+			return err
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From fe9ad4de571724196cececa8a0336415b0b765dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 21/21] fix: a command that returns an error fails

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0

