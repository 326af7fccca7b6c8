package filechecksum

# ---------------------------------------------------------------- C06
# Rolling hashes: win is the window; weaksum the algorithm of the hash, wsize the length of its checksums.
fun wsize(any) int
fun weaksum(any, seq) seq
defaxiom weaksum_len: forall h any, s seq {weaksum(h, s)} :: len(weaksum(h, s)) == wsize(h)
defaxiom wsize_pos: forall h any {wsize(h)} :: 0 <= wsize(h) && wsize(h) <= 1048576

iface filechecksum.RollingHash.Size(h) returns n
  ensures n == wsize(h)

iface filechecksum.RollingHash.SetBlock(h, block)
  modifies h.win
  ensures h.win == block[*]

iface filechecksum.RollingHash.Reset(h)
  modifies h.win
  ensures h.win == empty

iface filechecksum.RollingHash.RemoveBytes(h, bs, length)
  requires len(h.win) == length && len(bs) <= length
  requires bs[*] == h.win[:len(bs)]
  modifies h.win
  ensures h.win == old(h.win)[len(bs):]

iface filechecksum.RollingHash.AddAndRemoveBytes(h, add, remove, length)
  requires len(h.win) == length && len(remove) <= len(add)
  requires len(remove) > 0 ==> len(remove) < length + len(add)
  requires length + len(add) <= 9223372036854775807
  requires remove[*] == (h.win ++ add[*])[:len(remove)]
  modifies h.win
  ensures h.win == (old(h.win) ++ add[*])[len(remove):]

iface filechecksum.RollingHash.GetSum(h, b)
  requires len(b) >= wsize(h)
  modifies b[*]
  ensures b[:wsize(h)] == weaksum(h, h.win)
  ensures forall k int {row(b)[k]} :: k < off(b) || k >= off(b) + wsize(h) ==> row(b)[k] == old(row(b))[k]

# compression functions: whether a call has failed
ghost cfail bool
iface filechecksum.CompressionFunction.call(f, b) returns n, err
  modifies f.cfail
  ensures err != nil ==> f.cfail
  ensures err == nil ==> f.cfail == old(f.cfail)

func filechecksum.readBlock(r, buffer) returns n, err
  requires r != nil
  modifies r.rem, buffer[*]
  ensures 0 <= n && n <= len(buffer) && n <= len(old(r.rem))
  ensures buffer[:n] == old(r.rem)[:n]
  ensures r.rem == old(r.rem)[n:]
  ensures err != nil ==> len(r.rem) == 0 && err == rerr(r)
  ensures n < len(buffer) ==> err != nil
  ensures forall k int {row(buffer)[k]} :: k < off(buffer) || k >= off(buffer) + len(buffer) ==> row(buffer)[k] == old(row(buffer))[k]
  loop 1
    modifies r.rem, buffer[*]
    invariant 0 <= n && n <= len(buffer) && n <= len(old(r.rem))
    invariant buffer[:n] == old(r.rem)[:n]
    invariant r.rem == old(r.rem)[n:]
    invariant err != nil ==> len(r.rem) == 0 && err == rerr(r)
    invariant forall k int {row(buffer)[k]} :: k < off(buffer) || k >= off(buffer) + len(buffer) ==> row(buffer)[k] == old(row(buffer))[k]

# The channel of results.  g* describes the stream the channel carries: the content, its reader, the block size and
# the hashes; gsent/gsdone are the sender's progress, grecv/grdone the receiver's (the channel delivers in order).
ghost gin seq
ghost gsrc any
ghost gbs int
ghost gweak any
ghost gstrong int
ghost gfile int
ghost gcomp ref
ghost gsent int
ghost gsdone bool
ghost grecv int
ghost grdone bool

# entry i of the list describes block n
def centry(l "[]chunks.ChunkChecksum", i int, n int, s seq, bs int, wk any, sa int) bool = l[i].ChunkOffset == n && l[i].WeakChecksum[*] == weaksum(wk, blockof(s, n, bs)) && l[i].StrongChecksum[*] == digest(sa, blockof(s, n, bs))
# a message is a failure, or some further blocks, or (after all blocks) the checksum of the whole
def gmsg(c ref, m filechecksum.ChecksumResults, done int, failed bool) bool =
  (m.Err != nil ==> len(m.Checksums) == 0 && len(m.Filechecksum) == 0 && failed)
  && (m.Err == nil && len(m.Checksums) > 0 ==> len(m.Filechecksum) == 0 && m.Filechecksum == nil && (done + len(m.Checksums) - 1) * c.gbs < len(c.gin)
     && (forall i int {m.Checksums[i].ChunkOffset} :: 0 <= i && i < len(m.Checksums) ==> centry(m.Checksums, i, done + i, c.gin, c.gbs, c.gweak, c.gstrong)))
  && (m.Err == nil && len(m.Checksums) == 0 ==> !failed && len(c.gin) <= done * c.gbs && m.Filechecksum[*] == digest(c.gfile, c.gin))

ghost given bool
chan filechecksum.ChecksumResults(c, m)
  gives chunks.ChunkChecksum: m.Checksums
  send !c.gsdone && gmsg(ref(c), m, c.gsent, rerr(c.gsrc) != io.EOF || c.gcomp != nil && c.gcomp.cfail)
  sendghost c.gsdone := m.Err != nil || len(m.Checksums) == 0
  sendghost c.gsent := c.gsent + len(m.Checksums)
  close c.gsdone
  recv !c.grdone && gmsg(ref(c), m, c.grecv, rerr(c.gsrc) != io.EOF || c.gcomp != nil && c.gcomp.cfail)
  recvghost c.grdone := m.Err != nil || len(m.Checksums) == 0
  recvghost c.grecv := c.grecv + len(m.Checksums)
  closed c.grdone

func filechecksum.FileChecksumGenerator.generate(check, resultChan, blocksPerResult, compressionFunction, inputFile)
  opt lemmas scat_prefix scat_suffix ssub_ssub ssub_join
  requires check != nil && inputFile != nil && check.WeakRollingHash != nil && check.StrongHash != nil && check.FileChecksumHash != nil && resultChan != nil
  requires 1 <= check.BlockSize && check.BlockSize <= 1152921504606846976 && blocksPerResult <= 1048576 && len(inputFile.rem) <= 4611686018427387904
  requires ref(check.StrongHash) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.StrongHash) && ref(inputFile) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.WeakRollingHash)
  requires !resultChan.chclosed && (compressionFunction != nil ==> !compressionFunction.cfail)
  modifies inputFile.rem, check.WeakRollingHash.win, check.StrongHash.hin, check.FileChecksumHash.hin, compressionFunction.cfail, resultChan.sentN, resultChan.chclosed, resultChan.gsent, resultChan.gsdone
  modifies resultChan.gin, resultChan.gsrc, resultChan.gbs, resultChan.gweak, resultChan.gstrong, resultChan.gfile, resultChan.gcomp, resultChan.grecv, resultChan.grdone
  # the channel now carries the description of the content
  ghostset @entry resultChan.gin := inputFile.rem
  ghostset @entry resultChan.gsrc := inputFile
  ghostset @entry resultChan.gbs := check.BlockSize
  ghostset @entry resultChan.gweak := check.WeakRollingHash
  ghostset @entry resultChan.gstrong := hashalg(check.StrongHash)
  ghostset @entry resultChan.gfile := hashalg(check.FileChecksumHash)
  ghostset @entry resultChan.gcomp := ref(compressionFunction)
  ghostset @entry resultChan.gsent := 0
  ghostset @entry resultChan.gsdone := false
  ghostset @entry resultChan.grecv := 0
  ghostset @entry resultChan.grdone := false
  ensures resultChan.gin == old(inputFile.rem) && resultChan.gsrc == inputFile && resultChan.gbs == check.BlockSize && resultChan.gweak == check.WeakRollingHash && resultChan.gstrong == hashalg(check.StrongHash) && resultChan.gfile == hashalg(check.FileChecksumHash)
  ensures resultChan.gcomp == ref(compressionFunction) && resultChan.grecv == 0 && !resultChan.grdone
  ensures resultChan.gsdone && resultChan.chclosed
  # the hashes are left clean for reuse
  ensures check.WeakRollingHash.win == empty && check.StrongHash.hin == empty && check.FileChecksumHash.hin == empty
  loop 1
    modifies inputFile.rem, check.WeakRollingHash.win, check.StrongHash.hin, check.FileChecksumHash.hin, compressionFunction.cfail, resultChan.sentN, resultChan.gsent, resultChan.gsdone, buffer[*]
    invariant !resultChan.gsdone && !resultChan.chclosed && (compressionFunction != nil ==> !resultChan.gcomp.cfail) && resultChan.gin == old(inputFile.rem)
    invariant 0 <= i && i * check.BlockSize + len(inputFile.rem) == len(old(inputFile.rem)) && blk(i)
    invariant inputFile.rem == old(inputFile.rem)[i * check.BlockSize:]
    invariant check.FileChecksumHash.hin == old(inputFile.rem)[:i * check.BlockSize] && check.StrongHash.hin == empty
    invariant resultChan.gsent >= 0 && resultChan.gsent + len(results) == i && (i - 1) * check.BlockSize < len(old(inputFile.rem))
    invariant fresh(results) && !arr(results).given
    invariant forall k int {results[k].ChunkOffset} :: 0 <= k && k < len(results) ==> centry(results, k, resultChan.gsent + k, old(inputFile.rem), check.BlockSize, check.WeakRollingHash, hashalg(check.StrongHash))
    invariant forall k int {results[k].WeakChecksum} :: 0 <= k && k < len(results) ==> fresh(results[k].WeakChecksum) && fresh(results[k].StrongChecksum) && arr(results[k].WeakChecksum) != arr(buffer) && arr(results[k].StrongChecksum) != arr(buffer)
    decreases len(inputFile.rem)
    headhint blockof(old(inputFile.rem), i, check.BlockSize) == inputFile.rem[:min(check.BlockSize, len(inputFile.rem))]
    hint i == at_head(i) + 1
    hint i * check.BlockSize == at_head(i) * check.BlockSize + check.BlockSize

func filechecksum.FileChecksumGenerator.StartChecksumGeneration(check, inputFile, blocksPerResult, compressionFunction) returns ch
  requires check != nil && inputFile != nil && check.WeakRollingHash != nil && check.StrongHash != nil && check.FileChecksumHash != nil
  requires 1 <= check.BlockSize && check.BlockSize <= 1152921504606846976 && blocksPerResult <= 1048576 && len(inputFile.rem) <= 4611686018427387904
  requires ref(check.StrongHash) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.StrongHash) && ref(inputFile) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.WeakRollingHash)
  requires compressionFunction != nil ==> !compressionFunction.cfail
  modifies inputFile.rem, check.WeakRollingHash.win, check.StrongHash.hin, check.FileChecksumHash.hin, compressionFunction.cfail
  ensures ch != nil && fresh(ch) && ch.gin == old(inputFile.rem) && ch.gsrc == inputFile && ch.gbs == check.BlockSize && ch.gweak == check.WeakRollingHash && ch.gstrong == hashalg(check.StrongHash) && ch.gfile == hashalg(check.FileChecksumHash)
  ensures ch.gcomp == ref(compressionFunction) && ch.grecv == 0 && !ch.grdone

# the serialised form of the first n blocks: their weak and strong checksums, in order
fun serial(any, int, seq, int, int) seq
defaxiom serial_0: forall wk any, sa int, s seq, bs int {serial(wk, sa, s, bs, 0)} :: serial(wk, sa, s, bs, 0) == empty
defaxiom serial_step: forall wk any, sa int, s seq, bs int, n int, m int {serial(wk, sa, s, bs, n), serial(wk, sa, s, bs, m)} :: n >= 0 && m == n + 1 ==> serial(wk, sa, s, bs, m) == serial(wk, sa, s, bs, n) ++ weaksum(wk, blockof(s, n, bs)) ++ digest(sa, blockof(s, n, bs))
# n blocks of size bs are what a content of length l has
def nblocks(n int, l int, bs int) bool = n >= 0 && l <= n * bs && (n - 1) * bs < l

func filechecksum.FileChecksumGenerator.GenerateChecksums(check, inputFile, output) returns fileChecksum, err
  opt lemmas scat_prefix scat_suffix ssub_ssub ssub_join
  requires check != nil && inputFile != nil && output != nil && check.WeakRollingHash != nil && check.StrongHash != nil && check.FileChecksumHash != nil
  requires 1 <= check.BlockSize && check.BlockSize <= 1152921504606846976 && len(inputFile.rem) <= 4611686018427387904
  requires ref(check.StrongHash) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.StrongHash) && ref(inputFile) != ref(check.FileChecksumHash) && ref(inputFile) != ref(check.WeakRollingHash)
  modifies inputFile.rem, check.WeakRollingHash.win, check.StrongHash.hin, check.FileChecksumHash.hin, output.wout, output.wfail
  ensures err == nil ==> rerr(inputFile) == io.EOF && fileChecksum[*] == digest(hashalg(check.FileChecksumHash), old(inputFile.rem))
  ensures err == nil ==> (exists n int {blk(n)} :: blk(n) && nblocks(n, len(old(inputFile.rem)), check.BlockSize) && output.wout == old(output.wout) ++ serial(check.WeakRollingHash, hashalg(check.StrongHash), old(inputFile.rem), check.BlockSize, n))
  ensures err != nil ==> len(fileChecksum) == 0 && (rerr(inputFile) != io.EOF || output.wfail != nil)
  loop 1
    modifies output.wout, output.wfail, $range.grecv, $range.grdone
    invariant $range.grecv >= 0 && ($range.grecv - 1) * check.BlockSize < len(old(inputFile.rem)) && (err != nil ==> rerr(inputFile) != io.EOF || output.wfail != nil)
    invariant err == nil ==> output.wout == old(output.wout) ++ serial(check.WeakRollingHash, hashalg(check.StrongHash), old(inputFile.rem), check.BlockSize, $range.grecv)
    invariant err == nil && $range.grdone ==> rerr(inputFile) == io.EOF && fileChecksum[*] == digest(hashalg(check.FileChecksumHash), old(inputFile.rem)) && len(old(inputFile.rem)) <= $range.grecv * check.BlockSize
    invariant !$range.grdone ==> len(fileChecksum) == 0
  loop 2
    modifies output.wout, output.wfail
    invariant err != nil ==> rerr(inputFile) != io.EOF || output.wfail != nil
    invariant chunkResult.Err != nil ==> err != nil
    invariant err == nil ==> output.wout == old(output.wout) ++ serial(check.WeakRollingHash, hashalg(check.StrongHash), old(inputFile.rem), check.BlockSize, $range.grecv - len(chunkResult.Checksums) + $rangeindex + 1)
    headhint $rangeindex + 1 < len(chunkResult.Checksums) ==> centry(chunkResult.Checksums, $rangeindex + 1, $range.grecv - len(chunkResult.Checksums) + $rangeindex + 1, old(inputFile.rem), check.BlockSize, check.WeakRollingHash, hashalg(check.StrongHash))

# the rolling hash the project uses
defaxiom weaksum_rollsum: forall h any, s seq {weaksum(h, s)} :: is(h, "*rollsum.Rollsum32Base") ==> weaksum(h, s)[0] == weakbyte(s, 0) && weaksum(h, s)[1] == weakbyte(s, 1) && weaksum(h, s)[2] == weakbyte(s, 2) && weaksum(h, s)[3] == weakbyte(s, 3)
defaxiom wsize_rollsum: forall h any {wsize(h)} :: is(h, "*rollsum.Rollsum32Base") ==> wsize(h) == 4

func rollsum.Rollsum32Base.Size(r) returns n
  requires r != nil
  ensures n == 4

# the default hash functions: fresh, clean MD5 states
fun stdalg() int
iface filechecksum.DefaultStrongHashGenerator.call(f) returns h
  ensures h != nil && fresh(ref(h)) && h.hin == empty && hashalg(h) == stdalg()
iface filechecksum.DefaultFileHashGenerator.call(f) returns h
  ensures h != nil && fresh(ref(h)) && h.hin == empty

func filechecksum.NewFileChecksumGenerator(blocksize) returns g
  requires filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil
  ensures fresh(g) && g.BlockSize == blocksize && is(g.WeakRollingHash, "*rollsum.Rollsum32Base") && g.WeakRollingHash != nil && g.StrongHash != nil && g.FileChecksumHash != nil
  ensures ref(g.StrongHash) != ref(g.FileChecksumHash) && ref(g.StrongHash) != ref(g.WeakRollingHash)
  ensures fresh(ref(g.StrongHash)) && fresh(ref(g.FileChecksumHash)) && fresh(ref(g.WeakRollingHash)) && hashalg(g.StrongHash) == stdalg()

prop C06 filechecksum.FileChecksumGenerator.GenerateChecksums filechecksum.FileChecksumGenerator.StartChecksumGeneration filechecksum.FileChecksumGenerator.generate filechecksum.readBlock filechecksum.NewFileChecksumGenerator rollsum.Rollsum32Base.Size<:filechecksum.RollingHash.Size rollsum.Rollsum32Base.SetBlock<:filechecksum.RollingHash.SetBlock rollsum.Rollsum32Base.GetSum<:filechecksum.RollingHash.GetSum rollsum.Rollsum32Base.Reset<:filechecksum.RollingHash.Reset
propinfo C06 explain generate is proved to send, on the result channel, entries numbered from zero without gaps, entry i carrying the weak and strong checksums of block i of what the reader delivers, then (after the last block) exactly one message with the checksum of everything read, or one with the error when reading or compressing fails, and to send nothing after that and to close the channel; sent entries are proved not to be written again. GenerateChecksums is proved, over that channel contract, to write the concatenation of weak and strong checksums and to return the whole checksum, or an error when reading or writing failed. Rollsum32Base is proved to refine the rolling hash contract used
propinfo C06 assume the reader's error is reported with or after its last bytes (io.Reader contract); hashes are functions of the bytes written since Reset; Write writes all bytes or reports an error; the two hashes, the reader and the rolling hash are different objects; block size below 2^60, at most 2^20 blocks per result, input below 2^62 bytes
propinfo C06 assume a channel delivers the messages sent on it in order; the goroutine started by StartChecksumGeneration is verified on its own and touches nothing that its starter uses before the channel is closed
