package comparer

# ---------------------------------------------------------------- C08, C09
# An index: idxhas(idx, weak, strong, b) - block b is in it with these checksums.  A weak lookup returns a value w that
# stands for the entries with that weak checksum: wlhas(w, strong, b).
fun idxhas(any, seq, seq, int) bool
fun wlhas(any, seq, int) bool

iface comparer.Index.FindWeakChecksum2(x, chk) returns w
  ensures w == nil ==> (forall s seq, b int {idxhas(x, chk[*], s, b)} :: !idxhas(x, chk[*], s, b))
  ensures w != nil ==> (forall s seq, b int {idxhas(x, chk[*], s, b)} {wlhas(w, s, b)} :: wlhas(w, s, b) <==> idxhas(x, chk[*], s, b))

iface comparer.Index.FindStrongChecksum2(x, chk, weak) returns l
  ensures forall j int {l[j].ChunkOffset} :: 0 <= j && j < len(l) ==> wlhas(weak, chk[*], l[j].ChunkOffset)
  ensures forall b int {wlhas(weak, chk[*], b)} :: wlhas(weak, chk[*], b) ==> (exists j int {blk(j)} :: blk(j) && 0 <= j && j < len(l) && l[j].ChunkOffset == b)

# sets of pairs (offset, block)
sort pset
fun pempty() pset
fun padd(pset, int, int) pset
fun phas(pset, int, int) bool
fun pany(pset, int) bool
defaxiom pempty_has: forall a int, b int {phas(pempty(), a, b)} :: !phas(pempty(), a, b)
defaxiom pempty_any: forall a int {pany(pempty(), a)} :: !pany(pempty(), a)
defaxiom padd_has: forall s pset, a int, b int, x int, y int {phas(padd(s, a, b), x, y)} :: phas(padd(s, a, b), x, y) <==> x == a && y == b || phas(s, x, y)
defaxiom padd_any: forall s pset, a int, b int, x int {pany(padd(s, a, b), x)} :: pany(padd(s, a, b), x) <==> x == a || pany(s, x)

# What a stream of matches describes: the data (cin, delivered by crd), where it starts (cbase), the block size, the hashes and the index.
ghost cin seq
ghost crd any
ghost cbase int
ghost cbs int
ghost cweak any
ghost cstrong int
ghost cidx any
# what was sent, and whether an error was; what was received, and whether an error was
ghost csent pset
ghost cserr bool
ghost crecv pset
ghost crerr bool
# readers made from a section of a file: the file, and offset and length of the section (and the same for a stream: what it was made from)
ghost secof any
ghost secat int
ghost seclen int
ghost csecof any
ghost csecat int
ghost cseclen int
# a set of pairs (absolute offset, block) that all messages lie in: any such set may be chosen by the sender
ghost cgood pset
# the matches of some data (delivered from absolute offset base on) with an index
fun matchset(seq, int, any, int, any, int) pset

# the window of the data at o: a whole block, or the shorter rest
fun window(seq, int, int) seq
defaxiom window_is: forall s seq, o int, bs int {window(s, o, bs)} :: window(s, o, bs) == s[o:min(o + bs, len(s))]
# block b of the index has the checksums of the window at o
def matches(c ref, o int, b int) bool = idxhas(c.cidx, weaksum(c.cweak, window(c.cin, o, c.cbs)), digest(c.cstrong, window(c.cin, o, c.cbs)), b)
def okmsg(c ref, m comparer.BlockMatchResult) bool =
  (m.Err != nil ==> rerr(c.crd) != io.EOF || len(c.cin) < c.cbs)
  && (m.Err == nil ==> 0 <= m.ComparisonOffset - c.cbase && m.ComparisonOffset - c.cbase <= len(c.cin) && matches(c, m.ComparisonOffset - c.cbase, m.BlockIdx) && (m.ComparisonOffset - c.cbase + c.cbs > len(c.cin) ==> rerr(c.crd) == io.EOF))
defaxiom matchset_has: forall d seq, bs int, w any, h int, x any, base int, o int, b int {phas(matchset(d, bs, w, h, x, base), o, b)} :: phas(matchset(d, bs, w, h, x, base), o, b) <==> 0 <= o - base && o - base <= len(d) && idxhas(x, weaksum(w, window(d, o - base, bs)), digest(h, window(d, o - base, bs)), b)
# o lies inside a match of the set
def inside(s pset, o int, bs int) bool = exists p int {blk(p)} :: blk(p) && p < o && o < p + bs && pany(s, p)
# every window before n has all its matches in the set, or lies inside a match of the set
def allfound(c ref, s pset, n int) bool = forall o int, b int {idxhas(c.cidx, weaksum(c.cweak, window(c.cin, o, c.cbs)), digest(c.cstrong, window(c.cin, o, c.cbs)), b)} :: 0 <= o && o < n && matches(c, o, b) ==> phas(s, o, b) || inside(s, o, c.cbs)

chan comparer.BlockMatchResult(c, m)
  send !c.cserr && okmsg(ref(c), m)
  send m.Err == nil ==> phas(c.cgood, m.ComparisonOffset, m.BlockIdx)
  sendghost c.csent := if m.Err == nil then padd(c.csent, m.ComparisonOffset - c.cbase, m.BlockIdx) else c.csent
  sendghost c.cserr := m.Err != nil
  close c.cserr || rerr(c.crd) == io.EOF && len(c.cin) >= c.cbs && allfound(ref(c), c.csent, len(c.cin))
  recv !c.crerr && okmsg(ref(c), m)
  recv m.Err == nil ==> phas(c.cgood, m.ComparisonOffset, m.BlockIdx)
  recvghost c.crecv := if ok && m.Err == nil then padd(c.crecv, m.ComparisonOffset - c.cbase, m.BlockIdx) else c.crecv
  recvghost c.crerr := if ok then m.Err != nil else c.crerr
  closed c.crerr || rerr(c.crd) == io.EOF && len(c.cin) >= c.cbs && allfound(ref(c), c.crecv, len(c.cin))

func comparer.readBlock(r, block) returns n, err
  requires r != nil
  modifies r.rem, block[*]
  ensures 0 <= n && n <= len(block) && n <= len(old(r.rem))
  ensures block[:n] == old(r.rem)[:n]
  ensures r.rem == old(r.rem)[n:]
  ensures err != nil ==> n < len(block) && len(r.rem) == 0 && err == rerr(r)
  ensures n < len(block) ==> err != nil
  ensures forall k int {row(block)[k]} :: k < off(block) || k >= off(block) + len(block) ==> row(block)[k] == old(row(block))[k]
  loop 1
    modifies r.rem, block[*]
    invariant 0 <= n && n <= len(block) && n <= len(old(r.rem))
    invariant block[:n] == old(r.rem)[:n]
    invariant r.rem == old(r.rem)[n:]
    invariant err != nil ==> len(r.rem) == 0 && err == rerr(r)
    invariant forall k int {row(block)[k]} :: k < off(block) || k >= off(block) + len(block) ==> row(block)[k] == old(row(block))[k]

extern fmt.Errorf(format, a) returns err
  ensures err != nil

func comparer.Comparer.startFindMatchingBlocks_int(c, results, comparison, baseOffset, generator, reference)
  requires c != nil && results != nil && comparison != nil && generator != nil && reference != nil && generator.WeakRollingHash != nil && generator.StrongHash != nil
  requires 1 <= generator.BlockSize && generator.BlockSize <= 1152921504606846976 && len(comparison.rem) <= 2305843009213693952 && -2305843009213693952 <= baseOffset && baseOffset <= 2305843009213693952
  requires !results.chclosed
  requires ref(comparison) != ref(generator.WeakRollingHash) && ref(comparison) != ref(generator.StrongHash) && ref(generator.StrongHash) != ref(generator.WeakRollingHash)
  modifies c.Comparisons, c.WeakHashHits, c.StrongHashHits, comparison.rem, generator.WeakRollingHash.win, generator.StrongHash.hin, results.sentN, results.chclosed, results.csent, results.cserr
  modifies results.cin, results.crd, results.cbase, results.cbs, results.cweak, results.cstrong, results.cidx, results.crecv, results.crerr, results.cgood, results.csecof, results.csecat, results.cseclen
  ghostset @entry results.cin := comparison.rem
  ghostset @entry results.crd := comparison
  ghostset @entry results.cbase := baseOffset
  ghostset @entry results.cbs := generator.BlockSize
  ghostset @entry results.cweak := generator.WeakRollingHash
  ghostset @entry results.cstrong := hashalg(generator.StrongHash)
  ghostset @entry results.cidx := reference
  ghostset @entry results.csecof := comparison.secof
  ghostset @entry results.csecat := comparison.secat
  ghostset @entry results.cseclen := comparison.seclen
  ghostset @entry results.csent := pempty()
  ghostset @entry results.cserr := false
  ghostset @entry results.crecv := pempty()
  ghostset @entry results.crerr := false
  ghostset @entry results.cgood := matchset(comparison.rem, generator.BlockSize, generator.WeakRollingHash, hashalg(generator.StrongHash), reference, baseOffset)
  ensures results.cin == old(comparison.rem) && results.crd == comparison && results.cbase == baseOffset && results.cbs == generator.BlockSize && results.cweak == generator.WeakRollingHash && results.cstrong == hashalg(generator.StrongHash) && results.cidx == reference
  ensures results.crecv == pempty() && !results.crerr
  ensures results.csecof == comparison.secof && results.csecat == comparison.secat && results.cseclen == comparison.seclen
  ensures results.cgood == matchset(old(comparison.rem), generator.BlockSize, generator.WeakRollingHash, hashalg(generator.StrongHash), reference, baseOffset)
  ensures results.chclosed
  loop 1
    modifies c.Comparisons, c.WeakHashHits, c.StrongHashHits, comparison.rem, generator.WeakRollingHash.win, generator.StrongHash.hin, results.sentN, results.csent, results.cserr, block[*], singleByte[*], weaksum[*], strongSum[*]
    modifies blockMemory.lastWritten, blockMemory.totalWritten, blockMemory.a.head, blockMemory.b.head, blockMemory.a.str, blockMemory.b.str, blockMemory.a.buffer[*], blockMemory.b.buffer[*], blockMemory.data, blockMemory.ev
    invariant inv(blockMemory) && blockMemory.totalWritten <= i + generator.BlockSize
    invariant !results.cserr && !results.chclosed && next != 1
    invariant 0 <= i && i + len(blockMemory.data) + len(comparison.rem) == len(old(comparison.rem))
    invariant comparison.rem == old(comparison.rem)[i + len(blockMemory.data):]
    invariant blockMemory.data == window(old(comparison.rem), i, generator.BlockSize)
    invariant generator.WeakRollingHash.win == blockMemory.data
    invariant len(blockMemory.data) <= generator.BlockSize && (len(blockMemory.data) < generator.BlockSize ==> next == 2)
    invariant next == 0 || next == 2
    invariant next == 2 ==> err == io.EOF && rerr(comparison) == io.EOF && len(comparison.rem) == 0
    invariant next == 0 ==> err == nil
    invariant len(old(comparison.rem)) >= generator.BlockSize
    invariant loopfresh(strongSum) || arr(strongSum) == arr(pre(strongSum))
    invariant len(weaksum) == wsize(generator.WeakRollingHash)
    invariant (len(strongSum) == 0) && fresh(strongSum) && arr(strongSum) != arr(blockMemory.a.buffer) && arr(strongSum) != arr(blockMemory.b.buffer) && arr(strongSum) != arr(block) && arr(strongSum) != arr(singleByte) && arr(strongSum) != arr(weaksum)
    invariant fresh(blockMemory.a.buffer) && fresh(blockMemory.b.buffer) && arr(blockMemory.a.buffer) != arr(block) && arr(blockMemory.b.buffer) != arr(block) && arr(blockMemory.a.buffer) != arr(singleByte) && arr(blockMemory.b.buffer) != arr(singleByte) && arr(blockMemory.a.buffer) != arr(weaksum) && arr(blockMemory.b.buffer) != arr(weaksum)
    invariant allfound(ref(results), results.csent, i)
    headhint blk(i)
    hint weaksum[*] == weaksum(generator.WeakRollingHash, window(results.cin, at_head(i), results.cbs))
    hint forall b int {phas(results.csent, at_head(i), b)} {idxhas(results.cidx, weaksum(results.cweak, window(results.cin, at_head(i), results.cbs)), digest(results.cstrong, window(results.cin, at_head(i), results.cbs)), b)} :: matches(ref(results), at_head(i), b) ==> phas(results.csent, at_head(i), b)
    hint allfound(ref(results), results.csent, at_head(i) + 1)
    hint i <= at_head(i) + 1 || pany(results.csent, at_head(i)) && i <= at_head(i) + generator.BlockSize
  loop 2
    modifies results.sentN, results.csent, results.cserr
    headhint weaksum[*] == weaksum(generator.WeakRollingHash, blockMemory.data)
    headhint forall k int {strongList[k].ChunkOffset} :: 0 <= k && k < len(strongList) ==> wlhas(weakMatchList, digest(hashalg(generator.StrongHash), blockMemory.data), strongList[k].ChunkOffset)
    headhint forall b int {wlhas(weakMatchList, digest(hashalg(generator.StrongHash), blockMemory.data), b)} :: wlhas(weakMatchList, digest(hashalg(generator.StrongHash), blockMemory.data), b) ==> matches(ref(results), i, b)
    headhint off - baseOffset == i
    headhint $rangeindex + 1 < len(strongList) ==> matches(ref(results), i, strongList[$rangeindex + 1].ChunkOffset)
    invariant !results.cserr
    invariant allfound(ref(results), results.csent, i)
    invariant forall k int {strongList[k].ChunkOffset} :: 0 <= k && k <= $rangeindex ==> phas(results.csent, i, strongList[k].ChunkOffset)
    invariant $rangeindex >= 0 ==> pany(results.csent, i)

func comparer.Comparer.StartFindMatchingBlocks(c, comparison, baseOffset, generator, referenceIndex) returns ch
  requires c != nil && comparison != nil && generator != nil && referenceIndex != nil && generator.WeakRollingHash != nil && generator.StrongHash != nil
  requires 1 <= generator.BlockSize && generator.BlockSize <= 1152921504606846976 && len(comparison.rem) <= 2305843009213693952 && -2305843009213693952 <= baseOffset && baseOffset <= 2305843009213693952
  requires ref(comparison) != ref(generator.WeakRollingHash) && ref(comparison) != ref(generator.StrongHash) && ref(generator.StrongHash) != ref(generator.WeakRollingHash)
  modifies c.Comparisons, c.WeakHashHits, c.StrongHashHits, comparison.rem, generator.WeakRollingHash.win, generator.StrongHash.hin
  ensures ch != nil && fresh(ch) && ch.cin == old(comparison.rem) && ch.crd == comparison && ch.cbase == baseOffset && ch.cbs == generator.BlockSize && ch.cweak == generator.WeakRollingHash && ch.cstrong == hashalg(generator.StrongHash) && ch.cidx == referenceIndex
  ensures ch.crecv == pempty() && !ch.crerr
  ensures ch.csecof == comparison.secof && ch.csecat == comparison.secat && ch.cseclen == comparison.seclen
  ensures ch.cgood == matchset(old(comparison.rem), generator.BlockSize, generator.WeakRollingHash, hashalg(generator.StrongHash), referenceIndex, baseOffset)

prop C08 comparer.Comparer.startFindMatchingBlocks_int comparer.Comparer.StartFindMatchingBlocks comparer.readBlock circularbuffer.MakeC2Buffer circularbuffer.C2.Write circularbuffer.C2.Truncate circularbuffer.C2.GetBlock circularbuffer.C2.Evicted circularbuffer.C2.Len circularbuffer.C2.Empty rollsum.Rollsum32Base.SetBlock<:filechecksum.RollingHash.SetBlock rollsum.Rollsum32Base.GetSum<:filechecksum.RollingHash.GetSum rollsum.Rollsum32Base.RemoveBytes<:filechecksum.RollingHash.RemoveBytes rollsum.Rollsum32Base.AddAndRemoveBytes<:filechecksum.RollingHash.AddAndRemoveBytes
propinfo C08 explain at every send on the result channel it is proved that the message is an error (only after a failed or too short read), or names an index block whose weak and strong checksums are those of the window of the delivered data at the reported offset minus the base offset; the window is a whole block, or the shorter rest once the data has ended. The loop invariant ties the circular buffer and the rolling hash to that window, for all data, splits and indexes
propinfo C08 assume the index answers lookups from one fixed set of (weak, strong, block) entries (what C05 proves of ChecksumIndex); hashes are functions of the bytes written since Reset; the reader obeys the io.Reader contract; reader and hashes are different objects; offsets and data below 2^61
prop C09 comparer.Comparer.startFindMatchingBlocks_int comparer.Comparer.StartFindMatchingBlocks comparer.readBlock circularbuffer.MakeC2Buffer circularbuffer.C2.Write circularbuffer.C2.Truncate circularbuffer.C2.GetBlock circularbuffer.C2.Evicted circularbuffer.C2.Len circularbuffer.C2.Empty rollsum.Rollsum32Base.SetBlock<:filechecksum.RollingHash.SetBlock rollsum.Rollsum32Base.GetSum<:filechecksum.RollingHash.GetSum rollsum.Rollsum32Base.RemoveBytes<:filechecksum.RollingHash.RemoveBytes rollsum.Rollsum32Base.AddAndRemoveBytes<:filechecksum.RollingHash.AddAndRemoveBytes
propinfo C09 explain the loop invariant is that every (offset, block) match starting before the current position was sent or starts inside a match that was sent; at the close of the channel it is proved that either an error was sent (and nothing after it), or the data was read to its end without error, is at least one block long, and the set of sent matches is complete for every window, the shorter ones at the end included
propinfo C09 assume as for C08; a reader that keeps returning no bytes and no error is not considered (termination is not proved)
