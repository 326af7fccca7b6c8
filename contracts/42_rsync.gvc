package gosync

# ---------------------------------------------------------------- C20
# A section reader delivers what the file has in the section; buffering changes nothing about that.
extern io.NewSectionReader(r, off, n) returns s
  requires off >= 0 && n >= 0
  ensures s != nil && fresh(s) && s.secof == r && s.secat == off && s.seclen == n
  ensures len(s.rem) <= min(n, max(len(content(r)) - off, 0)) && s.rem == content(r)[off:off + len(s.rem)]

extern bufio.NewReaderSize(rd, size) returns b
  ensures b != nil && fresh(b) && b.rem == rd.rem && !islimited(b) && rerr(b) == rerr(rd) && b.secof == rd.secof && b.secat == rd.secat && b.seclen == rd.seclen

# ---------------------------------------------------------------- C01
# a summary: block size, number of blocks, size, and the content of the file it describes
fun sumbs(any) int
fun sumcount(any) int
fun sumsize(any) int
fun refcontent(any) seq

iface gosync.FileSummary.GetBlockSize(s) returns n
  ensures n == sumbs(s)
iface gosync.FileSummary.GetBlockCount(s) returns n
  ensures n == sumcount(s)
iface gosync.FileSummary.GetFileSize(s) returns n
  ensures n == sumsize(s)

func gosync.BasicSummary.GetBlockSize(fs) returns n
  requires fs != nil
  ensures n == fs.BlockSize
func gosync.BasicSummary.GetBlockCount(fs) returns n
  requires fs != nil
  ensures n == fs.BlockCount
func gosync.BasicSummary.GetFileSize(fs) returns n
  requires fs != nil
  ensures n == fs.FileSize

# block b of the reference
fun refblock(seq, int, int) seq
defaxiom refblock_is: forall r seq, b int, bs int {refblock(r, b, bs)} :: refblock(r, b, bs) == r[bmul(b, bs):min(bmul(b, bs) + bs, len(r))]
# the pairs (offset, block) such that the local content has the block at the offset
fun goodset(seq, seq, int, int) pset
defaxiom goodset_has: forall l seq, r seq, bs int, n int, o int, b int {phas(goodset(l, r, bs, n), o, b)} :: phas(goodset(l, r, bs, n), o, b) <==> 0 <= b && b < n && 0 <= o && o + len(refblock(r, b, bs)) <= len(l) && l[o:o + len(refblock(r, b, bs))] == refblock(r, b, bs)
# the index describes the reference, and no other window has the strong checksum of one of its blocks
def describes(x any, r seq, bs int, n int) bool = forall w seq, s seq, b int {idxhas(x, w, digest(stdalg(), s), b)} :: idxhas(x, w, digest(stdalg(), s), b) ==> 0 <= b && b < n && s == refblock(r, b, bs)
def sized(n int, size int, bs int) bool = 0 <= n && 0 <= size && (n == 0 <==> size == 0) && (n > 0 ==> bmul(n - 1, bs) < size && size <= bmul(n, bs))
lemma sectwin: forall c seq, a int, n int, p int, bs int {window(c[a:n], p, bs)} :: 0 <= a && 0 <= p && a + p <= n && n <= len(c) && 0 <= bs ==> window(c[a:n], p, bs) == c[a + p:a + p + len(window(c[a:n], p, bs))]

func gosync.toPatcherFoundSpan(sl, blockSize) returns out
  ensures len(out) == len(sl) && fresh(out)
  ensures forall i int {out[i].StartBlock} {sl[i].StartBlock} :: 0 <= i && i < len(out) ==> out[i].StartBlock == sl[i].StartBlock && out[i].EndBlock == sl[i].EndBlock && out[i].MatchOffset == sl[i].ComparisonStartOffset && out[i].BlockSize == blockSize
  loop 1
    invariant forall i int {result[i].StartBlock} :: 0 <= i && i <= $rangeindex ==> result[i].StartBlock == sl[i].StartBlock && result[i].EndBlock == sl[i].EndBlock && result[i].MatchOffset == sl[i].ComparisonStartOffset && result[i].BlockSize == blockSize

func gosync.toPatcherMissingSpan(sl, blockSize) returns out
  ensures len(out) == len(sl) && fresh(out)
  ensures forall i int {out[i].StartBlock} {sl[i].StartBlock} :: 0 <= i && i < len(out) ==> out[i].StartBlock == sl[i].StartBlock && out[i].EndBlock == sl[i].EndBlock && out[i].BlockSize == blockSize
  loop 1
    invariant forall i int {result[i].StartBlock} :: 0 <= i && i <= $rangeindex ==> result[i].StartBlock == sl[i].StartBlock && result[i].EndBlock == sl[i].EndBlock && result[i].BlockSize == blockSize

# the last block, if it is partial and was found, gets a span of its own
def ispartial(l "[]patcher.FoundBlockSpan", last int, size int) bool = len(l) > 0 && l[len(l)-1].EndBlock == last && size - bmul(last, l[len(l)-1].BlockSize) < l[len(l)-1].BlockSize
func gosync.splitPartialBlock(spans, lastBlock, fileSize) returns out
  requires forall i int {spans[i].StartBlock} :: 0 <= i && i < len(spans) ==> spans[i].StartBlock <= spans[i].EndBlock && spans[i].EndBlock <= lastBlock
  requires len(spans) > 0 ==> 1 <= spans[len(spans)-1].BlockSize && spans[len(spans)-1].BlockSize <= 1073741824 && lastBlock <= 1152921504606846976 && bmul(lastBlock, spans[len(spans)-1].BlockSize) <= 1152921504606846976 && 0 <= fileSize && -1152921504606846976 <= spans[len(spans)-1].MatchOffset && spans[len(spans)-1].MatchOffset <= 1152921504606846976
  modifies spans[*]
  ensures arr(out) == arr(spans) && off(out) == off(spans) || fresh(out)
  ensures forall i int {out[i].StartBlock} {old(spans[i].StartBlock)} :: 0 <= i && i < len(spans) - 1 ==> out[i] == old(spans[i])
  ensures old(!ispartial(spans, lastBlock, fileSize)) ==> len(out) == len(spans) && (len(spans) > 0 ==> out[len(spans)-1] == old(spans[len(spans)-1]))
  ensures old(ispartial(spans, lastBlock, fileSize)) ==> len(out) == (if old(spans[len(spans)-1].StartBlock) == lastBlock then len(spans) else len(spans) + 1)
  ensures old(ispartial(spans, lastBlock, fileSize)) ==> out[len(out)-1].StartBlock == lastBlock && out[len(out)-1].EndBlock == lastBlock && out[len(out)-1].BlockSize == fileSize - bmul(lastBlock, old(spans[len(spans)-1].BlockSize)) && out[len(out)-1].MatchOffset == spanat(old(spans[len(spans)-1].MatchOffset), old(spans[len(spans)-1].StartBlock), lastBlock, old(spans[len(spans)-1].BlockSize))
  ensures old(ispartial(spans, lastBlock, fileSize)) && len(out) == len(spans) + 1 ==> out[len(spans)-1].StartBlock == old(spans[len(spans)-1].StartBlock) && out[len(spans)-1].EndBlock == lastBlock - 1 && out[len(spans)-1].BlockSize == old(spans[len(spans)-1].BlockSize) && out[len(spans)-1].MatchOffset == old(spans[len(spans)-1].MatchOffset)

# the source delivers bytes of the reference from the start of the block on, to the end of some block
fun rlast(any, int) int
def sourced(s any, r seq, bs int) bool = forall k int {response(s, k).StartBlock} :: rlast(s, k) >= response(s, k).StartBlock && response(s, k).Data[*] == r[bmul(response(s, k).StartBlock, bs):min(bmul(rlast(s, k) + 1, bs), len(r))]

# n bytes of w from x on are those of v from y on
fun same(seq, int, seq, int, int) bool
defaxiom same_is: forall w seq, x int, v seq, y int, n int {same(w, x, v, y, n)} :: same(w, x, v, y, n) <==> 0 <= n && 0 <= x && 0 <= y && x + n <= len(w) && y + n <= len(v) && w[x:x + n] == v[y:y + n]
lemma same_at: forall w seq, x int, v seq, y int, n int, k int {same(w, x, v, y, n), w[k]} :: same(w, x, v, y, n) && x <= k && k < x + n ==> w[k] == v[k - x + y]
  use same(w, x, v, y, n) && x <= k && k < x + n ==> w[x:x + n][k - x] == v[y:y + n][k - x]
lemma same_sub: forall w seq, x int, v seq, y int, n int, c int, d int, m int {same(w, x, v, y, n), same(w, c, v, d, m)} :: same(w, x, v, y, n) && 0 <= m && x <= c && c + m <= x + n && d == y + (c - x) ==> same(w, c, v, d, m)
  use same(w, x, v, y, n) && 0 <= m && x <= c && c + m <= x + n && d == y + (c - x) ==> w[c:c + m] == v[d:d + m]
lemma same_cat: forall w seq, x int, v seq, y int, n int, c int, d int, m int {same(w, x, v, y, n), same(w, c, v, d, m)} :: same(w, x, v, y, n) && same(w, c, v, d, m) && c == x + n && d == y + n ==> same(w, x, v, y, n + m)
  use same(w, x, v, y, n) && same(w, c, v, d, m) && c == x + n && d == y + n ==> w[x:x + (n + m)] == v[y:y + (n + m)]
# the bytes of a span
def flen(s patcher.FoundBlockSpan, bs int) int = if s.BlockSize == bs then bmul(s.EndBlock + 1, bs) - bmul(s.StartBlock, bs) else s.BlockSize
def mlen(s patcher.MissingBlockSpan, bs int, size int) int = min(bmul(s.EndBlock + 1, bs), size) - bmul(s.StartBlock, bs)
lemma avail_same: forall r any, o int, n int {avail(r, o)[:n]} :: o >= 0 && 0 <= n && n <= len(avail(r, o)) ==> avail(r, o)[:n] == content(r)[o:o + n]
# the first n blocks of r are in w from x on
fun inplace(seq, int, seq, int, int) bool
defaxiom inplace_is: forall w seq, x int, r seq, bs int, n int {inplace(w, x, r, bs, n)} :: inplace(w, x, r, bs, n) <==> (forall b int {blk(b)} :: blk(b) && 0 <= b && b < n ==> same(w, x + bmul(b, bs), r, bmul(b, bs), len(refblock(r, b, bs))))
lemma inplace_same: forall w seq, x int, r seq, bs int, n int {inplace(w, x, r, bs, n)} :: n >= 0 && bs >= 0 && 0 <= x && x <= len(w) && inplace(w, x, r, bs, n) && (n == 0 || bmul(n - 1, bs) < len(r)) ==> same(w, x, r, 0, min(bmul(n, bs), len(r)))
  induction n
  use n > 0 && inplace(w, x, r, bs, n) ==> inplace(w, x, r, bs, n - 1) && blk(n - 1) && same(w, x + bmul(n - 1, bs), r, bmul(n - 1, bs), len(refblock(r, n - 1, bs)))
  use n > 0 && bs >= 0 ==> bmul(n, bs) == bmul(n - 1, bs) + bs && bmul(n - 1, bs) >= 0
  use n == 0 ==> bmul(n, bs) == 0

func gosync.RSync.Patch(rsync) returns err
  requires rsync != nil && rsync.Summary != nil && rsync.Input != nil && rsync.Output != nil && rsync.Input != rsync.Output && rsync.Source != rsync.Input && rsync.Source != rsync.Output
  requires filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil
  requires 1 <= gosync.DefaultConcurrency && gosync.DefaultConcurrency <= 65536
  requires 1 <= sumbs(rsync.Summary) && sumbs(rsync.Summary) <= 1073741824 && sumsize(rsync.Summary) <= 70368744177664 && len(content(rsync.Input)) <= 70368744177664
  requires sized(sumcount(rsync.Summary), sumsize(rsync.Summary), sumbs(rsync.Summary)) && len(refcontent(rsync.Summary)) == sumsize(rsync.Summary) && bmul(sumcount(rsync.Summary), sumbs(rsync.Summary)) <= 70368744177664 && sumcount(rsync.Summary) <= 70368744177664
  requires describes(rsync.Summary, refcontent(rsync.Summary), sumbs(rsync.Summary), sumcount(rsync.Summary))
  modifies rsync.Input.scanned, rsync.Input.rem, rsync.Input.seekfail, rsync.Output.wout, rsync.Output.wfail, rsync.Source.reqfirst, rsync.Source.reqlast, rsync.Source.reqfail, rchan(rsync.Source).recvN, echan(rsync.Source).recvN
  requires @=src sourced(rsync.Source, refcontent(rsync.Summary), sumbs(rsync.Summary))
  # success: the output is the reference
  ensures err == nil ==> rsync.Output.wout == old(rsync.Output.wout) ++ refcontent(rsync.Summary)
  hint before sequential.SequentialPatcher: @=lbs len($locallyAvailableBlocks) > 0 ==> $locallyAvailableBlocks[len($locallyAvailableBlocks)-1].BlockSize >= 1 && $locallyAvailableBlocks[len($locallyAvailableBlocks)-1].BlockSize <= sumbs(rsync.Summary)
  hint before sequential.SequentialPatcher: @=lspan forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> 0 <= $locallyAvailableBlocks[i].StartBlock && $locallyAvailableBlocks[i].StartBlock <= $locallyAvailableBlocks[i].EndBlock && $locallyAvailableBlocks[i].EndBlock <= sumcount(rsync.Summary) - 1 && $locallyAvailableBlocks[i].MatchOffset >= 0 && ($locallyAvailableBlocks[i].BlockSize == sumbs(rsync.Summary) && ($locallyAvailableBlocks[i].EndBlock == sumcount(rsync.Summary) - 1 ==> sumsize(rsync.Summary) == bmul(sumcount(rsync.Summary), sumbs(rsync.Summary))) || $locallyAvailableBlocks[i].StartBlock == sumcount(rsync.Summary) - 1 && i == len($locallyAvailableBlocks) - 1 && $locallyAvailableBlocks[i].BlockSize == sumsize(rsync.Summary) - bmul(sumcount(rsync.Summary) - 1, sumbs(rsync.Summary)))
  hint before sequential.SequentialPatcher: @=lord forall i int, j int {$locallyAvailableBlocks[i].StartBlock, $locallyAvailableBlocks[j].StartBlock} :: 0 <= i && i < j && j < len($locallyAvailableBlocks) ==> $locallyAvailableBlocks[i].EndBlock < $locallyAvailableBlocks[j].StartBlock
  hint before sequential.SequentialPatcher: @=cover forall b int {blk(b)} :: blk(b) && 0 <= b && b <= sumcount(rsync.Summary) - 1 ==> (exists i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) && $locallyAvailableBlocks[i].StartBlock <= b && b <= $locallyAvailableBlocks[i].EndBlock) || (exists j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) && $requiredRemoteBlocks[j].StartBlock <= b && b <= $requiredRemoteBlocks[j].EndBlock)
  hint before sequential.SequentialPatcher: blk(0) && blk(sumcount(rsync.Summary) - 1) && maxof($locallyAvailableBlocks, $requiredRemoteBlocks) == sumcount(rsync.Summary) - 1
  hint before sequential.SequentialPatcher: len($requiredRemoteBlocks) == 0 ==> $locallyAvailableBlocks[0].StartBlock == 0
  hint before sequential.SequentialPatcher: bsof($locallyAvailableBlocks, $requiredRemoteBlocks) == sumbs(rsync.Summary) || sumcount(rsync.Summary) == 1 && len($requiredRemoteBlocks) == 0 && len($locallyAvailableBlocks) == 1 && bsof($locallyAvailableBlocks, $requiredRemoteBlocks) == sumsize(rsync.Summary)
  hint before sequential.SequentialPatcher: @=mspan forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> 0 <= $requiredRemoteBlocks[j].StartBlock && $requiredRemoteBlocks[j].StartBlock <= $requiredRemoteBlocks[j].EndBlock && $requiredRemoteBlocks[j].EndBlock <= sumcount(rsync.Summary) - 1 && $requiredRemoteBlocks[j].BlockSize == sumbs(rsync.Summary)
  hint before sequential.SequentialPatcher: @=lgood forall i int, b int {spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, b, sumbs(rsync.Summary))} :: 0 <= i && i < len($locallyAvailableBlocks) && $locallyAvailableBlocks[i].StartBlock <= b && b <= $locallyAvailableBlocks[i].EndBlock ==> mark(b) && phas(goodset(content(rsync.Input), refcontent(rsync.Summary), sumbs(rsync.Summary), sumcount(rsync.Summary)), spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, b, sumbs(rsync.Summary)), b)
  hint after sequential.SequentialPatcher: @=flen+!+lspan+-mul_mono forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> bmul($locallyAvailableBlocks[i].EndBlock + 1, sumbs(rsync.Summary)) == bmul($locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)) + sumbs(rsync.Summary) && bmul($locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)) >= bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) && bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) >= 0 && len(refblock(refcontent(rsync.Summary), $locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary))) == (if $locallyAvailableBlocks[i].BlockSize == sumbs(rsync.Summary) then sumbs(rsync.Summary) else $locallyAvailableBlocks[i].BlockSize) && flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) >= 0 && bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) + flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) <= sumsize(rsync.Summary) && flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) == bmul($locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)) - bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) + len(refblock(refcontent(rsync.Summary), $locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)))
  hint after sequential.SequentialPatcher: @=fend+!+lspan+lgood forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, $locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)) + len(refblock(refcontent(rsync.Summary), $locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary))) <= len(content(rsync.Input)) && spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, $locallyAvailableBlocks[i].EndBlock, sumbs(rsync.Summary)) >= 0
  hint after sequential.SequentialPatcher: @=fpos+!+lspan+fend+flen+-mul_mono+-mul_ge+-mul_ge2+-bmul_is forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> $locallyAvailableBlocks[i].MatchOffset + flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) <= len(content(rsync.Input))
  hint after sequential.SequentialPatcher: @=mpos+!+mspan forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)) >= 0 && mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary)) >= 0 && bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)) + mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary)) <= sumsize(rsync.Summary) && bmul($requiredRemoteBlocks[j].EndBlock + 1, sumbs(rsync.Summary)) == bmul($requiredRemoteBlocks[j].EndBlock, sumbs(rsync.Summary)) + sumbs(rsync.Summary)
  hint after sequential.SequentialPatcher: @=fin+!+found $err == nil ==> (forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> foundin(rsync.Output.wout, len(old(rsync.Output.wout)), rsync.Input, $locallyAvailableBlocks[i], bsof($locallyAvailableBlocks, $requiredRemoteBlocks), sumcount(rsync.Summary) - 1))
  hint after sequential.SequentialPatcher: @=favail+!+fin+lspan+flen+fpos $err == nil ==> (forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> len(avail(rsync.Input, $locallyAvailableBlocks[i].MatchOffset)) >= flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) && rsync.Output.wout[len(old(rsync.Output.wout)) + bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)):len(old(rsync.Output.wout)) + bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) + flen($locallyAvailableBlocks[i], sumbs(rsync.Summary))] == avail(rsync.Input, $locallyAvailableBlocks[i].MatchOffset)[:flen($locallyAvailableBlocks[i], sumbs(rsync.Summary))])
  hint after sequential.SequentialPatcher: @=min+!+missing $err == nil ==> (forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> missingin(rsync.Output.wout, len(old(rsync.Output.wout)), response(rsync.Source, pre(rchan(rsync.Source).recvN) + j), $requiredRemoteBlocks[j], sumbs(rsync.Summary), sumcount(rsync.Summary) - 1))
  hint after sequential.SequentialPatcher: @=mlen+!+min+src+mspan+mpos $err == nil ==> (forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> response(rsync.Source, pre(rchan(rsync.Source).recvN) + j).StartBlock == $requiredRemoteBlocks[j].StartBlock && len(response(rsync.Source, pre(rchan(rsync.Source).recvN) + j).Data) == mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary)))
  hint after sequential.SequentialPatcher: $err == nil ==> (len(rsync.Output.wout) == len(old(rsync.Output.wout)) + sumsize(rsync.Summary))
  hint after sequential.SequentialPatcher: @=mcat+!+min+mlen+mspan+mpos $err == nil ==> (forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> rsync.Output.wout[len(old(rsync.Output.wout)) + bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)):len(old(rsync.Output.wout)) + bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)) + mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary))] == response(rsync.Source, pre(rchan(rsync.Source).recvN) + j).Data[*])
  hint after sequential.SequentialPatcher: @=fsame+!+favail+fpos+flen+lspan+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ+-avail_prefix $err == nil ==> (forall i int {$locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len($locallyAvailableBlocks) ==> same(rsync.Output.wout, len(old(rsync.Output.wout)) + bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)), content(rsync.Input), $locallyAvailableBlocks[i].MatchOffset, flen($locallyAvailableBlocks[i], sumbs(rsync.Summary))))
  hint after sequential.SequentialPatcher: @=msame+!+mcat+mlen+src+mpos+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_succ $err == nil ==> (forall j int {$requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len($requiredRemoteBlocks) ==> same(rsync.Output.wout, len(old(rsync.Output.wout)) + bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)), refcontent(rsync.Summary), bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)), mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary))))
  hint after sequential.SequentialPatcher: @=fcut+!+lspan+flen+-mul_mono forall i int, b int {$locallyAvailableBlocks[i].StartBlock, refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))} :: 0 <= i && i < len($locallyAvailableBlocks) && $locallyAvailableBlocks[i].StartBlock <= b && b <= $locallyAvailableBlocks[i].EndBlock ==> spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, b, sumbs(rsync.Summary)) == $locallyAvailableBlocks[i].MatchOffset + (bmul(b, sumbs(rsync.Summary)) - bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary))) && bmul(b + 1, sumbs(rsync.Summary)) == bmul(b, sumbs(rsync.Summary)) + sumbs(rsync.Summary) && bmul(b, sumbs(rsync.Summary)) + len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))) <= bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) + flen($locallyAvailableBlocks[i], sumbs(rsync.Summary)) && bmul(b, sumbs(rsync.Summary)) >= bmul($locallyAvailableBlocks[i].StartBlock, sumbs(rsync.Summary)) && bmul(b, sumbs(rsync.Summary)) >= 0 && bmul(b, sumbs(rsync.Summary)) + len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))) <= sumsize(rsync.Summary)
  hint after sequential.SequentialPatcher: @=mcut+!+mspan+mpos+-mul_mono forall j int, b int {$requiredRemoteBlocks[j].StartBlock, refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))} :: 0 <= j && j < len($requiredRemoteBlocks) && $requiredRemoteBlocks[j].StartBlock <= b && b <= $requiredRemoteBlocks[j].EndBlock ==> bmul(b + 1, sumbs(rsync.Summary)) == bmul(b, sumbs(rsync.Summary)) + sumbs(rsync.Summary) && bmul(b, sumbs(rsync.Summary)) + len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))) <= bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary)) + mlen($requiredRemoteBlocks[j], sumbs(rsync.Summary), sumsize(rsync.Summary)) && bmul(b, sumbs(rsync.Summary)) >= bmul($requiredRemoteBlocks[j].StartBlock, sumbs(rsync.Summary))
  hint after sequential.SequentialPatcher: @=fsub+!+fsame+fcut+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ $err == nil ==> (forall i int, b int {$locallyAvailableBlocks[i].StartBlock, refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))} :: 0 <= i && i < len($locallyAvailableBlocks) && $locallyAvailableBlocks[i].StartBlock <= b && b <= $locallyAvailableBlocks[i].EndBlock ==> same(rsync.Output.wout, len(old(rsync.Output.wout)) + bmul(b, sumbs(rsync.Summary)), content(rsync.Input), spanat($locallyAvailableBlocks[i].MatchOffset, $locallyAvailableBlocks[i].StartBlock, b, sumbs(rsync.Summary)), len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary)))))
  hint after sequential.SequentialPatcher: @=finpl+!+fsub+lgood+fcut+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ $err == nil ==> (forall i int, b int {$locallyAvailableBlocks[i].StartBlock, refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))} :: 0 <= i && i < len($locallyAvailableBlocks) && $locallyAvailableBlocks[i].StartBlock <= b && b <= $locallyAvailableBlocks[i].EndBlock ==> same(rsync.Output.wout, len(old(rsync.Output.wout)) + bmul(b, sumbs(rsync.Summary)), refcontent(rsync.Summary), bmul(b, sumbs(rsync.Summary)), len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary)))))
  hint after sequential.SequentialPatcher: @=minpl+!+msame+mcut+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ $err == nil ==> (forall j int, b int {$requiredRemoteBlocks[j].StartBlock, refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary))} :: 0 <= j && j < len($requiredRemoteBlocks) && $requiredRemoteBlocks[j].StartBlock <= b && b <= $requiredRemoteBlocks[j].EndBlock ==> same(rsync.Output.wout, len(old(rsync.Output.wout)) + bmul(b, sumbs(rsync.Summary)), refcontent(rsync.Summary), bmul(b, sumbs(rsync.Summary)), len(refblock(refcontent(rsync.Summary), b, sumbs(rsync.Summary)))))
  hint after sequential.SequentialPatcher: @=inpl+!+finpl+minpl+cover+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ $err == nil ==> (inplace(rsync.Output.wout, len(old(rsync.Output.wout)), refcontent(rsync.Summary), sumbs(rsync.Summary), sumcount(rsync.Summary)))
  hint after sequential.SequentialPatcher: @=all+!+inpl+-mul_mono+-mul_ge+-mul_ge2+-bmul_is+-bmul_mono+-bmul_succ $err == nil ==> (same(rsync.Output.wout, len(old(rsync.Output.wout)), refcontent(rsync.Summary), 0, sumsize(rsync.Summary)))
  ensures @+! sumcount(rsync.Summary) != 0 ==> rsync.Input.scanned >= sumsize(rsync.Summary)
  ghostset @entry rsync.Input.scanned := 0
  ghostset @loop1 merger.mbs := sumbs(rsync.Summary)
  ghostset @loop1 merger.mmax := sumcount(rsync.Summary) - 1
  ghostset @loop1 merger.mgood := goodset(content(rsync.Input), refcontent(rsync.Summary), sumbs(rsync.Summary), sumcount(rsync.Summary))
  loop 1
    modifies rsync.Input.scanned, merger.startEndBlockMap, merger.startEndBlockMap.thas, merger.startEndBlockMap.tval, merger.blockCount
    invariant 0 <= i && i <= numMatchers && (i == 0 ==> merger.startEndBlockMap == nil) && (i > 0 ==> merger.startEndBlockMap != nil) && fresh(merger)
    invariant merger.startEndBlockMap != nil ==> loopfresh(merger.startEndBlockMap) && tinv(ref(merger.startEndBlockMap), merger)
    invariant rsync.Input.scanned >= 0 && (i > 0 ==> rsync.Input.scanned >= i * sectionSize + 1)
    invariant mbounds(merger)
    decreases numMatchers - i

package main
# every block of an index has a number below the count
def idxbound(x any, n int) bool = forall w seq, s seq, b int {idxhas(x, w, s, b)} :: idxhas(x, w, s, b) ==> 0 <= b && b < n
# all pairs of small offsets and block numbers
fun boxset(int, int) pset
defaxiom boxset_has: forall l int, n int, o int, b int {phas(boxset(l, n), o, b)} :: phas(boxset(l, n), o, b) <==> 0 <= o && o <= l && 0 <= b && b <= n

func main.multithreadedMatching(localFile, idx, localFileSize, matcherCount, blocksize) returns merger, compare
  requires localFile != nil && idx != nil && 0 <= localFileSize && localFileSize <= 70368744177664 && 1 <= matcherCount && matcherCount <= 65536 && 1 <= blocksize && blocksize <= 1073741824
  requires filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil
  requires 1 <= idx.BlockCount && idx.BlockCount <= 1073741824 && idxbound(box(idx), idx.BlockCount) && len(content(localFile)) <= 70368744177664
  modifies localFile.scanned
  # every window that lies in the file was given to a worker, together with its offset
  ensures localFile.scanned >= localFileSize - blocksize + 1
  ghostset @entry localFile.scanned := 0
  ghostset @loop1 merger.mbs := blocksize
  ghostset @loop1 merger.mmax := idx.BlockCount - 1
  ghostset @loop1 merger.mgood := boxset(1125899906842624, idx.BlockCount - 1)
  loop 1
    modifies localFile.scanned, compare.Comparisons, compare.WeakHashHits, compare.StrongHashHits, merger.startEndBlockMap, merger.startEndBlockMap.thas, merger.startEndBlockMap.tval, merger.blockCount
    invariant 0 <= i && i <= matcherCount && (i == 0 ==> merger.startEndBlockMap == nil) && fresh(merger) && fresh(compare)
    invariant merger.startEndBlockMap != nil ==> loopfresh(merger.startEndBlockMap) && tinv(ref(merger.startEndBlockMap), merger)
    invariant localFile.scanned >= 0 && (i > 0 ==> localFile.scanned >= i * sectionSize - blocksize + 1)
    invariant mbounds(merger)
    decreases matcherCount - i

prop C20 main.multithreadedMatching gosync.RSync.Patch -sequential.SequentialPatcher -gosync.splitPartialBlock -gosync.toPatcherFoundSpan -gosync.toPatcherMissingSpan
propinfo C20 explain the number of bytes of the local file that the workers were given is tracked (ghost scanned, bumped when a worker's stream is handed to the merger, in order, each at the offset of its section and reading at least a block beyond its end): at the end every window of a block that lies in the file lies inside the section of a worker. With C08/C09 (each worker handles every window of what it reads, at its offset plus the base) and C10 (the merged result depends only on the set of reported matches) the result does not depend on the number of workers. For RSync.Patch and for the command's matcher, for every number of workers
propinfo C20 assume io.NewSectionReader and bufio.NewReaderSize deliver the bytes of the section; the command's worker count is between 1 and 65536, file sizes at most 2^46, block sizes at most 2^30
propinfo C20 assume goroutines are modelled by their contracts on channel logs; the order in which the merging goroutines run is covered by the lock invariant of C10
prop C01 gosync.RSync.Patch gosync.BasicSummary.GetBlockSize gosync.BasicSummary.GetBlockCount gosync.BasicSummary.GetFileSize
propinfo C01 explain RSync.Patch is proved, against the contracts of the comparer, merger, complement and sequential patcher (each verified too, with everything they call), to leave in the output what was there followed by exactly the reference content whenever it returns no error: every merged span consists of blocks that the local file has at the implied offsets, every missing block is requested and its bytes come from the source, the two cover all blocks, a partial last block is copied with its own length, and the pieces are in block order without gap or overlap
propinfo C01 assume the summary describes the reference: block count and size agree with the content's length, and an index entry with the strong checksum of some bytes is a block with exactly these bytes (no collisions); the block source delivers, in order, reference bytes starting at the first block of the request (proved of the requesters by C16, of the resolver by C12; ordering by C14)
propinfo C01 assume sizes at most 2^46, block sizes at most 2^30, at most 65536 workers; local file, source and output are different objects; the local file does not change meanwhile
propinfo C01 assume what C08, C10 and C17 assume of readers, hashes, channels, the ordered map and io.Copy
