package comparer

# ---------------------------------------------------------------- C10
# The ordered map (github.com/petar/GoLLRB): thas/tval map a position to the item there.  The order of the items is the order
# of their positions; that the item types compare by position is verified below.
ghost thas map[int]bool
ghost tval map[int]any
fun pos(any) int
defaxiom pos_start: forall v any {pos(v)} :: is(v, comparer.BlockSpanStart) ==> pos(v) == as(v, comparer.BlockSpanStart).StartBlock
defaxiom pos_end: forall v any {pos(v)} :: is(v, comparer.BlockSpanEnd) ==> pos(v) == as(v, comparer.BlockSpanEnd).EndBlock
defaxiom pos_key: forall v any {pos(v)} :: is(v, comparer.BlockSpanKey) ==> pos(v) == as(v, comparer.BlockSpanKey)

iface comparer.BlockSpanIndex.Position(x) returns p
  ensures p == pos(x)

func comparer.BlockSpanStart.Position(s) returns p
  ensures p == s.StartBlock
func comparer.BlockSpanEnd.Position(s) returns p
  ensures p == s.EndBlock
func comparer.BlockSpanKey.Position(s) returns p
  ensures p == s
func comparer.BlockSpanStart.Less(s, than) returns r
  requires than != nil
  requires is(than, comparer.BlockSpanStart) || is(than, comparer.BlockSpanEnd) || is(than, comparer.BlockSpanKey)
  ensures r <==> s.StartBlock < pos(than)
func comparer.BlockSpanEnd.Less(s, than) returns r
  requires than != nil
  requires is(than, comparer.BlockSpanStart) || is(than, comparer.BlockSpanEnd) || is(than, comparer.BlockSpanKey)
  ensures r <==> s.EndBlock < pos(than)
func comparer.BlockSpanKey.Less(s, than) returns r
  requires than != nil
  requires is(than, comparer.BlockSpanStart) || is(than, comparer.BlockSpanEnd) || is(than, comparer.BlockSpanKey)
  ensures r <==> s < pos(than)

extern llrb.New() returns t
  ensures t != nil && fresh(t)
  ensures forall k int {t.thas[k]} :: !t.thas[k]

extern llrb.LLRB.Get(t, key) returns v
  requires t != nil && key != nil
  ensures !t.thas[pos(key)] ==> v == nil
  ensures t.thas[pos(key)] ==> v == t.tval[pos(key)]

extern llrb.LLRB.Min(t) returns v
  requires t != nil
  ensures v == nil ==> (forall k int {t.thas[k]} :: !t.thas[k])
  ensures v != nil ==> t.thas[pos(v)] && v == t.tval[pos(v)] && (forall k int {t.thas[k]} :: t.thas[k] ==> pos(v) <= k)

extern llrb.LLRB.Delete(t, key) returns v
  requires t != nil && key != nil
  modifies t.thas
  ensures forall k int {t.thas[k]} {old(t.thas)[k]} :: t.thas[k] <==> k != pos(key) && old(t.thas)[k]

extern llrb.LLRB.ReplaceOrInsert(t, item) returns v
  requires t != nil && item != nil
  modifies t.thas, t.tval
  ensures t.thas[pos(item)] && t.tval[pos(item)] == item
  ensures forall k int {t.thas[k]} {old(t.thas)[k]} :: t.thas[k] <==> k == pos(item) || old(t.thas)[k]
  ensures forall k int {t.tval[k]} {old(t.tval)[k]} :: t.tval[k] == (if k == pos(item) then item else old(t.tval)[k])

# how far a file was divided among streams that were merged: every window of the block size that starts before this offset lies in one of their sections
ghost scanned int
# block size and largest block number; a set of pairs (offset, block) that all reported matches lie in
ghost mbs int
ghost mmax int
ghost mgood pset

# n blocks take bmul(n, bs) bytes; block b of a span that starts with block k at offset off lies at spanat(off, k, b, bs)
fun bmul(int, int) int
defaxiom bmul_is: forall n int, bs int {bmul(n, bs)} :: bmul(n, bs) == n * bs
fun spanat(int, int, int, int) int
defaxiom spanat_is: forall off int, k int, b int, bs int {spanat(off, k, b, bs)} :: spanat(off, k, b, bs) == off + bmul(b - k, bs)
lemma bmul_mono: forall a int, b int, c int {bmul(a, c), bmul(b, c)} :: a <= b && c >= 0 ==> bmul(a, c) <= bmul(b, c)
lemma bmul_succ: forall a int, b int, c int {bmul(a, c), bmul(b, c)} :: b == a + 1 ==> bmul(b, c) == bmul(a, c) + c
lemma bmul_zero: forall c int {bmul(0, c)} :: bmul(0, c) == 0
lemma spanat_shift: forall o int, k int, o2 int, k2 int, b int, bs int {spanat(o, k, b, bs), spanat(o2, k2, b, bs)} :: o2 == o + bmul(k2 - k, bs) ==> spanat(o, k, b, bs) == spanat(o2, k2, b, bs)
lemma spanat_lin: forall o int, k int, b int, bs int {spanat(o, k, b, bs)} :: spanat(o, k, b, bs) == o + (bmul(b, bs) - bmul(k, bs))
lemma spanat_self: forall o int, k int, bs int {spanat(o, k, k, bs)} :: spanat(o, k, k, bs) == o

func comparer.BlockSpan.EndOffset(b, blockSize) returns r
  requires b.StartBlock <= b.EndBlock && b.EndBlock < 9223372036854775807 && 0 <= blockSize && bmul(b.EndBlock - b.StartBlock + 1, blockSize) <= 2305843009213693952
  requires -2305843009213693952 <= b.ComparisonStartOffset && b.ComparisonStartOffset <= 2305843009213693952
  ensures r == b.ComparisonStartOffset + bmul(b.EndBlock - b.StartBlock + 1, blockSize)

def isS(v any) bool = is(v, comparer.BlockSpanStart)
def isE(v any) bool = is(v, comparer.BlockSpanEnd)
def ss(v any) int = as(v, comparer.BlockSpanStart).StartBlock
def se(v any) int = as(v, comparer.BlockSpanStart).EndBlock
def so(v any) int = as(v, comparer.BlockSpanStart).ComparisonStartOffset
def es(v any) int = as(v, comparer.BlockSpanEnd).StartBlock
def ee(v any) int = as(v, comparer.BlockSpanEnd).EndBlock
def eo(v any) int = as(v, comparer.BlockSpanEnd).ComparisonStartOffset

# every item is the start or the end of a span and lies at its position
def titems(t ref, n int) bool = forall k int {t.thas[k]} :: t.thas[k] ==> 0 <= k && k <= n && (isS(t.tval[k]) && ss(t.tval[k]) == k && k <= se(t.tval[k]) && se(t.tval[k]) <= n && -1152921504606846976 <= so(t.tval[k]) && so(t.tval[k]) <= 1152921504606846976 || isE(t.tval[k]) && ee(t.tval[k]) == k && 0 <= es(t.tval[k]) && es(t.tval[k]) < k && -1152921504606846976 <= eo(t.tval[k]) && eo(t.tval[k]) <= 1152921504606846976)
# a span of several blocks has both
def tends(t ref) bool = forall k int {t.thas[k]} :: t.thas[k] && isS(t.tval[k]) && k < se(t.tval[k]) ==> t.thas[se(t.tval[k])] && isE(t.tval[se(t.tval[k])]) && es(t.tval[se(t.tval[k])]) == k && eo(t.tval[se(t.tval[k])]) == so(t.tval[k])
def tstarts(t ref) bool = forall k int {t.thas[k]} :: t.thas[k] && isE(t.tval[k]) ==> t.thas[es(t.tval[k])] && isS(t.tval[es(t.tval[k])]) && se(t.tval[es(t.tval[k])]) == k && so(t.tval[es(t.tval[k])]) == eo(t.tval[k])
# and no item strictly between them
def tfree(t ref) bool = forall k int, j int {t.thas[k], t.thas[j]} :: t.thas[k] && isS(t.tval[k]) && k < j && j < se(t.tval[k]) ==> !t.thas[j]
# every block of a span was reported at the offset the span implies
def tgood(t ref, g pset, bs int) bool = forall k int, b int {t.thas[k], blk(b)} :: t.thas[k] && isS(t.tval[k]) && k <= b && b <= se(t.tval[k]) && blk(b) ==> phas(g, spanat(so(t.tval[k]), k, b, bs), b)
# block b lies in a span
def tcov(t ref, b int) bool = exists k int {t.thas[k]} :: t.thas[k] && isS(t.tval[k]) && k <= b && b <= se(t.tval[k])

def mbounds(m "*comparer.MatchMerger") bool = 1 <= m.mbs && m.mbs <= 1152921504606846976 && 0 <= m.mmax && bmul(m.mmax + 1, m.mbs) <= 1152921504606846976 && (forall o int, b int {phas(m.mgood, o, b)} :: phas(m.mgood, o, b) ==> 0 <= b && b <= m.mmax && -1152921504606846976 <= o && o <= 1152921504606846976)
def tinv(t ref, m "*comparer.MatchMerger") bool = titems(t, m.mmax) && tends(t) && tstarts(t) && tfree(t) && tgood(t, m.mgood, m.mbs)

lockinv comparer.MatchMerger.Mutex(m)
  protects m.startEndBlockMap.thas, m.startEndBlockMap.tval, m.blockCount
  invariant tinv(ref(m.startEndBlockMap), m)
  rely forall b int {blk(b)} :: blk(b) && old(tcov(ref(m.startEndBlockMap), b)) ==> tcov(ref(m.startEndBlockMap), b)

func comparer.MatchMerger.StartMergeResultStream$1()
  requires merger != nil && resultStream != nil && merger.startEndBlockMap != nil
  requires mbounds(merger) && blockSize == merger.mbs
  requires forall o int, b int {phas(resultStream.cgood, o, b)} :: phas(resultStream.cgood, o, b) ==> phas(merger.mgood, o, b)
  requires resultStream.crecv == pempty() && !resultStream.crerr
  requires tinv(ref(merger.startEndBlockMap), merger)
  modifies merger.startEndBlockMap.thas, merger.startEndBlockMap.tval, merger.blockCount, resultStream.crecv, resultStream.crerr, resultStream.recvN
  ensures tinv(ref(merger.startEndBlockMap), merger)
  ensures forall o int, b int {phas(resultStream.crecv, o, b)} :: phas(resultStream.crecv, o, b) && blk(b) ==> tcov(ref(merger.startEndBlockMap), b)
  ensures forall b int {blk(b)} :: blk(b) && old(tcov(ref(merger.startEndBlockMap), b)) ==> tcov(ref(merger.startEndBlockMap), b)
  ensures resultStream.crerr || rerr(resultStream.crd) == io.EOF && len(resultStream.cin) >= resultStream.cbs && allfound(ref(resultStream), resultStream.crecv, len(resultStream.cin))
  loop 1
    modifies merger.startEndBlockMap.thas, merger.startEndBlockMap.tval, merger.blockCount, resultStream.crecv, resultStream.crerr, resultStream.recvN
    invariant tinv(ref(merger.startEndBlockMap), merger)
    invariant !resultStream.crerr
    invariant forall o int, b int {phas(resultStream.crecv, o, b)} :: phas(resultStream.crecv, o, b) && blk(b) ==> tcov(ref(merger.startEndBlockMap), b)
    invariant forall b int {blk(b)} :: blk(b) && old(tcov(ref(merger.startEndBlockMap), b)) ==> tcov(ref(merger.startEndBlockMap), b)
  loop 101
    invariant !foundExisting && $last == blockID - 1

func comparer.MatchMerger.StartMergeResultStream(merger, resultStream, blockSize)
  requires merger != nil && resultStream != nil && mbounds(merger) && blockSize == merger.mbs
  requires forall o int, b int {phas(resultStream.cgood, o, b)} :: phas(resultStream.cgood, o, b) ==> phas(merger.mgood, o, b)
  requires resultStream.crecv == pempty() && !resultStream.crerr
  requires merger.startEndBlockMap != nil ==> tinv(ref(merger.startEndBlockMap), merger)
  modifies merger.startEndBlockMap, merger.startEndBlockMap.thas, merger.startEndBlockMap.tval, merger.blockCount, resultStream.crecv, resultStream.crerr, resultStream.recvN, resultStream.csecof.scanned
  ghostset @entry resultStream.csecof.scanned := if resultStream.cbase == resultStream.csecat && resultStream.csecat <= resultStream.csecof.scanned then max(resultStream.csecof.scanned, resultStream.csecat + resultStream.cseclen - resultStream.cbs + 1) else resultStream.csecof.scanned
  ensures resultStream.csecof.scanned == (if resultStream.cbase == resultStream.csecat && resultStream.csecat <= old(resultStream.csecof.scanned) then max(old(resultStream.csecof.scanned), resultStream.csecat + resultStream.cseclen - resultStream.cbs + 1) else old(resultStream.csecof.scanned))
  ensures merger.startEndBlockMap != nil && (old(merger.startEndBlockMap) != nil ==> merger.startEndBlockMap == old(merger.startEndBlockMap)) && (old(merger.startEndBlockMap) == nil ==> fresh(merger.startEndBlockMap))
  ensures tinv(ref(merger.startEndBlockMap), merger)
  ensures forall o int, b int {phas(resultStream.crecv, o, b)} :: phas(resultStream.crecv, o, b) && blk(b) ==> tcov(ref(merger.startEndBlockMap), b)
  ensures old(merger.startEndBlockMap) != nil ==> (forall b int {blk(b)} :: blk(b) && old(tcov(ref(merger.startEndBlockMap), b)) ==> tcov(ref(merger.startEndBlockMap), b))
  ensures resultStream.crerr || rerr(resultStream.crd) == io.EOF && len(resultStream.cin) >= resultStream.cbs && allfound(ref(resultStream), resultStream.crecv, len(resultStream.cin))

func comparer.BlockSpanList.Len(l) returns n
  ensures n == len(l)
func comparer.BlockSpanList.Swap(l, i, j)
  requires 0 <= i && i < len(l) && 0 <= j && j < len(l)
  modifies l[*]
  ensures l[i] == old(l[j]) && l[j] == old(l[i])
func comparer.BlockSpanList.Less(l, i, j) returns r
  requires 0 <= i && i < len(l) && 0 <= j && j < len(l)
  ensures r <==> l[i].StartBlock < l[j].StartBlock

def isspan(t ref, s comparer.BlockSpan) bool = t.thas[s.StartBlock] && isS(t.tval[s.StartBlock]) && ss(t.tval[s.StartBlock]) == s.StartBlock && se(t.tval[s.StartBlock]) == s.EndBlock && so(t.tval[s.StartBlock]) == s.ComparisonStartOffset

func comparer.MatchMerger.GetMergedBlocks(merger) returns sorted
  requires merger != nil && merger.startEndBlockMap != nil && mbounds(merger) && tinv(ref(merger.startEndBlockMap), merger)
  ensures spans(sorted, merger.mmax)
  ensures forall i int, b int {sorted[i], blk(b)} :: 0 <= i && i < len(sorted) && sorted[i].StartBlock <= b && b <= sorted[i].EndBlock && blk(b) ==> phas(merger.mgood, spanat(sorted[i].ComparisonStartOffset, sorted[i].StartBlock, b, merger.mbs), b)
  ensures forall i int {sorted[i].StartBlock} :: 0 <= i && i < len(sorted) ==> phas(merger.mgood, sorted[i].ComparisonStartOffset, sorted[i].StartBlock)
  ensures forall b int {blk(b)} :: blk(b) && tcov(ref(merger.startEndBlockMap), b) ==> covered(sorted, len(sorted), b)
  ensures arr(sorted) == nil || fresh(sorted)
  hint exit: forall i int {sorted[i].StartBlock} :: 0 <= i && i < len(sorted) ==> blk(sorted[i].StartBlock) && spanat(sorted[i].ComparisonStartOffset, sorted[i].StartBlock, sorted[i].StartBlock, merger.mbs) == sorted[i].ComparisonStartOffset && phas(merger.mgood, sorted[i].ComparisonStartOffset, sorted[i].StartBlock)
  loop 101
    invariant arr(sorted) == nil && len(sorted) == 0 || loopfresh(sorted)
    invariant forall i int {sorted[i]} :: 0 <= i && i < len(sorted) ==> isspan(ref(merger.startEndBlockMap), sorted[i]) && sorted[i].StartBlock <= $last
    invariant forall i int, j int {sorted[i], sorted[j]} :: 0 <= i && i < j && j < len(sorted) ==> sorted[i].StartBlock < sorted[j].StartBlock
    invariant forall k int {merger.startEndBlockMap.thas[k]} :: merger.startEndBlockMap.thas[k] && k <= $last && isS(merger.startEndBlockMap.tval[k]) ==> (exists i int {blk(i)} :: blk(i) && 0 <= i && i < len(sorted) && sorted[i].StartBlock == k)
    hint blk(len(sorted) - 1)

prop C10 comparer.MatchMerger.StartMergeResultStream$1 comparer.MatchMerger.StartMergeResultStream comparer.MatchMerger.GetMergedBlocks comparer.BlockSpan.EndOffset comparer.BlockSpanList.Len comparer.BlockSpanList.Swap comparer.BlockSpanList.Less comparer.BlockSpanStart.Position comparer.BlockSpanEnd.Position comparer.BlockSpanKey.Position comparer.BlockSpanStart.Less comparer.BlockSpanEnd.Less comparer.BlockSpanKey.Less
propinfo C10 explain the lock invariant of MatchMerger.Mutex describes the ordered map as a set of disjoint spans whose every block was reported at the offset the span implies; it is proved at every Unlock for an arbitrary map satisfying it at Lock, so it holds for every interleaving of streams. The rely condition (no block that lies in a span ever stops doing so) is proved between Lock and Unlock, and with it that every block a stream reported lies in a span when the stream ends. GetMergedBlocks is proved to return all the spans of the map, sorted and disjoint
propinfo C10 assume the ordered map of github.com/petar/GoLLRB behaves as a map ordered by the position of its items (that the item types compare by position is proved); "reported" is membership in any set that contains every message of the streams; the wait group makes GetMergedBlocks run after the streams ended, and StartMergeResultStream is not called concurrently with itself; sort.Sort sorts; block numbers and byte offsets below 2^60
