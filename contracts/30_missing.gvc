package comparer

# ---------------------------------------------------------------- C11
def spans(l "comparer.BlockSpanList", n int) bool =
  (forall i int {l[i]} :: 0 <= i && i < len(l) ==> l[i].StartBlock <= l[i].EndBlock && l[i].EndBlock <= n)
  && (forall i int, j int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i].EndBlock < l[j].StartBlock)

def covered(l "comparer.BlockSpanList", k int, b int) bool = exists i int {l[i]} :: 0 <= i && i < k && l[i].StartBlock <= b && b <= l[i].EndBlock

func comparer.BlockSpanList.GetMissingBlocks(l, maxBlock) returns sorted
  requires maxBlock < 9223372036854775807
  requires spans(l, maxBlock)
  ensures spans(sorted, maxBlock)
  ensures forall i int, j int {l[i], sorted[j]} :: 0 <= i && i < len(l) && 0 <= j && j < len(sorted) ==> l[i].EndBlock < sorted[j].StartBlock || sorted[j].EndBlock < l[i].StartBlock
  ensures forall b int {blk(b)} :: blk(b) && 0 <= b && b <= maxBlock ==> covered(l, len(l), b) || covered(sorted, len(sorted), b)
  loop 1
    invariant -1 <= lastBlockSpanIndex && lastBlockSpanIndex <= maxBlock
    invariant lastBlockSpanIndex == (if $rangeindex < 0 then -1 else l[$rangeindex].EndBlock)
    invariant (arr(sorted) == nil || fresh(sorted)) && (len(l) == 0 || arr(sorted) != arr(l))
    invariant spans(sorted, lastBlockSpanIndex)
    invariant forall i int, j int {l[i], sorted[j]} :: 0 <= i && i <= $rangeindex && 0 <= j && j < len(sorted) ==> l[i].EndBlock < sorted[j].StartBlock || sorted[j].EndBlock < l[i].StartBlock
    invariant forall b int {blk(b)} :: blk(b) && 0 <= b && b <= lastBlockSpanIndex ==> covered(l, $rangeindex + 1, b) || covered(sorted, len(sorted), b)

prop C11 comparer.BlockSpanList.GetMissingBlocks
propinfo C11 explain for any sorted disjoint list of found spans with blocks below 2^63-1 the returned spans are proved sorted, non-empty, disjoint, inside the file, disjoint from every found span, and every block is proved to be in a found or a missing span
