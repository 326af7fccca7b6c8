package index

# ---------------------------------------------------------------- C05
# the weak checksum as the index keys it
def le32(s seq) int = s[0] + 256 * s[1] + 65536 * s[2] + 16777216 * s[3]
def wkey(c chunks.ChunkChecksum) int = le32(c.WeakChecksum[*])

def sorted(s "index.StrongChecksumList") bool = forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> lexcmp(s[j].StrongChecksum[*], s[i].StrongChecksum[*]) != -1

func index.StrongChecksumList.Len(s) returns n
  ensures n == len(s)

func index.StrongChecksumList.Less(s, i, j) returns less
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures less <==> lexcmp(s[i].StrongChecksum[*], s[j].StrongChecksum[*]) == -1

func index.StrongChecksumList.Swap(s, i, j)
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k int {s[k]} :: 0 <= k && k < len(s) && k != i && k != j ==> s[k] == old(s[k])

# The result is the segment of the list whose strong checksums equal the one asked for: all of them and nothing else.
func index.StrongChecksumList.FindStrongChecksum(s, strong) returns result
  requires sorted(s)
  ensures len(result) > 0 ==> arr(result) == arr(s) && off(s) <= off(result) && off(result) + len(result) <= off(s) + len(s)
  ensures forall j int {s[j]} :: 0 <= j && j < len(s) ==> (s[j].StrongChecksum[*] == strong[*] <==> len(result) > 0 && off(result) <= off(s) + j && off(s) + j < off(result) + len(result))
  loop 1
    invariant 0 <= first_gte_checksum && first_gte_checksum < end && end <= n
    invariant forall j int {s[j]} :: first_gte_checksum <= j && j < end ==> s[j].StrongChecksum[*] == strong[*]
    decreases n - end

# The list stored under the weak key x (bucket x % 256).
def has_list(n *index.ChecksumIndex, a int, x int) bool = n.weakChecksumLookup[a] != nil && has(n.weakChecksumLookup[a], x)


# What a lookup by weak checksum finds in the index: the list stored under the key.
def wlist(n *index.ChecksumIndex, x int) "index.StrongChecksumList" = n.weakChecksumLookup[x % 256][x]

func index.ChecksumIndex.WeakCount(index) returns n
  requires index != nil
  ensures n == index.Count

func index.ChecksumIndex.FindWeakChecksumInIndex(index, weak) returns l
  requires index != nil && len(index.weakChecksumLookup) == 256 && len(weak) >= 4
  ensures has_list(index, le32(weak[*]) % 256, le32(weak[*])) ==> l == wlist(index, le32(weak[*]))
  ensures !has_list(index, le32(weak[*]) % 256, le32(weak[*])) ==> len(l) == 0

func index.ChecksumIndex.FindWeakChecksum2(index, chk) returns w
  requires index != nil && len(index.weakChecksumLookup) == 256 && len(chk) >= 4
  ensures has_list(index, le32(chk[*]) % 256, le32(chk[*])) && len(wlist(index, le32(chk[*]))) > 0 ==> is(w, "index.StrongChecksumList") && as(w, "index.StrongChecksumList") == wlist(index, le32(chk[*]))
  ensures !has_list(index, le32(chk[*]) % 256, le32(chk[*])) || len(wlist(index, le32(chk[*]))) == 0 ==> w == nil

func index.ChecksumIndex.FindStrongChecksum2(index, chk, weak) returns result
  requires is(weak, "index.StrongChecksumList") ==> sorted(as(weak, "index.StrongChecksumList"))
  ensures !is(weak, "index.StrongChecksumList") ==> len(result) == 0
  ensures is(weak, "index.StrongChecksumList") && len(result) > 0 ==> arr(result) == arr(as(weak, "index.StrongChecksumList"))
  ensures is(weak, "index.StrongChecksumList") ==> (forall j int {as(weak, "index.StrongChecksumList")[j]} :: 0 <= j && j < len(as(weak, "index.StrongChecksumList")) ==> (as(weak, "index.StrongChecksumList")[j].StrongChecksum[*] == chk[*] <==> len(result) > 0 && off(result) <= off(as(weak, "index.StrongChecksumList")) + j && off(as(weak, "index.StrongChecksumList")) + j < off(result) + len(result)))

def shape(n *index.ChecksumIndex) bool = len(n.weakChecksumLookup) == 256
  && (forall a int, x int {n.weakChecksumLookup[a][x]} :: 0 <= a && a < 256 && 0 <= x && x < 4294967296 && has_list(n, a, x) ==> a == x % 256 && len(n.weakChecksumLookup[a][x]) > 0)

# every stored entry is one of the first k checksums and is stored under its own weak key
def sound(n *index.ChecksumIndex, l "[]chunks.ChunkChecksum", k int) bool =
  forall a int, x int, j int {n.weakChecksumLookup[a][x][j].ChunkOffset} :: 0 <= a && a < 256 && has_list(n, a, x) && 0 <= j && j < len(n.weakChecksumLookup[a][x]) ==>
     wkey(n.weakChecksumLookup[a][x][j]) == x && (exists i int {blk(i)} :: blk(i) && 0 <= i && i < k && l[i] == n.weakChecksumLookup[a][x][j])
# every one of the first k checksums is stored; ent (always true) is the trigger
fun ent(int) bool
defaxiom ent_true: forall i int {ent(i)} :: ent(i)
def complete(n *index.ChecksumIndex, l "[]chunks.ChunkChecksum", k int) bool =
  forall i int {ent(i)} :: ent(i) && 0 <= i && i < k ==> has_list(n, wkey(l[i]) % 256, wkey(l[i])) &&
     (exists j int {blk(j)} :: blk(j) && 0 <= j && j < len(n.weakChecksumLookup[wkey(l[i]) % 256][wkey(l[i])]) && n.weakChecksumLookup[wkey(l[i]) % 256][wkey(l[i])][j] == l[i])
# no entry is stored twice, when the block offsets in the list are all different
# (stated as: offidx, an arbitrary function, maps each entry's offset back to its position)
fun offidx(int) int
def distinct(l "[]chunks.ChunkChecksum", k int) bool = forall i int {l[i].ChunkOffset} :: 0 <= i && i < k ==> offidx(l[i].ChunkOffset) == i
def once(n *index.ChecksumIndex) bool =
  forall a int, x int, i int, j int {n.weakChecksumLookup[a][x][i].ChunkOffset, n.weakChecksumLookup[a][x][j].ChunkOffset} :: 0 <= a && a < 256 && has_list(n, a, x) && 0 <= i && i < j && j < len(n.weakChecksumLookup[a][x]) ==>
     n.weakChecksumLookup[a][x][i].ChunkOffset != n.weakChecksumLookup[a][x][j].ChunkOffset
# each list is sorted by strong checksum (for the buckets below b, and the lists under keys of which seen holds in bucket b)
def ordered(n *index.ChecksumIndex, a int, x int, i int, j int) bool = lexcmp(n.weakChecksumLookup[a][x][j].StrongChecksum[*], n.weakChecksumLookup[a][x][i].StrongChecksum[*]) != -1

# the lists and maps are the index's own, in separate memory
def own(n *index.ChecksumIndex, l "[]chunks.ChunkChecksum") bool =
  (forall a int {n.weakChecksumLookup[a]} :: 0 <= a && a < 256 && n.weakChecksumLookup[a] != nil ==> fresh(n.weakChecksumLookup[a]))
  && (forall a int, b int {n.weakChecksumLookup[a], n.weakChecksumLookup[b]} :: 0 <= a && a < b && b < 256 && n.weakChecksumLookup[a] != nil ==> n.weakChecksumLookup[a] != n.weakChecksumLookup[b])
  && (forall a int, x int {n.weakChecksumLookup[a][x]} :: 0 <= a && a < 256 && has_list(n, a, x) ==> fresh(n.weakChecksumLookup[a][x]))
  && (forall a int, x int, b int, y int {n.weakChecksumLookup[a][x], n.weakChecksumLookup[b][y]} :: 0 <= a && a < 256 && 0 <= b && b < 256 && has_list(n, a, x) && has_list(n, b, y) && (a != b || x != y) ==> arr(n.weakChecksumLookup[a][x]) != arr(n.weakChecksumLookup[b][y]))

func index.MakeChecksumIndex(checksums) returns n
  requires forall i int {checksums[i]} :: 0 <= i && i < len(checksums) ==> len(checksums[i].WeakChecksum) >= 4
  ensures fresh(n) && n.BlockCount == len(checksums)
  ensures shape(n)
  ensures @sound sound(n, checksums, len(checksums))
  ensures @complete complete(n, checksums, len(checksums))
  ensures @once+sound distinct(checksums, len(checksums)) ==> once(n)
  ensures @ordered forall a int, x int, i int, j int {n.weakChecksumLookup[a][x][i].ChunkOffset, n.weakChecksumLookup[a][x][j].ChunkOffset} :: 0 <= a && a < 256 && has_list(n, a, x) && 0 <= i && i < j && j < len(n.weakChecksumLookup[a][x]) ==> ordered(n, a, x, i, j)
  loop 1
    modifies anything
    invariant fresh(n) && n.BlockCount == len(checksums) && fresh(n.weakChecksumLookup)
    invariant shape(n)
    invariant own(n, checksums)
    invariant @sound sound(n, checksums, $rangeindex + 1)
    invariant @complete complete(n, checksums, $rangeindex + 1)
    hint @sound blk($rangeindex)
    hint @complete blk(len(n.weakChecksumLookup[wkey(checksums[$rangeindex]) % 256][wkey(checksums[$rangeindex])]) - 1)
    invariant @once+sound distinct(checksums, len(checksums)) ==> once(n)
  loop 2
    modifies anything
    invariant fresh(n) && n.BlockCount == len(checksums) && fresh(n.weakChecksumLookup)
    invariant shape(n)
    invariant own(n, checksums)
    invariant @sound sound(n, checksums, len(checksums))
    invariant @complete complete(n, checksums, len(checksums))
    invariant @once+sound distinct(checksums, len(checksums)) ==> once(n)
    invariant @ordered forall a int, x int, i int, j int {n.weakChecksumLookup[a][x][i].ChunkOffset, n.weakChecksumLookup[a][x][j].ChunkOffset} :: 0 <= a && a <= $rangeindex && has_list(n, a, x) && 0 <= i && i < j && j < len(n.weakChecksumLookup[a][x]) ==> ordered(n, a, x, i, j)
  loop 3
    modifies anything
    invariant fresh(n) && n.BlockCount == len(checksums) && fresh(n.weakChecksumLookup)
    invariant shape(n)
    invariant own(n, checksums)
    invariant @sound sound(n, checksums, len(checksums))
    invariant @complete complete(n, checksums, len(checksums))
    invariant @once+sound distinct(checksums, len(checksums)) ==> once(n)
    invariant @ordered forall a int, x int, i int, j int {n.weakChecksumLookup[a][x][i].ChunkOffset, n.weakChecksumLookup[a][x][j].ChunkOffset} :: 0 <= a && a < $rangeindex && has_list(n, a, x) && 0 <= i && i < j && j < len(n.weakChecksumLookup[a][x]) ==> ordered(n, a, x, i, j)
    invariant @ordered forall a int, x int, i int, j int {n.weakChecksumLookup[a][x][i].ChunkOffset, n.weakChecksumLookup[a][x][j].ChunkOffset} :: a == $rangeindex && has_list(n, a, x) && $seen[x] && 0 <= i && i < j && j < len(n.weakChecksumLookup[a][x]) ==> ordered(n, a, x, i, j)

prop C05 index.MakeChecksumIndex index.ChecksumIndex.WeakCount index.ChecksumIndex.FindWeakChecksumInIndex index.ChecksumIndex.FindWeakChecksum2 index.ChecksumIndex.FindStrongChecksum2 index.StrongChecksumList.FindStrongChecksum index.StrongChecksumList.Len index.StrongChecksumList.Less index.StrongChecksumList.Swap
propinfo C05 explain MakeChecksumIndex is proved to store, under each weak key, only entries of the list having that key (sound), every one of them (complete), none twice when block offsets are distinct (once), sorted by strong checksum (ordered), and to count them; FindWeakChecksumInIndex/FindWeakChecksum2 are proved to return exactly the list stored under the key, or nothing; FindStrongChecksum(2) is proved to return exactly the segment of a sorted list whose strong checksums equal the one asked for. Chained, these give the exact lookup
propinfo C05 assume sort.Sort permutes into an order consistent with Less and sort.Search finds the least index of a monotone predicate; multiplicity is proved for lists whose block offsets are all different (as every list the project builds); weak checksums have at least 4 bytes
