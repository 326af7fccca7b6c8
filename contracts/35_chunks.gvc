package chunks

# ---------------------------------------------------------------- C07
# entry i of the list is pair i of the stream s, with weak checksums of w bytes and pairs of p bytes
def entry(l "[]chunks.ChunkChecksum", i int, s seq, w int, p int) bool = l[i].ChunkOffset == i && len(l[i].WeakChecksum) == w && len(l[i].StrongChecksum) == p - w && l[i].WeakChecksum[*] == s[i * p:i * p + w] && l[i].StrongChecksum[*] == s[i * p + w:i * p + p]

func chunks.LoadChecksumsFromReader(r, weakHashSize, strongHashSize) returns out, err
  requires r != nil && weakHashSize >= 1 && strongHashSize >= 1 && weakHashSize <= 1048576 && strongHashSize <= 1048576
  requires len(r.rem) <= 4611686018427387904
  modifies r.rem
  ensures err == nil <==> rerr(r) == io.EOF && (exists m int {blk(m)} :: blk(m) && m * (weakHashSize + strongHashSize) == len(old(r.rem)))
  ensures err == nil ==> len(out) * (weakHashSize + strongHashSize) == len(old(r.rem))
  ensures err == nil ==> (forall i int {out[i].ChunkOffset} :: 0 <= i && i < len(out) ==> entry(out, i, old(r.rem), weakHashSize, weakHashSize + strongHashSize))
  ensures err != nil ==> len(out) == 0
  loop 1
    modifies r.rem
    invariant 0 <= offset && offset == len(result) && cap(result) >= 0
    invariant blk(offset) && offset * (weakHashSize + strongHashSize) + len(r.rem) == len(old(r.rem))
    invariant r.rem == old(r.rem)[offset * (weakHashSize + strongHashSize):]
    invariant fresh(result)
    invariant forall i int {result[i].ChunkOffset} :: 0 <= i && i < len(result) ==> entry(result, i, old(r.rem), weakHashSize, weakHashSize + strongHashSize)
    invariant forall i int {result[i].WeakChecksum} :: 0 <= i && i < len(result) ==> fresh(result[i].WeakChecksum) && fresh(result[i].StrongChecksum)
    decreases len(r.rem)

func chunks.StrongChecksumGetter.GetStrongChecksumForBlock(s, blockID) returns sum
  requires 0 <= blockID && blockID < len(s)
  ensures sum == s[blockID].StrongChecksum

prop C07 chunks.LoadChecksumsFromReader chunks.StrongChecksumGetter.GetStrongChecksumForBlock
propinfo C07 explain LoadChecksumsFromReader is proved, for every stream, split and pair size, to return pair i of the stream as entry i numbered i, to succeed exactly when the stream ends (without a read error) on a pair boundary, and to return no list otherwise
propinfo C07 assume io.ReadFull fills its buffer from the reader or returns EOF/ErrUnexpectedEOF/the reader's error; checksum sizes between 1 byte and 1 MiB
propinfo C07 explain BuildChecksumIndex (and BuildIndexFromString) is proved, over these contracts and those of C05 and C06, to return a lookup whose entry k is number k with the weak and strong checksum of block k of what was read, as many as there are blocks, and an index containing exactly these entries; reading or writing failures are returned
propinfo C07 assume a bytes.Buffer delivers the bytes written to it
