package indexbuilder

# ---------------------------------------------------------------- C07: generating checksums and loading them again
# pair i of the serialised checksums is the weak and the strong checksum of block i
lemma serial_len: forall wk any, sa int, s seq, bs int, n int {serial(wk, sa, s, bs, n)} :: n >= 0 ==> len(serial(wk, sa, s, bs, n)) == n * (wsize(wk) + dsize(sa))
  induction n
  use n > 0 ==> serial(wk, sa, s, bs, n) == serial(wk, sa, s, bs, n - 1) ++ weaksum(wk, blockof(s, n - 1, bs)) ++ digest(sa, blockof(s, n - 1, bs))
lemma cat3_pre: forall a seq, w seq, d seq, l int, h int {(a ++ w ++ d)[l:h]} :: 0 <= l && l <= h && h <= len(a) ==> (a ++ w ++ d)[l:h] == a[l:h]
lemma cat3_mid: forall a seq, w seq, d seq, l int, h int {(a ++ w ++ d)[l:h]} :: l == len(a) && h == l + len(w) ==> (a ++ w ++ d)[l:h] == w
lemma cat3_end: forall a seq, w seq, d seq, l int, h int {(a ++ w ++ d)[l:h]} :: l == len(a) + len(w) && h == l + len(d) ==> (a ++ w ++ d)[l:h] == d
lemma mulp: forall i int, n int, p int {i * p, n * p} :: 0 <= i && i < n && p >= 0 ==> i * p >= 0 && i * p + p <= n * p
# pair i of the serialised checksums is the weak and the strong checksum of block i
fun spair(any, int, seq, int, int, int, int) bool
defaxiom spair_is: forall wk any, sa int, s seq, bs int, n int, i int, o int {spair(wk, sa, s, bs, n, i, o)} :: spair(wk, sa, s, bs, n, i, o) <==> serial(wk, sa, s, bs, n)[o:o + wsize(wk)] == weaksum(wk, blockof(s, i, bs)) && serial(wk, sa, s, bs, n)[o + wsize(wk):o + (wsize(wk) + dsize(sa))] == digest(sa, blockof(s, i, bs))
lemma serial_pair: forall wk any, sa int, s seq, bs int, n int, i int {serial(wk, sa, s, bs, n), blk(i)} :: 0 <= i && i < n ==> spair(wk, sa, s, bs, n, i, i * (wsize(wk) + dsize(sa)))
  induction n
  use n > 0 ==> serial(wk, sa, s, bs, n) == (serial(wk, sa, s, bs, n - 1) ++ weaksum(wk, blockof(s, n - 1, bs))) ++ digest(sa, blockof(s, n - 1, bs))
  use n > 0 ==> len(serial(wk, sa, s, bs, n - 1)) == (n - 1) * (wsize(wk) + dsize(sa))
  use 0 <= i && i < n - 1 ==> 0 <= i * (wsize(wk) + dsize(sa)) && i * (wsize(wk) + dsize(sa)) + (wsize(wk) + dsize(sa)) <= (n - 1) * (wsize(wk) + dsize(sa))
  use 0 <= i && i < n - 1 ==> blk(i) && spair(wk, sa, s, bs, n - 1, i, i * (wsize(wk) + dsize(sa)))
  use n > 0 ==> serial(wk, sa, s, bs, n)[len(serial(wk, sa, s, bs, n - 1)):len(serial(wk, sa, s, bs, n - 1)) + wsize(wk)] == weaksum(wk, blockof(s, n - 1, bs))
  use n > 0 ==> serial(wk, sa, s, bs, n)[len(serial(wk, sa, s, bs, n - 1)) + wsize(wk):len(serial(wk, sa, s, bs, n - 1)) + wsize(wk) + dsize(sa)] == digest(sa, blockof(s, n - 1, bs))
  use n > 0 ==> spair(wk, sa, s, bs, n, n - 1, len(serial(wk, sa, s, bs, n - 1)))
  use 0 <= i && i == n - 1 ==> spair(wk, sa, s, bs, n, i, i * (wsize(wk) + dsize(sa)))
  use 0 <= i && i < n - 1 ==> serial(wk, sa, s, bs, n)[i * (wsize(wk) + dsize(sa)):i * (wsize(wk) + dsize(sa)) + wsize(wk)] == serial(wk, sa, s, bs, n - 1)[i * (wsize(wk) + dsize(sa)):i * (wsize(wk) + dsize(sa)) + wsize(wk)]
  use 0 <= i && i < n - 1 ==> serial(wk, sa, s, bs, n)[i * (wsize(wk) + dsize(sa)) + wsize(wk):i * (wsize(wk) + dsize(sa)) + (wsize(wk) + dsize(sa))] == serial(wk, sa, s, bs, n - 1)[i * (wsize(wk) + dsize(sa)) + wsize(wk):i * (wsize(wk) + dsize(sa)) + (wsize(wk) + dsize(sa))]
  use 0 <= i && i < n - 1 ==> spair(wk, sa, s, bs, n, i, i * (wsize(wk) + dsize(sa)))

extern bytes.NewBufferString(s) returns b
  ensures b != nil && fresh(b) && b.bcont == s && b.rem == s && b.wout == empty

def lst(x any) "[]chunks.ChunkChecksum" = typed(as(x, "chunks.StrongChecksumGetter"), "[]chunks.ChunkChecksum")
# the list describes the blocks of the content, in order
def described(l "[]chunks.ChunkChecksum", s seq, bs int, wk any, sa int) bool = nblocks(len(l), len(s), bs) && (forall k int {l[k].ChunkOffset} :: 0 <= k && k < len(l) ==> centry(l, k, k, s, bs, wk, sa))
def indexed(i *index.ChecksumIndex, l "[]chunks.ChunkChecksum") bool = i != nil && i.BlockCount == len(l) && shape(i) && sound(i, l, len(l)) && complete(i, l, len(l))

func indexbuilder.BuildChecksumIndex(check, r) returns fcheck, i, lookup, err
  requires check != nil && r != nil && check.WeakRollingHash != nil && check.StrongHash != nil && check.FileChecksumHash != nil
  requires 1 <= check.BlockSize && check.BlockSize <= 1152921504606846976 && len(r.rem) <= 1152921504606846976
  requires ref(check.StrongHash) != ref(check.FileChecksumHash) && ref(r) != ref(check.StrongHash) && ref(r) != ref(check.FileChecksumHash) && ref(r) != ref(check.WeakRollingHash)
  requires wsize(check.WeakRollingHash) >= 4 && dsize(hashalg(check.StrongHash)) >= 1
  modifies r.rem, check.WeakRollingHash.win, check.StrongHash.hin, check.FileChecksumHash.hin
  ensures err == nil ==> rerr(r) == io.EOF && fcheck[*] == digest(hashalg(check.FileChecksumHash), old(r.rem))
  ensures err == nil ==> is(lookup, "chunks.StrongChecksumGetter") && described(lst(lookup), old(r.rem), check.BlockSize, check.WeakRollingHash, hashalg(check.StrongHash))
  ensures err == nil ==> indexed(i, lst(lookup))
  ensures rerr(r) != io.EOF ==> err != nil
  trust before chunks.LoadChecksumsFromReader: is($r, "*bytes.Buffer") ==> $r.rem == $r.wout && len($r.wout) <= 4611686018427387904

func indexbuilder.BuildIndexFromString(generator, reference) returns fileCheckSum, referenceIndex, lookup, err
  requires generator != nil && generator.WeakRollingHash != nil && generator.StrongHash != nil && generator.FileChecksumHash != nil
  requires 1 <= generator.BlockSize && generator.BlockSize <= 1152921504606846976 && len(reference) <= 1152921504606846976
  requires ref(generator.StrongHash) != ref(generator.FileChecksumHash)
  requires wsize(generator.WeakRollingHash) >= 4 && dsize(hashalg(generator.StrongHash)) >= 1
  modifies generator.WeakRollingHash.win, generator.StrongHash.hin, generator.FileChecksumHash.hin
  ensures err == nil ==> is(lookup, "chunks.StrongChecksumGetter") && described(lst(lookup), reference, generator.BlockSize, generator.WeakRollingHash, hashalg(generator.StrongHash))
  ensures err == nil ==> indexed(referenceIndex, lst(lookup))

prop C07 indexbuilder.BuildChecksumIndex indexbuilder.BuildIndexFromString -filechecksum.FileChecksumGenerator.GenerateChecksums -index.MakeChecksumIndex
