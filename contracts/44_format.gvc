package main

# ---------------------------------------------------------------- C19
# le(n, v): the n bytes of v, lowest first; lev(n, s): the value of n bytes
fun le(int, int) seq
fun lev(int, seq) int
defaxiom le2: forall v int {le(2, v)} :: len(le(2, v)) == 2 && le(2, v)[0] == v % 256 && le(2, v)[1] == (v / 256) % 256
defaxiom le4: forall v int {le(4, v)} :: len(le(4, v)) == 4 && le(4, v)[0] == v % 256 && le(4, v)[1] == (v / 256) % 256 && le(4, v)[2] == (v / 65536) % 256 && le(4, v)[3] == (v / 16777216) % 256
defaxiom le8: forall v int {le(8, v)} :: len(le(8, v)) == 8 && le(8, v)[0] == v % 256 && le(8, v)[1] == (v / 256) % 256 && le(8, v)[2] == (v / 65536) % 256 && le(8, v)[3] == (v / 16777216) % 256 && le(8, v)[4] == (v / 4294967296) % 256 && le(8, v)[5] == (v / 1099511627776) % 256 && le(8, v)[6] == (v / 281474976710656) % 256 && le(8, v)[7] == (v / 72057594037927936) % 256
defaxiom lev2: forall s seq {lev(2, s)} :: lev(2, s) == s[0] % 256 + 256 * (s[1] % 256)
defaxiom lev4: forall s seq {lev(4, s)} :: lev(4, s) == s[0] % 256 + 256 * (s[1] % 256) + 65536 * (s[2] % 256) + 16777216 * (s[3] % 256)
defaxiom lev8: forall s seq {lev(8, s)} :: lev(8, s) == s[0] % 256 + 256 * (s[1] % 256) + 65536 * (s[2] % 256) + 16777216 * (s[3] % 256) + 4294967296 * (s[4] % 256) + 1099511627776 * (s[5] % 256) + 281474976710656 * (s[6] % 256) + 72057594037927936 * (s[7] % 256)
lemma lev_le2: forall v int {le(2, v)} :: 0 <= v && v < 65536 ==> lev(2, le(2, v)) == v
lemma lev_le4: forall v int {le(4, v)} :: 0 <= v && v < 4294967296 ==> lev(4, le(4, v)) == v
lemma lev_le8: forall v int {le(8, v)} :: 0 <= v && v < 9223372036854775808 ==> lev(8, le(8, v)) == v
# n of the two-byte values of a row from o on
fun les(row, int, int) seq
defaxiom les_0: forall r row, o int {les(r, o, 0)} :: les(r, o, 0) == empty
defaxiom les_step: forall r row, o int, n int, m int {les(r, o, n), les(r, o, m)} :: n >= 0 && m == n + 1 ==> les(r, o, m) == les(r, o, n) ++ le(2, r[o + n])

extern os.File.WriteString(f, s) returns n, err
  modifies f.wout, f.wfail
  ensures 0 <= n && n <= len(s) && f.wout == old(f.wout) ++ s[:n]
  ensures err == nil ==> n == len(s) && f.wout == old(f.wout) ++ s && f.wfail == old(f.wfail)
  ensures err != nil ==> f.wfail == err

extern binary.Write(w, order, data) returns err
  modifies w.wout, w.wfail
  ensures err == nil && is(order, "binary.littleEndian") && is(data, "uint16") ==> w.wout == old(w.wout) ++ le(2, as(data, "uint16"))
  ensures err == nil && is(order, "binary.littleEndian") && is(data, "uint32") ==> w.wout == old(w.wout) ++ le(4, as(data, "uint32"))
  ensures err == nil && is(order, "binary.littleEndian") && is(data, "uint64") ==> w.wout == old(w.wout) ++ le(8, as(data, "uint64"))
  ensures err == nil && is(order, "binary.littleEndian") && is(data, "int64") ==> w.wout == old(w.wout) ++ le(8, as(data, "int64"))
  ensures err == nil ==> w.wfail == old(w.wfail)
  ensures err != nil ==> w.wfail == err

func main.writeHeaders(f, magic, blocksize, filesize, versions) returns err
  requires f != nil
  modifies f.wout, f.wfail
  ensures err == nil ==> f.wout == old(f.wout) ++ main.magicString ++ les(row(versions), off(versions), len(versions)) ++ le(8, filesize) ++ le(4, blocksize)
  ensures err != nil ==> f.wfail == err
  loop 1
    modifies f.wout, f.wfail
    invariant f.wout == old(f.wout) ++ main.magicString ++ les(row(versions), off(versions), $rangeindex + 1)

# what a valid header has
def validhead(s seq, major int) bool = len(s) >= 24 && s[:6] == main.magicString && lev(2, s[6:8]) == major && lev(8, s[12:20]) < 9223372036854775808 && lev(4, s[20:24]) != 0
func main.readHeadersAndCheck(r, magic, requiredMajorVersion) returns major, minor, patch, filesize, blocksize, err
  requires r != nil
  modifies r.rem
  ensures err == nil <==> validhead(old(r.rem), requiredMajorVersion)
  ensures err == nil ==> major == lev(2, old(r.rem)[6:8]) && minor == lev(2, old(r.rem)[8:10]) && patch == lev(2, old(r.rem)[10:12]) && filesize == lev(8, old(r.rem)[12:20]) && blocksize == lev(4, old(r.rem)[20:24])
  ensures err == nil ==> filesize >= 0 && blocksize >= 1 && r.rem == old(r.rem)[24:]
  loop 1
    modifies anything
    invariant len(old(r.rem)) >= 6 + 2 * ($rangeindex + 1) && r.rem == old(r.rem)[6 + 2 * ($rangeindex + 1):] && err == nil
    invariant $rangeindex >= 0 ==> major == lev(2, old(r.rem)[6:8])
    invariant $rangeindex >= 1 ==> minor == lev(2, old(r.rem)[8:10])
    invariant $rangeindex >= 2 ==> patch == lev(2, old(r.rem)[10:12])

func main.checkBlockCount(filesize, blocksize, blockCount) returns err
  requires filesize >= 0 && blocksize >= 1
  ensures err == nil <==> blockCount * blocksize >= filesize && (blockCount - 1) * blocksize < filesize

# the index part of a file: pairs of a weak and a strong checksum
def pairs(l "[]chunks.ChunkChecksum", s seq, p int) bool = len(l) * p == len(s) && (forall k int {l[k].ChunkOffset} :: 0 <= k && k < len(l) ==> entry(l, k, s, 4, p))
func main.readIndex(r, blocksize) returns i, checksumLookup, blockCount, err
  requires r != nil && len(r.rem) <= 4611686018427387904
  requires filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil && dsize(stdalg()) >= 1
  modifies r.rem
  ensures err == nil <==> rerr(r) == io.EOF && (exists m int {blk(m)} :: blk(m) && m * (4 + dsize(stdalg())) == len(old(r.rem)))
  ensures err == nil ==> is(checksumLookup, "chunks.StrongChecksumGetter") && pairs(lst(checksumLookup), old(r.rem), 4 + dsize(stdalg())) && blockCount == len(lst(checksumLookup)) && indexed(i, lst(checksumLookup))

  # reading what GenerateChecksums wrote gives the checksums of the blocks
  ensures err == nil ==> (forall wk any, s seq, bs int, n int {serial(wk, stdalg(), s, bs, n)} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) ==> n * (4 + dsize(stdalg())) == len(old(r.rem)))
  ensures err == nil ==> (forall wk any, s seq, bs int, n int {serial(wk, stdalg(), s, bs, n)} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) ==> len(lst(checksumLookup)) == n)
  ensures err == nil ==> (forall wk any, s seq, bs int, n int, k int {serial(wk, stdalg(), s, bs, n), lst(checksumLookup)[k].ChunkOffset} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) && 0 <= k && k < n ==> blk(k) && wsize(wk) == 4 && spair(wk, stdalg(), s, bs, n, k, k * (4 + dsize(stdalg()))))
  ensures err == nil ==> (forall wk any, s seq, bs int, n int, k int {serial(wk, stdalg(), s, bs, n), lst(checksumLookup)[k].ChunkOffset} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) && 0 <= k && k < n ==> old(r.rem)[k * (4 + dsize(stdalg())) + 4:k * (4 + dsize(stdalg())) + (4 + dsize(stdalg()))] == digest(stdalg(), blockof(s, k, bs)))
  ensures err == nil ==> (forall wk any, s seq, bs int, n int, k int {serial(wk, stdalg(), s, bs, n), lst(checksumLookup)[k].ChunkOffset} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) && 0 <= k && k < n ==> centry(lst(checksumLookup), k, k, s, bs, wk, stdalg()))
  ensures err == nil ==> (forall wk any, s seq, bs int, n int {serial(wk, stdalg(), s, bs, n)} :: is(wk, "*rollsum.Rollsum32Base") && nblocks(n, len(s), bs) && old(r.rem) == serial(wk, stdalg(), s, bs, n) ==> described(lst(checksumLookup), s, bs, wk, stdalg()))
