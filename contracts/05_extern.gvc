package extern

# ------------------------------------------------ assumed contracts on dependencies
# Readers: rem is what the reader will still deliver, rerr the error it then returns (io.EOF for a complete stream).
ghost rem seq
fun rerr(any) any
defaxiom rerr_set: forall r any {rerr(r)} :: rerr(r) != nil

iface io.Reader.Read(r, p) returns n, err
  modifies r.rem, p[*]
  ensures 0 <= n && n <= len(p) && n <= len(old(r.rem))
  ensures p[:n] == old(r.rem)[:n]
  ensures r.rem == old(r.rem)[n:]
  ensures err != nil ==> len(r.rem) == 0 && err == rerr(r)
  ensures forall k int {row(p)[k]} :: k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]

extern io.ReadFull(r, buf) returns n, err
  modifies r.rem, buf[*]
  ensures n == min(len(buf), len(old(r.rem)))
  ensures buf[:n] == old(r.rem)[:n]
  ensures r.rem == old(r.rem)[n:]
  ensures n == len(buf) ==> err == nil
  ensures n < len(buf) ==> err == (if rerr(r) == io.EOF && n > 0 then io.ErrUnexpectedEOF else rerr(r))
  ensures forall k int {row(buf)[k]} :: k < off(buf) || k >= off(buf) + len(buf) ==> row(buf)[k] == old(row(buf))[k]

# Hashes: hin is what was written since the last reset; digest is the hash function of the algorithm.
ghost hin seq
fun hashalg(any) int
fun digest(int, seq) seq

fun dsize(int) int
defaxiom dsize_pos: forall a int {dsize(a)} :: 0 <= dsize(a) && dsize(a) <= 1048576
defaxiom digest_len: forall a int, s seq {digest(a, s)} :: len(digest(a, s)) == dsize(a)

iface hash.Hash.Size(h) returns n
  ensures n == dsize(hashalg(h))

iface hash.Hash.Write(h, p) returns n, err
  modifies h.hin
  ensures h.hin == old(h.hin) ++ p[*]
  ensures n == len(p) && err == nil

iface hash.Hash.Reset(h)
  modifies h.hin
  ensures h.hin == empty

iface hash.Hash.Sum(h, b) returns out
  modifies b[*]
  ensures out[*] == old(b[*]) ++ digest(hashalg(h), h.hin)
  ensures arr(out) == arr(b) && off(out) == off(b) || fresh(out)
  ensures forall k int {row(b)[k]} :: k < off(b) + len(b) || k >= off(b) + cap(b) ==> row(b)[k] == old(row(b))[k]

fun lexcmp(seq, seq) int
defaxiom lexcmp_eq: forall a seq, b seq {lexcmp(a, b)} :: (lexcmp(a, b) == 0 <==> a == b) && -1 <= lexcmp(a, b) && lexcmp(a, b) <= 1 && lexcmp(b, a) == -lexcmp(a, b)
defaxiom lexcmp_trans: forall a seq, b seq, c seq {lexcmp(a, b), lexcmp(b, c)} :: lexcmp(a, b) <= 0 && lexcmp(b, c) <= 0 ==> lexcmp(a, c) <= 0

extern bytes.Compare(a, b) returns c
  ensures c == lexcmp(a[*], b[*])

extern bytes.Equal(a, b) returns e
  ensures e <==> a[*] == b[*]
