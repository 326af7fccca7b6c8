package readers

# ---------------------------------------------------------------- C21
func readers.uniformReader.Read(r, p) returns n, err
  requires r != nil && 0 <= r.read && (r.read <= r.length || r.read == 0)
  modifies r.read, p[*]
  ensures n == min(len(p), max(r.length - old(r.read), 0))
  ensures r.read == old(r.read) + n
  ensures forall i int {p[i]} :: 0 <= i && i < n ==> p[i] == r.value
  ensures forall k int {row(p)[k]} :: k < off(p) || k >= off(p) + n ==> row(p)[k] == old(row(p))[k]
  ensures err == nil || err == io.EOF && r.read >= r.length
  ensures len(p) > 0 && n == 0 ==> err == io.EOF
  loop 1
    invariant 0 <= i && i <= read
    invariant forall k int {p[k]} :: 0 <= k && k < i ==> p[k] == r.value
    invariant forall k int {row(p)[k]} :: k < off(p) || k >= off(p) + i ==> row(p)[k] == old(row(p))[k]
    decreases read - i

def uni(r any, v int, n int) bool = is(r, "*readers.uniformReader") && as(r, "*readers.uniformReader") != nil && as(r, "*readers.uniformReader").value == v && as(r, "*readers.uniformReader").length == n && as(r, "*readers.uniformReader").read == 0

func readers.ZeroReader(length) returns r
  ensures uni(r, 0, length)

func readers.OneReader(length) returns r
  ensures uni(r, 1, length)

# the k-th state of the sequence started at v
fun nrval(int, int) int
def nrstep(v int) int = if v + 17180131327 >= 0 then (v + 17180131327) % 87178291199 else -((-(v + 17180131327)) % 87178291199)
defaxiom nrval_0: forall v int {nrval(v, 0)} :: nrval(v, 0) == v
defaxiom nrval_step: forall v int, k int {nrval(v, k + 1)} :: k >= 0 ==> nrval(v, k + 1) == nrstep(nrval(v, k))
defaxiom nrval_succ: forall v int, k int {nrval(v, k)} :: k >= 1 ==> nrval(v, k) == nrstep(nrval(v, k - 1))
# reading j bytes and then k more is reading j + k bytes
lemma nrval_split: forall v int, j int, k int {nrval(nrval(v, j), k)} :: j >= 0 && k >= 0 ==> nrval(nrval(v, j), k) == nrval(v, j + k)
  induction k

func readers.nonRepeatingSequenceReader.Read(r, p) returns n, err
  requires r != nil && -4611686018427387904 <= r.value && r.value <= 4611686018427387904
  modifies r.value, p[*]
  ensures n == len(p) && err == nil
  ensures forall i int {p[i]} :: 0 <= i && i < n ==> p[i] == nrval(old(r.value), i) % 256
  ensures r.value == nrval(old(r.value), n)
  ensures -4611686018427387904 <= r.value && r.value <= 4611686018427387904
  ensures forall k int {row(p)[k]} :: k < off(p) || k >= off(p) + n ==> row(p)[k] == old(row(p))[k]
  loop 1
    invariant $iter <= len(p) && r.value == nrval(old(r.value), $iter)
    invariant -4611686018427387904 <= r.value && r.value <= 4611686018427387904
    invariant forall k int {p[k]} :: 0 <= k && k < $iter ==> p[k] == nrval(old(r.value), k) % 256
    invariant forall k int {row(p)[k]} :: k < off(p) || k >= off(p) + $iter ==> row(p)[k] == old(row(p))[k]
    decreases len(p) - $iter

func readers.NewNonRepeatingSequence(i) returns r
  ensures is(r, "*readers.nonRepeatingSequenceReader") && as(r, "*readers.nonRepeatingSequenceReader") != nil && as(r, "*readers.nonRepeatingSequenceReader").value == i

# io's combinators, described by their parts: a limited reader and a concatenation (both read the parts they were given)
fun limbase(any) any
fun limn(any) int
fun nparts(any) int
fun part(any, int) any

extern io.LimitReader(r, n) returns out
  ensures limbase(out) == r && limn(out) == n && islimited(out) && out != nil && fresh(out)

extern io.MultiReader(rs) returns out
  ensures nparts(out) == len(rs)
  ensures forall i int {part(out, i)} :: 0 <= i && i < len(rs) ==> part(out, i) == rs[i]

func readers.NewSizedNonRepeatingSequence(i, s) returns out
  ensures limn(out) == s && is(limbase(out), "*readers.nonRepeatingSequenceReader") && as(limbase(out), "*readers.nonRepeatingSequenceReader").value == i

# base up to the offset, then the injected reader, then the rest of base
func readers.InjectedReader(offsetFromStart, base, inject) returns out
  ensures nparts(out) == 3 && limbase(part(out, 0)) == base && limn(part(out, 0)) == offsetFromStart && part(out, 1) == inject && part(out, 2) == base

func readers.SequenceLimit(size, rs) returns out
  ensures limn(out) == size && nparts(limbase(out)) == len(rs)
  ensures forall i int {part(limbase(out), i)} :: 0 <= i && i < len(rs) ==> part(limbase(out), i) == rs[i]

prop C21 readers.uniformReader.Read readers.ZeroReader readers.OneReader readers.nonRepeatingSequenceReader.Read readers.NewNonRepeatingSequence readers.NewSizedNonRepeatingSequence readers.InjectedReader readers.SequenceLimit
propinfo C21 explain each Read is proved to deliver exactly the next bytes of its stream for every buffer length (equal bytes up to the length and then EOF; the k-th element of the sequence whatever the split), to report no more bytes than it stored and to write nothing outside the buffer; the combinators are proved to be built from exactly the stated parts in order
propinfo C21 assume io.LimitReader and io.MultiReader deliver the bytes of their parts in order; sequence start values below 2^62
