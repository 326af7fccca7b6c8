# Mathematical vocabulary shared by the contracts.
# Sequences (sort seq) have built-in axioms: len, indexing, snoc, ++, slicing, extensional equality.
package base

# byte sum and position-weighted byte sum
fun sumb(seq) int
fun wsum(seq) int
defaxiom sumb_empty: sumb(empty) == 0
defaxiom wsum_empty: wsum(empty) == 0
defaxiom sumb_snoc: forall s seq, x int {sumb(snoc(s, x))} :: sumb(snoc(s, x)) == sumb(s) + x
defaxiom wsum_snoc: forall s seq, x int {wsum(snoc(s, x))} :: wsum(snoc(s, x)) == wsum(s) + sumb(snoc(s, x))

lemma sumb_tail: forall s seq {sumb(s[1:])} :: len(s) > 0 ==> sumb(s) == sumb(s[1:]) + s[0]
  induction s
  use len(s) > 0 ==> s == snoc(s[:len(s)-1], s[len(s)-1])
  use len(s) > 1 ==> s[1:] == snoc(s[:len(s)-1][1:], s[len(s)-1])
  use len(s) == 1 ==> s[1:] == empty
  use len(s) == 1 ==> s[:len(s)-1] == empty
lemma wsum_tail: forall s seq {wsum(s[1:])} :: len(s) > 0 ==> wsum(s) == wsum(s[1:]) + len(s) * s[0]
  induction s
  use len(s) > 0 ==> s == snoc(s[:len(s)-1], s[len(s)-1])
  use len(s) > 1 ==> s[1:] == snoc(s[:len(s)-1][1:], s[len(s)-1])
  use len(s) == 1 ==> s[1:] == empty
  use len(s) == 1 ==> s[:len(s)-1] == empty
  use len(s) > 1 ==> wsum(s[:len(s)-1]) == wsum(s[:len(s)-1][1:]) + (len(s) - 1) * s[0]
  use sumb(s[1:]) + (if len(s) > 0 then s[0] else 0) == (if len(s) > 0 then sumb(s) else sumb(s[1:]))

# blk(i) is always true; it names an integer so that quantifiers over plain integers have a trigger
fun blk(int) bool
defaxiom blk_true: forall i int {blk(i)} :: blk(i)

lemma mul_ge: forall a int, b int {a * b} :: a >= 0 && b >= 1 ==> a * b >= a
lemma mul_ge2: forall a int, b int {a * b} :: a >= 1 && b >= 0 ==> a * b >= b
lemma mul_mono: forall a int, b int, c int {a * c, b * c} :: a <= b && c >= 0 ==> a * c <= b * c

lemma scat_prefix: forall a seq, b seq, l int, h int {(a ++ b)[l:h]} :: 0 <= l && l <= h && h <= len(a) ==> (a ++ b)[l:h] == a[l:h]
lemma scat_suffix: forall a seq, b seq, l int, h int {(a ++ b)[l:h]} :: l == len(a) && h == len(a) + len(b) ==> (a ++ b)[l:h] == b
lemma ssub_ssub: forall s seq, a int, b int, l int, h int {s[a:b][l:h]} :: 0 <= a && a <= b && b <= len(s) && 0 <= l && l <= h && h <= b - a ==> s[a:b][l:h] == s[a + l:a + h]
lemma ssub_join: forall s seq, a int, b int, c int, d int {s[a:b] ++ s[c:d]} :: 0 <= a && a <= b && b == c && c <= d && d <= len(s) ==> s[a:b] ++ s[c:d] == s[a:d]
