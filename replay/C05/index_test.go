//verif:dir index
package index_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/verifharness"
)

func TestVerifC05(t *testing.T) {
	h := verifharness.New(t, "checksum lists over few weak values (several in one bucket), few strong values, strong sums of 1-20 bytes, long collision lists; every combination queried; non-trivial: some weak value with at least two entries", 5*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	check := func(l []chunks.ChunkChecksum, weaks, strongs [][]byte, in interface{}) {
		keep := make([]chunks.ChunkChecksum, len(l))
		for i, c := range l {
			keep[i] = chunks.ChunkChecksum{ChunkOffset: c.ChunkOffset, WeakChecksum: append([]byte{}, c.WeakChecksum...), StrongChecksum: append([]byte{}, c.StrongChecksum...)}
		}
		dup := false
		var n *index.ChecksumIndex
		h.Try("MakeChecksumIndex", in, func() { n = index.MakeChecksumIndex(l) })
		if h.Stopped() {
			return
		}
		if n.BlockCount != len(keep) {
			h.Fail(fmt.Sprintf("index: BlockCount is %d, want %d", n.BlockCount, len(keep)), in)
			return
		}
		h.Try("index lookup", in, func() {
			if c := n.WeakCount(); c != len(keep) {
				h.Fail(fmt.Sprintf("index: WeakCount is %d for %d entries", c, len(keep)), in)
				return
			}
			for _, w := range weaks {
				want := 0
				for _, c := range keep {
					if bytes.Equal(c.WeakChecksum, w) {
						want++
					}
				}
				if want > 1 {
					dup = true
				}
				q := append([]byte{}, w...)
				a := n.FindWeakChecksumInIndex(q)
				if len(a) != want {
					h.Fail(fmt.Sprintf("index: weak checksum %x gave %d entries, want %d", w, len(a), want), in)
					return
				}
				b := n.FindWeakChecksum2(q)
				if (b == nil) != (want == 0) {
					h.Fail(fmt.Sprintf("index: FindWeakChecksum2(%x) is %v but %d entries have it", w, b, want), in)
					return
				}
				if b == nil {
					continue
				}
				for _, s := range strongs {
					exp := map[uint]int{}
					tot := 0
					for _, c := range keep {
						if bytes.Equal(c.WeakChecksum, w) && bytes.Equal(c.StrongChecksum, s) {
							exp[c.ChunkOffset]++
							tot++
						}
					}
					qs := append([]byte{}, s...)
					for k, res := range [][]chunks.ChunkChecksum{n.FindStrongChecksum2(qs, b), a.FindStrongChecksum(qs)} {
						got := map[uint]int{}
						for _, c := range res {
							got[c.ChunkOffset]++
							if !bytes.Equal(c.WeakChecksum, w) || !bytes.Equal(c.StrongChecksum, s) {
								h.Fail(fmt.Sprintf("index: lookup %d of (%x,%x) returned an entry with (%x,%x)", k, w, s, c.WeakChecksum, c.StrongChecksum), in)
								return
							}
						}
						bad := len(res) != tot
						for o, c := range exp {
							if got[o] != c {
								bad = true
							}
						}
						if bad {
							h.Fail(fmt.Sprintf("index: lookup %d of (%x,%x) returned offsets %v, want %v", k, w, s, got, exp), in)
							return
						}
					}
				}
			}
		})
		key := ""
		if dup {
			key = fmt.Sprint(in)
		}
		h.Case(key, in)
	}

	for it := 0; h.More(); it++ {
		nw, ns := 1+r.Intn(5), 1+r.Intn(6)
		slen := []int{1, 2, 4, 16, 20}[r.Intn(5)]
		var weaks, strongs [][]byte
		base := []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		for i := 0; i < nw+2; i++ {
			w := append([]byte{}, base...)
			switch r.Intn(4) {
			case 0: // same bucket, or the byte that must not select the bucket
				w[3] += byte(r.Intn(4))
			case 1:
				w[1] += byte(r.Intn(4))
			case 2:
				w[0] += byte(r.Intn(4))
			default:
				r.Read(w)
			}
			weaks = append(weaks, w)
		}
		sb := make([]byte, slen)
		r.Read(sb)
		for i := 0; i < ns+2; i++ {
			s := append([]byte{}, sb...)
			s[[]int{0, slen - 1, r.Intn(slen)}[r.Intn(3)]] = byte([]int{0, 1, 127, 128, 255, r.Intn(256)}[r.Intn(6)])
			strongs = append(strongs, s)
		}
		n := r.Intn(9)
		if it%20 == 0 {
			n = r.Intn(400)
		}
		if it == 0 {
			n = 0
		}
		off := make([]uint, n)
		for i := range off {
			off[i] = uint(i)
		}
		if r.Intn(3) == 0 {
			r.Shuffle(n, func(i, j int) { off[i], off[j] = off[j], off[i] })
		}
		if r.Intn(5) == 0 {
			for i := range off { // offsets may repeat
				off[i] = uint(r.Intn(n))
			}
		}
		var l []chunks.ChunkChecksum
		var desc string
		for i := 0; i < n; i++ {
			w, s := weaks[r.Intn(nw)], strongs[r.Intn(ns)]
			l = append(l, chunks.ChunkChecksum{ChunkOffset: off[i], WeakChecksum: append([]byte{}, w...), StrongChecksum: append([]byte{}, s...)})
			if n < 40 {
				desc += fmt.Sprintf("%d:%x/%x ", off[i], w, s)
			}
		}
		if n >= 40 {
			desc = fmt.Sprintf("random %d entries, iteration %d", n, it)
		}
		check(l, weaks, strongs, desc)
	}
}
