//verif:dir comparer
package comparer_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/verifharness"
)

func TestVerifC11(t *testing.T) {
	h := verifharness.New(t, "sorted disjoint lists of found spans: all subsets of up to 11 blocks cut into spans in every way, then random lists up to 2^40 blocks; non-trivial: at least one span and one missing block", 4*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	check := func(l comparer.BlockSpanList, max uint) {
		in := map[string]interface{}{"max_block": max, "found": fmt.Sprint(l)}
		keep := append(comparer.BlockSpanList{}, l...)
		var m comparer.BlockSpanList
		h.Try("GetMissingBlocks", in, func() { m = l.GetMissingBlocks(max) })
		if h.Stopped() {
			return
		}
		bad := func(what string) { h.Fail("GetMissingBlocks: "+what+fmt.Sprintf(" (returned %v)", m), in) }
		for i := range keep {
			if keep[i] != l[i] {
				bad("changed its input")
				return
			}
		}
		// merge the two sorted lists: they must tile [0,max]
		next := uint(0)
		i, j := 0, 0
		for i < len(l) || j < len(m) {
			var s comparer.BlockSpan
			if j == len(m) || i < len(l) && l[i].StartBlock <= m[j].StartBlock {
				s = l[i]
				i++
			} else {
				s = m[j]
				j++
			}
			if s.StartBlock > s.EndBlock || s.EndBlock > max {
				bad("span empty or outside the file")
				return
			}
			if s.StartBlock != next {
				bad(fmt.Sprintf("block %d is covered twice or not at all", next))
				return
			}
			next = s.EndBlock + 1
		}
		if next != max+1 {
			bad(fmt.Sprintf("block %d is not covered", next))
			return
		}
		key := ""
		if len(l) > 0 && len(m) > 0 {
			key = fmt.Sprint(max, l)
		}
		h.Case(key, in)
	}

	// every way to cut 0..max into unit states: missing, found-start, found-continue
	for max := 0; max < 8 && h.More(); max++ {
		n := 1
		for i := 0; i <= max; i++ {
			n *= 3
		}
		for c := 0; c < n && !h.Stopped(); c++ {
			var l comparer.BlockSpanList
			prev, ok := 0, true
			for b, x := 0, c; b <= max; b, x = b+1, x/3 {
				s := x % 3
				if s == 2 {
					if prev == 0 {
						ok = false
						break
					}
					l[len(l)-1].EndBlock = uint(b)
				} else if s == 1 {
					l = append(l, comparer.BlockSpan{StartBlock: uint(b), EndBlock: uint(b), ComparisonStartOffset: int64(r.Intn(50))})
				}
				prev = s
			}
			if ok {
				check(l, uint(max))
			}
		}
	}
	for h.More() {
		var l comparer.BlockSpanList
		scale := int64(1) << uint(r.Intn(38))
		next := uint(0)
		for k := r.Intn(12); k > 0; k-- {
			if r.Intn(3) > 0 {
				next += uint(r.Int63n(scale + 1))
			}
			e := next
			if r.Intn(2) > 0 {
				e += uint(r.Int63n(scale + 1))
			}
			l = append(l, comparer.BlockSpan{StartBlock: next, EndBlock: e})
			next = e + 1
		}
		max := next
		if len(l) > 0 && r.Intn(2) == 0 {
			max = next - 1
		} else {
			max += uint(r.Int63n(scale + 1))
		}
		check(l, max)
	}
}
