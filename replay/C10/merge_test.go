//verif:dir comparer
package comparer_test

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/verifharness"
)

type match struct {
	block  uint
	offset int64
	fail   bool
}

func TestVerifC10(t *testing.T) {
	h := verifharness.New(t, "match streams: every order of up to 5 blocks with offsets in or out of line, then random streams (1-5, runs up and down, duplicates, conflicting offsets, block 0, streams ended by an error), delivered one by one in a random interleaving, or freely; non-trivial: a merged span of several blocks next to another span", 6*time.Second, 90*time.Second)
	defer h.Done()
	r := h.R

	run := func(streams [][]match, bs int64, order []int) {
		in := map[string]interface{}{"block_size": bs, "streams": fmt.Sprint(streams), "delivery": fmt.Sprint(order)}
		var got comparer.BlockSpanList
		ok := h.TryWithin(20*time.Second, "merging", in, func() {
			m := &comparer.MatchMerger{}
			chs := make([]chan comparer.BlockMatchResult, len(streams))
			for i := range chs {
				chs[i] = make(chan comparer.BlockMatchResult)
				m.StartMergeResultStream(chs[i], bs)
			}
			send := func(i int, x match) {
				v := comparer.BlockMatchResult{BlockIdx: x.block, ComparisonOffset: x.offset}
				if x.fail {
					v = comparer.BlockMatchResult{Err: errors.New("verif: injected failure")}
				}
				chs[i] <- v
			}
			if order != nil {
				at := make([]int, len(streams))
				for _, i := range order {
					if at[i] < len(streams[i]) {
						send(i, streams[i][at[i]])
						at[i]++
					}
				}
				for i := range streams {
					for ; at[i] < len(streams[i]); at[i]++ {
						send(i, streams[i][at[i]])
					}
					close(chs[i])
				}
			} else {
				var wg sync.WaitGroup
				for i := range streams {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						for _, x := range streams[i] {
							send(i, x)
						}
						close(chs[i])
					}(i)
				}
				defer wg.Wait()
			}
			got = m.GetMergedBlocks()
		})
		if !ok {
			return
		}
		bad := func(what string) { h.Fail(fmt.Sprintf("GetMergedBlocks: %s (returned %v)", what, got), in) }
		reported := map[[2]int64]bool{}
		blocks := map[uint]bool{}
		for _, s := range streams {
			for _, x := range s {
				if !x.fail {
					reported[[2]int64{int64(x.block), x.offset}] = true
					blocks[x.block] = true
				}
			}
		}
		covered := map[uint]bool{}
		long := false
		for i, s := range got {
			if s.StartBlock > s.EndBlock {
				bad("a span ends before it starts")
				return
			}
			if i > 0 && got[i-1].EndBlock >= s.StartBlock {
				bad(fmt.Sprintf("spans overlap or are out of order at block %d", s.StartBlock))
				return
			}
			if s.EndBlock-s.StartBlock > 1000 {
				bad("span of blocks never reported")
				return
			}
			for b := s.StartBlock; b <= s.EndBlock; b++ {
				o := s.ComparisonStartOffset + int64(b-s.StartBlock)*bs
				if !reported[[2]int64{int64(b), o}] {
					bad(fmt.Sprintf("block %d was not reported at offset %d", b, o))
					return
				}
				covered[b] = true
			}
			long = long || s.EndBlock > s.StartBlock && len(got) > 1
		}
		for b := range blocks {
			if !covered[b] {
				bad(fmt.Sprintf("reported block %d is in no span", b))
				return
			}
		}
		key := ""
		if long {
			key = fmt.Sprint(streams, order)
		}
		h.Case(key, in)
	}

	// every order of the blocks 0..n-1, each at its own place or shifted, through one stream
	var perm func(a []int, k int, f func([]int))
	perm = func(a []int, k int, f func([]int)) {
		if h.Stopped() {
			return
		}
		if k == len(a) {
			f(a)
			return
		}
		for i := k; i < len(a); i++ {
			a[k], a[i] = a[i], a[k]
			perm(a, k+1, f)
			a[k], a[i] = a[i], a[k]
		}
	}
	for n := 1; n <= 5 && h.More(); n++ {
		a := make([]int, n)
		for i := range a {
			a[i] = i
		}
		perm(a, 0, func(p []int) {
			for mask := 0; mask < 1<<uint(n); mask++ {
				if n == 5 && mask%5 != 0 {
					continue
				}
				var s []match
				for _, b := range p {
					o := int64(b) * 4
					if mask>>uint(b)&1 == 1 {
						o += 4
					}
					s = append(s, match{block: uint(b), offset: o})
				}
				run([][]match{s}, 4, nil)
			}
		})
	}
	for h.More() {
		ns := 1 + r.Intn(4)
		bs := int64(1 + r.Intn(6))
		if r.Intn(10) == 0 {
			bs = int64(1) << uint(r.Intn(30))
		}
		lo := uint(0)
		if r.Intn(3) == 0 {
			lo = uint(r.Intn(3))
		}
		if r.Intn(10) == 0 {
			lo = uint(rand.Int63n(1 << 31))
		}
		nb := 2 + r.Intn(12)
		streams := make([][]match, ns)
		total := 0
		for i := range streams {
			for k := r.Intn(4); k >= 0; k-- {
				b := lo + uint(r.Intn(nb))
				shift := int64(r.Intn(3)) * bs
				if r.Intn(4) == 0 {
					shift = int64(r.Intn(7))
				}
				for n := 1 + r.Intn(5); n > 0; n-- {
					streams[i] = append(streams[i], match{block: b, offset: int64(b)*bs + shift})
					switch r.Intn(8) {
					case 0:
						if b > 0 {
							b--
						}
					case 1:
					case 2:
						b += 2
					default:
						b++
					}
				}
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(streams[i]), func(a, b int) { streams[i][a], streams[i][b] = streams[i][b], streams[i][a] })
			}
			if r.Intn(6) == 0 {
				streams[i] = append(streams[i], match{fail: true})
			}
			total += len(streams[i])
		}
		var order []int
		if r.Intn(3) > 0 {
			order = []int{}
			for k := 0; k < total; k++ {
				order = append(order, r.Intn(ns))
			}
		}
		run(streams, bs, order)
	}
}
