//verif:dir blocksources
package blocksources_test

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/verifharness"
)

func TestVerifC12(t *testing.T) {
	h := verifharness.New(t, "block sizes, file sizes, block ranges and desired request sizes: all small combinations, then random ones up to the full range of the types; non-trivial: a range split into at least two requests, or an offset capped by the file size", 4*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	offsets := func(bs uint64, fs int64, b uint) {
		v := new(big.Int).Mul(new(big.Int).SetUint64(uint64(b)), new(big.Int).SetUint64(bs))
		e := new(big.Int).Add(v, new(big.Int).SetUint64(bs))
		if !e.IsInt64() || bs == 0 {
			return
		}
		cap := func(x int64) int64 {
			if fs != 0 && x > fs {
				return fs
			}
			return x
		}
		var res []blocksources.BlockSourceOffsetResolver
		res = append(res, &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: fs})
		if fs == 0 {
			res = append(res, blocksources.MakeNullFixedSizeResolver(bs))
		} else {
			res = append(res, blocksources.MakeFileSizedBlockResolver(bs, fs))
		}
		in := map[string]interface{}{"block_size": bs, "file_size": fs, "block": b}
		for _, x := range res {
			h.Try("block offsets", in, func() {
				s, n := x.GetBlockStartOffset(b), x.GetBlockEndOffset(b)
				if s != cap(v.Int64()) || n != cap(e.Int64()) {
					h.Fail(fmt.Sprintf("block %d is at %d to %d, expected %d to %d", b, s, n, cap(v.Int64()), cap(e.Int64())), in)
				}
			})
		}
		key := ""
		if cap(e.Int64()) != e.Int64() {
			key = fmt.Sprint(bs, fs, b)
		}
		h.Case(key, in)
	}

	split := func(bs, desired uint64, start, end uint, fs int64) {
		x := &blocksources.FixedSizeBlockResolver{BlockSize: bs, MaxDesiredRequestSize: desired, FileSize: fs}
		in := map[string]interface{}{"block_size": bs, "desired": desired, "start": start, "end": end, "file_size": fs}
		h.Mark("SplitBlockRangeToDesiredSize %v", in)
		var q []blocksources.QueuedRequest
		if !verifharness.Within(10*time.Second, func() {
			h.Try("SplitBlockRangeToDesiredSize", in, func() { q = x.SplitBlockRangeToDesiredSize(start, end) })
		}) {
			h.Fail("SplitBlockRangeToDesiredSize does not return", in)
		}
		if h.Stopped() {
			return
		}
		max := desired
		if max < bs {
			max = bs
		}
		next := start
		for i, s := range q {
			if s.StartBlockID != next || s.EndBlockID < s.StartBlockID || s.EndBlockID > end {
				h.Fail(fmt.Sprintf("split of %d-%d is %.300v: range %d does not continue at block %d", start, end, fmt.Sprint(q), i, next), in)
				return
			}
			size := new(big.Int).Mul(new(big.Int).SetUint64(uint64(s.EndBlockID-s.StartBlockID)+1), new(big.Int).SetUint64(bs))
			if desired != 0 && size.Cmp(new(big.Int).SetUint64(max)) > 0 {
				h.Fail(fmt.Sprintf("request %v is larger than desired size %d", s, desired), in)
				return
			}
			next = s.EndBlockID + 1
		}
		if next != end+1 {
			h.Fail(fmt.Sprintf("split of %d-%d stops before block %d", start, end, next), in)
			return
		}
		key := ""
		if len(q) > 1 {
			key = fmt.Sprint(bs, desired, start, end)
		}
		h.Case(key, in)
	}

	for bs := uint64(1); bs < 5 && !h.Stopped(); bs++ {
		for d := uint64(0); d < 12; d++ {
			for s := uint(0); s < 5; s++ {
				for e := s; e < s+9; e++ {
					split(bs, d, s, e, 0)
				}
			}
		}
		for fs := int64(0); fs < 20; fs++ {
			for b := uint(0); b < 12; b++ {
				offsets(bs, fs, b)
			}
		}
	}
	for h.More() {
		rnd := func(bits int) uint64 { return uint64(r.Int63()) >> uint(63-r.Intn(bits+1)) }
		bs := rnd(40) + 1
		b := uint(rnd(40))
		fs := int64(rnd(62))
		if r.Intn(3) == 0 {
			fs = int64(uint64(b)*bs) + int64(r.Intn(3)) - 1
			if fs < 0 {
				fs = 0
			}
		}
		offsets(bs, fs, b)
		start := uint(rnd(50))
		n := uint(r.Intn(2000))
		d := rnd(63)
		switch r.Intn(4) {
		case 0:
			d = bs*uint64(r.Intn(40)) + uint64(r.Intn(3)) - 1
		case 1:
			d = ^uint64(0) - rnd(10)
		}
		split(bs, d, start, start+n, fs)
	}
}
