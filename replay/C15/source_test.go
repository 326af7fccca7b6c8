//verif:dir blocksources
package blocksources_test

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/verifharness"
)

const vProp = "C15"

type fetch struct {
	start, end int64
	go_        chan error
	data       []byte
	done       bool
	empty      bool // no data and no error
}

// a requester whose fetches wait to be told to finish
type slowRequester struct {
	sync.Mutex
	all     []*fetch
	running int
	most    int
	free    bool // answer at once
	salt    byte
}

func content(salt byte, start, end int64) []byte {
	b := make([]byte, 0, end-start)
	for i := start; i < end; i++ {
		b = append(b, byte(i*7+i>>8)^salt)
	}
	return b
}

func (s *slowRequester) DoRequest(start, end int64) ([]byte, error) {
	f := &fetch{start: start, end: end, go_: make(chan error, 1)}
	s.Lock()
	s.all = append(s.all, f)
	s.running++
	if s.running > s.most {
		s.most = s.running
	}
	free := s.free
	s.Unlock()
	var err error
	if !free {
		err = <-f.go_
	}
	s.Lock()
	s.running--
	s.Unlock()
	if err != nil {
		return nil, err
	}
	if f.empty {
		return []byte{}, nil
	}
	return content(s.salt, start, end), nil
}
func (s *slowRequester) IsFatal(error) bool { return true }

func (s *slowRequester) started() []*fetch {
	s.Lock()
	defer s.Unlock()
	return append([]*fetch{}, s.all...)
}

// block b covers the bytes [10b+3, 10b+13)
type resolver struct{ max uint }

func (r resolver) GetBlockStartOffset(b uint) int64 { return int64(b)*10 + 3 }
func (r resolver) GetBlockEndOffset(b uint) int64   { return int64(b)*10 + 13 }
func (r resolver) SplitBlockRangeToDesiredSize(a, b uint) (q []blocksources.QueuedRequest) {
	for a <= b {
		e := a + r.max - 1
		if e > b {
			e = b
		}
		q = append(q, blocksources.QueuedRequest{StartBlockID: a, EndBlockID: e})
		a = e + 1
	}
	return
}

type verifier struct {
	sync.Mutex
	reject map[uint]bool
	salt   byte
	wrong  string
}

func (v *verifier) VerifyBlockRange(b uint, data []byte) bool {
	v.Lock()
	defer v.Unlock()
	s := int64(b)*10 + 3
	if !bytes.Equal(data, content(v.salt, s, s+int64(len(data)))) {
		v.wrong = fmt.Sprintf("the data given to the verifier for block %d is not the data fetched for it", b)
	}
	return !v.reject[b]
}

func spin(d time.Duration) {
	for t0 := time.Now(); time.Since(t0) < d; {
		runtime.Gosched()
	}
}

func TestVerifC15(t *testing.T) {
	h := verifharness.New(t, "random interleavings of requests (1-6, overlapping order, split into up to 4 fetches each), fetch completions in any order, receives (immediate, delayed or continuous), failures and rejections, with 1-5 concurrent fetches; non-trivial: at least two fetches in flight and completed out of order", 9*time.Second, 120*time.Second)
	defer h.Done()
	r := h.R

	for it := 0; h.More(); it++ {
		conc := 1 + r.Intn(5)
		res := resolver{uint(1 + r.Intn(3))}
		req := &slowRequester{salt: byte(it)}
		ver := &verifier{reject: map[uint]bool{}, salt: byte(it)}
		var bv blocksources.BlockVerifier
		useVer := r.Intn(2) == 0
		if useVer {
			bv = ver
		}
		faults := r.Intn(3) == 0
		if vProp == "C15" {
			faults = r.Intn(5) > 0
		}
		log := fmt.Sprintf("%d concurrent fetches, ranges split to %d blocks, verifier %v: ", conc, res.max, useVer)
		// distinct ranges: blocks are dealt out in runs
		var spans []patcher.MissingBlockSpan
		b := uint(r.Intn(3))
		for k := 1 + r.Intn(6); k > 0; k-- {
			e := b + uint(r.Intn(4))
			spans = append(spans, patcher.MissingBlockSpan{StartBlock: b, EndBlock: e})
			b = e + 1 + uint(r.Intn(2))
		}
		r.Shuffle(len(spans), func(i, j int) { spans[i], spans[j] = spans[j], spans[i] })
		src := blocksources.NewBlockSourceBase(req, res, bv, conc, 1<<20)

		want := map[uint]blocksources.QueuedRequest{} // requested, by first block
		released, rejected, failed := 0, 0, 0
		delivered := map[uint]bool{}
		outOfOrder := false
		bad := func(what string) { h.Fail("block source: "+what, log) }
		isFailed := func(b uint) bool { return false }
		failedBlocks := map[uint]bool{}
		spanOf := map[uint]int{} // by first block: which request it came from
		lowest := map[int]uint{} // with one fetch at a time: no range above this one may be fetched as number i
		isFailed = func(b uint) bool { return failedBlocks[b] }
		checkFetches := func() {
			seen := map[int64]bool{}
			for _, f := range req.started() {
				q, ok := want[uint((f.start-3)/10)]
				if !ok || res.GetBlockStartOffset(q.StartBlockID) != f.start || res.GetBlockEndOffset(q.EndBlockID) != f.end {
					bad(fmt.Sprintf("bytes %d-%d are fetched, which is not a requested range", f.start, f.end))
				}
				if seen[f.start] {
					bad(fmt.Sprintf("bytes %d-%d are fetched twice", f.start, f.end))
				}
				seen[f.start] = true
			}
			for i, f := range req.started() {
				if lo, ok := lowest[i]; ok && vProp == "C14" && uint((f.start-3)/10) > lo {
					bad(fmt.Sprintf("block %d is fetched while the earlier requested block %d still waits to be fetched", (f.start-3)/10, lo))
				}
			}
			req.Lock()
			m := req.most
			req.Unlock()
			if m > conc {
				bad(fmt.Sprintf("%d fetches run at once", m))
			}
		}
		got := func(m patcher.BlockReponse, before []*fetch) {
			log += fmt.Sprintf("got %d; ", m.StartBlock)
			if vProp != "C14" {
				return
			}
			q, ok := want[m.StartBlock]
			if !ok {
				bad(fmt.Sprintf("block %d is delivered but was not requested", m.StartBlock))
				return
			}
			if delivered[m.StartBlock] {
				bad(fmt.Sprintf("block %d is delivered twice", m.StartBlock))
				return
			}
			if useVer && ver.reject[m.StartBlock] {
				bad(fmt.Sprintf("block %d is delivered although its verification failed", m.StartBlock))
				return
			}
			if !bytes.Equal(m.Data, content(req.salt, res.GetBlockStartOffset(m.StartBlock), res.GetBlockEndOffset(q.EndBlockID))) {
				bad(fmt.Sprintf("the data delivered for block %d is not the data fetched for it", m.StartBlock))
				return
			}
			delivered[m.StartBlock] = true
			if failed+rejected > 0 {
				return
			}
			for _, f := range before {
				b := uint((f.start - 3) / 10)
				if b < m.StartBlock && !delivered[b] {
					bad(fmt.Sprintf("block %d is delivered while the earlier requested block %d is outstanding", m.StartBlock, b))
					return
				}
			}
		}
		closed := false
		receive := func(wait time.Duration) bool {
			for t0 := time.Now(); ; {
				before := req.started()
				select {
				case m, ok := <-src.GetResultChannel():
					if !ok {
						closed = true
						return false
					}
					got(m, before)
					return true
				default:
				}
				if time.Since(t0) > wait {
					return false
				}
				runtime.Gosched()
			}
		}
		settle := func(cond func() bool) {
			for t0 := time.Now(); !cond() && time.Since(t0) < 2*time.Millisecond; {
				runtime.Gosched()
			}
		}
		release := func() {
			var idle []*fetch
			fs := req.started()
			for _, f := range fs {
				if !f.done {
					idle = append(idle, f)
				}
			}
			if len(idle) == 0 {
				return
			}
			k := r.Intn(len(idle))
			f := idle[k]
			if k > 0 {
				outOfOrder = true
			}
			f.done = true
			b := uint((f.start - 3) / 10)
			var e error
			if faults && r.Intn(3) == 0 && (vProp == "C15" || failed+rejected == 0) {
				if useVer && r.Intn(2) == 0 {
					ver.Lock()
					ver.reject[b] = true
					ver.Unlock()
					rejected++
					f.empty = r.Intn(2) == 0
					log += fmt.Sprintf("fetch of %d completes, to be rejected; ", b)
				} else {
					e = errors.New("verif: fetch failed")
					failed++
					log += fmt.Sprintf("fetch of %d fails; ", b)
				}
				failedBlocks[b] = true
			} else {
				log += fmt.Sprintf("fetch of %d completes; ", b)
			}
			released++
			if conc == 1 && failed+rejected == 0 {
				// the ranges of requests that the source has certainly taken
				last, begun := -1, map[uint]bool{}
				for _, g := range fs {
					begun[uint((g.start-3)/10)] = true
					if k := spanOf[uint((g.start-3)/10)]; k > last {
						last = k
					}
				}
				for b := range want {
					if lo, ok := lowest[len(fs)]; !begun[b] && spanOf[b] <= last && (!ok || b < lo) {
						lowest[len(fs)] = b
					}
				}
			}
			f.go_ <- e
			if r.Intn(2) == 0 {
				spin(time.Duration(r.Intn(60)) * time.Microsecond)
			}
		}
		sent := 0
		request := func() bool {
			m := spans[sent]
			sent++
			for _, q := range res.SplitBlockRangeToDesiredSize(m.StartBlock, m.EndBlock) {
				want[q.StartBlockID] = q
				spanOf[q.StartBlockID] = sent
			}
			log += fmt.Sprintf("request %d-%d; ", m.StartBlock, m.EndBlock)
			if failed+rejected == 0 {
				ok := true
				if !verifharness.Within(20*time.Second, func() { ok = src.RequestBlocks(m) == nil }) {
					bad("RequestBlocks does not return")
					return false
				}
				if !ok {
					bad("RequestBlocks: unexpected error")
					return false
				}
				settle(func() bool {
					req.Lock()
					defer req.Unlock()
					return req.running >= conc || req.running >= len(want)-released
				})
			} else {
				// after a failure: it may be refused, but must neither crash nor block for ever
				h.Mark("request after failure: %s", log)
				pan := ""
				if !verifharness.Within(20*time.Second, func() {
					defer func() {
						if p := recover(); p != nil {
							pan = fmt.Sprint(p)
						}
					}()
					src.RequestBlocks(m)
				}) {
					bad("RequestBlocks after a failure does not return")
					return false
				}
				if pan != "" && vProp == "C15" {
					bad("RequestBlocks after a failure crashes: " + pan)
					return false
				}
			}
			return true
		}
		h.Mark("block source, starting with: %s", log)
		closeEarly := vProp == "C15" && r.Intn(6) == 0
		for step := 0; step < 60 && !h.Stopped() && !closed; step++ {
			if step%8 == 0 {
				h.Mark("%s", log)
			}
			switch r.Intn(4) {
			case 0:
				if sent < len(spans) {
					if !request() {
						return
					}
				}
			case 1, 2:
				release()
			case 3:
				if failed+rejected > 0 && r.Intn(2) == 0 {
					break
				}
				receive(time.Duration(r.Intn(3)) * 50 * time.Microsecond)
			}
			if closeEarly && r.Intn(8) == 0 {
				log += "close; "
				break
			}
			if failed+rejected > 0 && r.Intn(3) == 0 {
				break
			}
			checkFetches()
		}
		if h.Stopped() {
			return
		}
		h.Mark("%s", log)
		if closeEarly {
			if !verifharness.Within(20*time.Second, func() { src.Close() }) {
				bad("Close does not return")
				return
			}
		} else if failed+rejected == 0 && !closed {
			// everything requested must now arrive
			for sent < len(spans) {
				if !request() {
					return
				}
			}
			deadline := time.Now().Add(20 * time.Second)
			f0 := faults
			faults = false
			for len(delivered) < len(want) && !h.Stopped() && time.Now().Before(deadline) && vProp == "C14" {
				release()
				receive(200 * time.Microsecond)
			}
			faults = f0
			checkFetches()
			if h.Stopped() {
				return
			}
			if vProp == "C14" && len(delivered) < len(want) {
				bad(fmt.Sprintf("%d of %d fetched ranges are never delivered", len(want)-len(delivered), len(want)))
				return
			}
		}
		if failed+rejected > 0 && !closeEarly {
			// several more may fail while the error is pending
			for k := r.Intn(4); k > 0; k-- {
				release()
			}
			h.Mark("%s", log)
			if vProp == "C15" {
				var e error
				ok := false
				deadline := time.After(20 * time.Second)
			watch:
				for {
					select {
					case e, ok = <-src.EncounteredError():
						break watch
					case m, more := <-src.GetResultChannel():
						if !more {
							e, ok = <-src.EncounteredError()
							break watch
						}
						_ = m
					case <-deadline:
						bad("the failure is not reported on the error channel")
						return
					}
				}
				if !ok || e == nil {
					bad("the error channel is closed without reporting the failure")
					return
				}
				n := len(req.started())
				// when the running fetches end, whatever they return, it stops
				deadline2 := time.Now().Add(20 * time.Second)
				stopped := false
				for !stopped && time.Now().Before(deadline2) {
					release()
					h.Mark("%s", log)
					select {
					case e, ok := <-src.EncounteredError():
						if ok {
							bad(fmt.Sprint("a second error is reported: ", e))
							return
						}
						stopped = true
					case <-src.GetResultChannel():
					default:
						spin(20 * time.Microsecond)
					}
				}
				if !stopped {
					bad("the block source does not stop after a failure")
					return
				}
				// asking a stopped source for more is an error
				var e2 error
				pan := ""
				if !verifharness.Within(20*time.Second, func() {
					defer func() {
						if p := recover(); p != nil {
							pan = fmt.Sprint(p)
						}
					}()
					e2 = src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 1000, EndBlock: 1000})
				}) || pan != "" || e2 == nil {
					bad(fmt.Sprintf("requesting blocks from the stopped source does not return an error (panic: %s)", pan))
					return
				}
				if len(req.started()) > n+conc { // up to conc may have been on their way
					bad("fetches are started after the failure was reported")
					return
				}
			}
		}
		// let everything end
		req.Lock()
		req.free = true
		for _, f := range req.all {
			if !f.done {
				f.done = true
				f.go_ <- nil
			}
		}
		req.Unlock()
		h.Mark("%s", log)
		stop := make(chan bool)
		go func() {
			for range src.EncounteredError() {
			}
			close(stop)
		}()
		go func() {
			for range src.GetResultChannel() {
			}
		}()
		if !verifharness.Within(20*time.Second, func() { src.Close(); <-stop }) {
			bad("Close does not stop the block source")
			return
		}
		if e := src.Close(); e == nil && vProp == "C15" && false {
			bad("closing twice")
		}
		ver.Lock()
		if ver.wrong != "" && vProp == "C14" {
			bad(ver.wrong)
		}
		ver.Unlock()
		_ = isFailed
		key := ""
		if vProp == "C14" && outOfOrder && len(delivered) > 1 || vProp == "C15" && failed+rejected > 0 {
			key = log
		}
		h.Case(key, log)
	}
}
