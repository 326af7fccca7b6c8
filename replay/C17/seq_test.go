//verif:dir patcher/sequential
package sequential_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"github.com/Redundancy/go-sync/verifharness"
)

var errVerif = errors.New("verif: injected failure")

// a local file that fails after a number of operations, and delivers data in pieces
type localFile struct {
	data     []byte
	pos      int64
	seeks    int
	failSeek int // -1: never
	failRead int // reading at or past this offset fails; -1: never
	piece    int
	hit      bool
	bad      bool
}

func (l *localFile) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if l.failRead >= 0 && l.pos >= int64(l.failRead) {
		l.hit = true
		return 0, errVerif
	}
	if l.pos >= int64(len(l.data)) {
		return 0, io.EOF
	}
	n := len(b)
	if n > l.piece {
		n = l.piece
	}
	if l.failRead >= 0 && l.pos+int64(n) > int64(l.failRead) {
		n = int(int64(l.failRead) - l.pos)
	}
	n = copy(b[:n], l.data[l.pos:])
	l.pos += int64(n)
	return n, nil
}

func (l *localFile) Seek(off int64, whence int) (int64, error) {
	l.seeks++
	if l.seeks-1 == l.failSeek {
		l.hit = true
		return 0, errVerif
	}
	switch whence {
	case 0:
		l.pos = off
	case 1:
		l.pos += off
	case 2:
		l.pos = int64(len(l.data)) + off
	}
	return l.pos, nil
}

type writer struct {
	bytes.Buffer
	left int
	hit  bool
}

func (w *writer) Write(b []byte) (int, error) {
	if len(b) > w.left {
		w.hit = true
		n := w.left
		w.Buffer.Write(b[:n])
		w.left = 0
		return n, errVerif
	}
	w.left -= len(b)
	return w.Buffer.Write(b)
}

type source struct {
	answers  []patcher.BlockReponse // what to deliver for the k-th request
	kind     []int                  // 0 deliver, 1 request fails, 2 error channel
	requests []patcher.MissingBlockSpan
	res      chan patcher.BlockReponse
	err      chan error
	hit      bool
}

func (s *source) RequestBlocks(m patcher.MissingBlockSpan) error {
	k := len(s.requests)
	s.requests = append(s.requests, m)
	if k >= len(s.kind) {
		return errors.New("verif: too many requests")
	}
	switch s.kind[k] {
	case 0:
		s.res <- s.answers[k]
	case 1:
		s.hit = true
		// a source that refuses a request will not say anything else; to keep the patcher from
		// waiting for ever it delivers the right blocks
		s.res <- s.answers[k]
		return errVerif
	case 2:
		s.hit = true
		s.err <- errVerif
	}
	return nil
}
func (s *source) GetResultChannel() <-chan patcher.BlockReponse { return s.res }
func (s *source) EncounteredError() <-chan error                { return s.err }

// a local file of a given size, whose bytes do not matter: large sizes are cheap to read
type bigFile struct{ pos, size int64 }

func (b *bigFile) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case 1:
		o += b.pos
	case 2:
		o += b.size
	}
	b.pos = o
	return o, nil
}

func (b *bigFile) Read(p []byte) (int, error) {
	if b.pos >= b.size {
		return 0, io.EOF
	}
	if int64(len(p)) > b.size-b.pos {
		p = p[:b.size-b.pos]
	}
	b.pos += int64(len(p))
	return len(p), nil
}

type counter int64

func (c *counter) Write(p []byte) (int, error) { *c += counter(len(p)); return len(p), nil }

func TestVerifC17(t *testing.T) {
	h := verifharness.New(t, "random tilings of up to 12 (sometimes 250) blocks of 1-6 (sometimes to 61000) bytes by found and missing spans (offsets anywhere in the local data, partial last block), reader pieces, and at most one fault: failing seek, read, write, request, error channel, delivery of the wrong block or length, local data too short; non-trivial: both kinds of spans", 5*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	// spans of more than 4 GiB
	{
		const size = 1<<32 + 1<<24
		in := map[string]interface{}{"found": "blocks 0-4111 of 1 MiB, at offset 100 of the local file", "missing": "none"}
		h.Try("SequentialPatcher", in, func() {
			var n counter
			err := sequential.SequentialPatcher(&bigFile{size: size + 200}, &source{}, nil,
				[]patcher.FoundBlockSpan{{StartBlock: 0, EndBlock: 1<<12 + 15, BlockSize: 1 << 20, MatchOffset: 100}}, 1<<20, &n)
			if err != nil || n != size {
				h.Fail(fmt.Sprintf("wrote %d of %d bytes, and returned %v", n, int64(size), err), in)
			}
		})
		h.Case("", in)
	}

	for it := 0; h.More(); it++ {
		bs := 1 + r.Intn(6)
		n := 1 + r.Intn(12)
		switch r.Intn(60) {
		case 0: // larger than the buffers of copies
			bs = 1000 + r.Intn(60000)
		case 1:
			n = 50 + r.Intn(200)
		}
		local := make([]byte, r.Intn(60)+bs*r.Intn(6))
		r.Read(local)
		fault := r.Intn(9)
		var found []patcher.FoundBlockSpan
		var missing []patcher.MissingBlockSpan
		src := &source{res: make(chan patcher.BlockReponse, 100), err: make(chan error, 100)}
		var want []byte
		tooShort := false
		desc := fmt.Sprintf("block size %d, %d local bytes; ", bs, len(local))
		for b := 0; b < n; {
			e := b + r.Intn(4)
			if r.Intn(3) == 0 {
				e = b
			}
			if e > n-1 {
				e = n - 1
			}
			size := (e - b + 1) * bs
			useLocal := r.Intn(2) == 0
			last := e == n-1
			if useLocal {
				lim := len(local) - size
				if fault == 8 && r.Intn(3) == 0 || last && r.Intn(3) == 0 {
					lim = len(local)
				}
				if lim < 0 {
					useLocal = false
				} else {
					off := r.Intn(lim + 1)
					end := off + size
					if end > len(local) {
						end = len(local)
						if !last {
							tooShort = true
						}
					}
					found = append(found, patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(e), BlockSize: int64(bs), MatchOffset: int64(off)})
					want = append(want, local[off:end]...)
					desc += fmt.Sprintf("blocks %d-%d at local %d; ", b, e, off)
				}
			}
			if !useLocal {
				if last {
					size -= r.Intn(bs)
				}
				d := make([]byte, size)
				r.Read(d)
				missing = append(missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(e), BlockSize: int64(bs)})
				src.answers = append(src.answers, patcher.BlockReponse{StartBlock: uint(b), Data: d})
				src.kind = append(src.kind, 0)
				want = append(want, d...)
				desc += fmt.Sprintf("blocks %d-%d missing (%d bytes); ", b, e, size)
			}
			b = e + 1
		}
		lf := &localFile{data: append([]byte{}, local...), failSeek: -1, failRead: -1, piece: []int{1, 2, bs, 1 << 20}[r.Intn(4)]}
		w := &writer{left: 1 << 30}
		badDelivery := -1
		switch fault {
		case 1:
			lf.failSeek = r.Intn(len(found) + 1)
			desc += fmt.Sprintf("seek %d fails", lf.failSeek)
		case 2:
			lf.failRead = r.Intn(len(local) + 1)
			desc += fmt.Sprintf("local read at %d fails", lf.failRead)
		case 3:
			w.left = r.Intn(len(want) + 1)
			desc += fmt.Sprintf("writing more than %d bytes fails", w.left)
		case 4, 5:
			if len(missing) > 0 {
				k := r.Intn(len(missing))
				src.kind[k] = fault - 3
				desc += fmt.Sprintf("request %d fails (kind %d)", k, fault-3)
			}
		case 6:
			if len(missing) > 0 {
				badDelivery = r.Intn(len(missing))
				a := &src.answers[badDelivery]
				d := []int{1, -1, 2, bs, int(-a.StartBlock)}[r.Intn(5)]
				if d == 0 {
					d = 1
				}
				a.StartBlock = uint(int(a.StartBlock) + d)
				desc += fmt.Sprintf("delivery %d is for block %d", badDelivery, int(a.StartBlock))
			}
		case 7:
			if len(missing) > 0 {
				badDelivery = r.Intn(len(missing))
				a := &src.answers[badDelivery]
				full := int(missing[badDelivery].EndBlock-missing[badDelivery].StartBlock+1) * bs
				var l int
				for {
					l = r.Intn(full + 2*bs)
					if l != full && !(missing[badDelivery].EndBlock == uint(n-1) && l > full-bs && l < full) {
						break
					}
				}
				a.Data = make([]byte, l)
				desc += fmt.Sprintf("delivery %d has %d bytes", badDelivery, l)
			}
		}
		given := append([]patcher.MissingBlockSpan{}, missing...)
		var err error
		if !h.TryWithin(20*time.Second, "SequentialPatcher", desc, func() {
			err = sequential.SequentialPatcher(lf, src, missing, found, 1<<20, w)
		}) {
			return
		}
		mustFail := lf.hit || w.hit || src.hit || badDelivery >= 0 || tooShort
		bad := func(s string) { h.Fail("SequentialPatcher: "+s, desc) }
		switch {
		case mustFail && err == nil:
			bad("failure not reported")
		case !mustFail && err != nil:
			bad("unexpected error " + err.Error())
		case err == nil:
			if !bytes.Equal(w.Bytes(), want) {
				bad(fmt.Sprintf("wrote %x, want %x", w.Bytes(), want))
				return
			}
			if len(src.requests) != len(given) {
				bad(fmt.Sprintf("%d requests for %d missing spans", len(src.requests), len(given)))
				return
			}
			for i := range given {
				if src.requests[i].StartBlock != given[i].StartBlock || src.requests[i].EndBlock != given[i].EndBlock {
					bad(fmt.Sprintf("request %d is for blocks %d-%d", i, src.requests[i].StartBlock, src.requests[i].EndBlock))
					return
				}
			}
		}
		if h.Stopped() {
			return
		}
		key := ""
		if len(found) > 0 && len(missing) > 0 {
			key = desc
		}
		h.Case(key, desc)
	}
	if sequential.SequentialPatcher(&localFile{failSeek: -1, failRead: -1}, nil, nil, nil, 0, &writer{}) == nil {
		h.Fail("SequentialPatcher: no block source is not an error", "")
	}
}
