//verif:dir .
package gosync_test

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/verifharness"
)

var errVerif = errors.New("verif: injected failure")

// a block source that returns exactly the bytes it is asked for, or fails at the k-th request
type exactSource struct {
	ref      []byte
	bs       int
	failAt   int
	n        int
	asked    map[uint]bool
	res      chan patcher.BlockReponse
	err      chan error
	requests []patcher.MissingBlockSpan
}

func (s *exactSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	s.requests = append(s.requests, m)
	s.n++
	if s.n-1 == s.failAt {
		s.err <- errVerif
		return nil
	}
	a, b := int(m.StartBlock)*s.bs, (int(m.EndBlock)+1)*s.bs
	if a > len(s.ref) {
		a = len(s.ref)
	}
	if b > len(s.ref) {
		b = len(s.ref)
	}
	s.res <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: append([]byte{}, s.ref[a:b]...)}
	return nil
}
func (s *exactSource) GetResultChannel() <-chan patcher.BlockReponse { return s.res }
func (s *exactSource) EncounteredError() <-chan error                { return s.err }

type failingReader struct {
	*bytes.Reader
	from int64 // reads that touch bytes from here on fail
}

func (f *failingReader) ReadAt(b []byte, off int64) (int, error) {
	if off+int64(len(b)) > f.from && f.from < f.Reader.Size() {
		n := 0
		if off < f.from {
			n, _ = f.Reader.ReadAt(b[:f.from-off], off)
		}
		return n, errVerif
	}
	return f.Reader.ReadAt(b, off)
}

func short(b []byte) string {
	if len(b) <= 600 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x... (%d bytes)", b[:600], len(b))
}

func weak32(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func summaryOf(ref []byte, bs int) *gosync.BasicSummary {
	var list []chunks.ChunkChecksum
	for i := 0; i*bs < len(ref); i++ {
		e := (i + 1) * bs
		if e > len(ref) {
			e = len(ref)
		}
		s := md5.Sum(ref[i*bs : e])
		list = append(list, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: weak32(ref[i*bs : e]), StrongChecksum: s[:]})
	}
	return &gosync.BasicSummary{
		ChecksumIndex:  index.MakeChecksumIndex(list),
		ChecksumLookup: chunks.StrongChecksumGetter(list),
		BlockCount:     uint(len(list)),
		BlockSize:      uint(bs),
		FileSize:       int64(len(ref)),
	}
}

func TestVerifC01(t *testing.T) {
	h := verifharness.New(t, "references of up to 14 (sometimes to 800) blocks (duplicate blocks, partial last block, empty) and local files assembled from their pieces (aligned or not, ends and tails moved to the middle) and noise, block sizes 1-8 (sometimes to 50 or 41000), 1-5 workers, exact, verified or failing sources and failing local reads; non-trivial: both copied and fetched blocks", 9*time.Second, 120*time.Second)
	defer h.Done()
	r := h.R
	conc := gosync.DefaultConcurrency
	defer func() { gosync.DefaultConcurrency = conc }()

	for it := 0; h.More(); it++ {
		bs := 1 + r.Intn(8)
		if r.Intn(8) == 0 {
			bs = 1 + r.Intn(50)
		}
		blocks := r.Intn(8)
		switch r.Intn(60) {
		case 0: // larger than the buffers of readers and copies
			bs = 1000 + r.Intn(40000)
		case 1:
			blocks = 100 + r.Intn(300)
		}
		alpha := 2 + r.Intn(3)
		word := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Intn(alpha)) * 85
			}
			return b
		}
		if r.Intn(2) == 0 {
			word = func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
		}
		var ref []byte
		for k := blocks; k > 0; k-- {
			w := word(bs)
			for m := r.Intn(2); m >= 0; m-- {
				ref = append(ref, w...)
			}
		}
		if r.Intn(3) > 0 {
			ref = append(ref, word(r.Intn(bs))...)
		}
		var local []byte
		switch r.Intn(8) {
		case 0:
			local = word(r.Intn(3*bs + 1))
		case 1:
			local = append(append([]byte{}, ref...), word(r.Intn(2*bs))...)
		case 2:
			local = append(word(r.Intn(2*bs)), ref...)
		default:
			for k := r.Intn(7); k >= 0; k-- {
				switch x := r.Intn(5); {
				case x == 0 || len(ref) == 0:
					local = append(local, word(r.Intn(2*bs+2))...)
				case x == 1: // the end of the reference
					a := len(ref) - 1 - r.Intn(2*bs)
					if a < 0 {
						a = 0
					}
					if r.Intn(2) == 0 {
						a = (len(ref) - 1) / bs * bs
					}
					local = append(local, ref[a:]...)
				default:
					a := r.Intn(len(ref))
					if r.Intn(2) == 0 {
						a -= a % bs
					}
					b := a + bs*(1+r.Intn(4))
					if r.Intn(2) == 0 {
						b = a + r.Intn(3*bs+1)
					}
					if b > len(ref) {
						b = len(ref)
					}
					local = append(local, ref[a:b]...)
				}
			}
		}
		workers := 1 + r.Intn(5)
		if r.Intn(3) > 0 {
			workers = 1
		}
		gosync.DefaultConcurrency = workers
		fault := r.Intn(10)
		kind := r.Intn(4)
		in := fmt.Sprintf("block size %d, reference %s, local %s, %d workers", bs, short(ref), short(local), workers)
		src := &exactSource{ref: ref, bs: bs, failAt: -1, res: make(chan patcher.BlockReponse, 200), err: make(chan error, 10)}
		var source patcher.BlockSource = src
		if fault == 0 {
			src.failAt = r.Intn(4)
			in += fmt.Sprintf(", request %d fails", src.failAt)
		} else if kind == 0 {
			b := blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref), blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))))
			defer b.Close()
			source = b
			in += ", ReadSeekerBlockSource"
		}
		var input gosync.ReadSeekerAt = bytes.NewReader(local)
		if fault == 1 && len(local) > 0 {
			f := &failingReader{bytes.NewReader(local), int64(r.Intn(len(local)))}
			input = f
			in += fmt.Sprintf(", local ReadAt fails from %d on", f.from)
		}
		var out bytes.Buffer
		var err error
		rs := &gosync.RSync{Input: input, Source: source, Output: &out, Summary: summaryOf(ref, bs)}
		if !h.TryWithin(20*time.Second, "Patch", in, func() {
			h.Mark("%s", in)
			err = rs.Patch()
		}) {
			return
		}
		if err == nil && !bytes.Equal(out.Bytes(), ref) {
			h.Fail(fmt.Sprintf("Patch: no error, but the output is %s", short(out.Bytes())), in)
			return
		}
		if src.failAt >= 0 && src.n > src.failAt {
			if err == nil {
				h.Fail("Patch: failing request not reported", in)
				return
			}
		} else if err != nil {
			h.Fail("Patch: unexpected error "+err.Error(), in)
			return
		}
		key := ""
		fetched := 0
		for _, m := range src.requests {
			fetched += int(m.EndBlock - m.StartBlock + 1)
		}
		if fetched > 0 && fetched*bs < len(ref) {
			key = in
		}
		h.Case(key, in)
	}
}
