//verif:dir .
package gosync_test

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/verifharness"
)

// a block source that returns exactly the bytes it is asked for, and remembers the blocks
type recordingSource struct {
	ref   []byte
	bs    int
	asked map[uint]bool
	res   chan patcher.BlockReponse
	err   chan error
}

func (s *recordingSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	a, b := int(m.StartBlock)*s.bs, (int(m.EndBlock)+1)*s.bs
	if a > len(s.ref) {
		a = len(s.ref)
	}
	if b > len(s.ref) {
		b = len(s.ref)
	}
	for i := m.StartBlock; i <= m.EndBlock; i++ {
		s.asked[i] = true
	}
	s.res <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: append([]byte{}, s.ref[a:b]...)}
	return nil
}
func (s *recordingSource) GetResultChannel() <-chan patcher.BlockReponse { return s.res }
func (s *recordingSource) EncounteredError() <-chan error                { return s.err }

func weak20(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// The library divides the size of the reference among the workers. One block of the reference lies
// at position p of an otherwise unrelated local file: it must be found for every p inside that size.
func TestVerifC20(t *testing.T) {
	h := verifharness.New(t, "one block placed at every position of the divided size (library and command-line matcher), block sizes 1-9, workers 1-9, file sizes 1-120 (more in the thorough tier); non-trivial: the block crosses the border of two sections", 7*time.Second, 100*time.Second)
	defer h.Done()
	r := h.R
	conc := gosync.DefaultConcurrency
	defer func() { gosync.DefaultConcurrency = conc }()

	for h.More() {
		bs := 1 + r.Intn(9)
		workers := 1 + r.Intn(9)
		nref := bs + r.Intn(12*bs)
		if nref > 120 {
			nref = 120
		}
		full := nref / bs
		ref := make([]byte, nref)
		for i := range ref {
			ref[i] = byte(100 + r.Intn(100))
		}
		var list []chunks.ChunkChecksum
		for i := 0; i*bs < nref; i++ {
			e := (i + 1) * bs
			if e > nref {
				e = nref
			}
			s := md5.Sum(ref[i*bs : e])
			list = append(list, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: weak20(ref[i*bs : e]), StrongChecksum: s[:]})
		}
		summary := &gosync.BasicSummary{
			ChecksumIndex:  index.MakeChecksumIndex(list),
			ChecksumLookup: chunks.StrongChecksumGetter(list),
			BlockCount:     uint(len(list)), BlockSize: uint(bs), FileSize: int64(nref),
		}
		gosync.DefaultConcurrency = workers
		block := r.Intn(full)
		for p := 0; p < nref && h.More(); p++ {
			local := make([]byte, p+bs+r.Intn(2*bs))
			for i := range local {
				local[i] = byte(r.Intn(100))
			}
			copy(local[p:], ref[block*bs:(block+1)*bs])
			in := fmt.Sprintf("library, %d workers, block size %d, reference %x, local %x (block %d at position %d)", workers, bs, ref, local, block, p)
			src := &recordingSource{ref: ref, bs: bs, asked: map[uint]bool{}, res: make(chan patcher.BlockReponse, 200), err: make(chan error, 10)}
			var out bytes.Buffer
			var err error
			rs := &gosync.RSync{Input: bytes.NewReader(local), Source: src, Output: &out, Summary: summary}
			if !h.TryWithin(20*time.Second, "Patch", in, func() { err = rs.Patch() }) {
				return
			}
			if err != nil {
				h.Fail("Patch: unexpected error "+err.Error(), in)
				return
			}
			// equal blocks of the reference may be found in place of each other only if they are all found
			if src.asked[uint(block)] {
				h.Fail(fmt.Sprintf("Patch: block %d is at position %d of the local file, inside the divided size, but was fetched", block, p), in)
				return
			}
			if !bytes.Equal(out.Bytes(), ref) {
				h.Fail(fmt.Sprintf("Patch: the output is %x (an offset is not relative to the whole file)", out.Bytes()), in)
				return
			}
			ss := nref / workers
			ss += bs - ss%bs
			key := ""
			if p/ss != (p+bs-1)/ss {
				key = in
			}
			h.Case(key, in)
		}
	}
}
