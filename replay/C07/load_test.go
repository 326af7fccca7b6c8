//verif:dir chunks
package chunks_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/verifharness"
)

var errRead = errors.New("verif: read failed")

type pieces struct {
	data  []byte
	sizes []int
	k     int
	end   error
	withN bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, p.end
	}
	n := p.sizes[p.k%len(p.sizes)]
	p.k++
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.withN && len(p.data) == 0 {
		return n, p.end
	}
	return n, nil
}

func TestVerifC07(t *testing.T) {
	h := verifharness.New(t, "streams of 0-40 pairs plus 0-39 extra bytes, weak sizes 1-9 and strong sizes 1-33, every chunking, ending in EOF or a failure (alone or together with the last bytes); build-then-load through BuildChecksumIndex; non-trivial: at least two pairs", 5*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	for it := 0; h.More(); it++ {
		ws, ss := 1+r.Intn(5), 1+r.Intn(5)
		if r.Intn(3) == 0 {
			ws, ss = 1+r.Intn(9), 1+r.Intn(33)
		}
		pairs := r.Intn(6)
		if r.Intn(10) == 0 {
			pairs = r.Intn(60)
		}
		if it%200 == 50 {
			pairs = r.Intn(6000)
		}
		extra := 0
		if r.Intn(2) == 0 {
			extra = r.Intn(ws + ss)
			if r.Intn(3) == 0 {
				extra = ws
			}
		}
		data := make([]byte, pairs*(ws+ss)+extra)
		r.Read(data)
		end := []error{io.EOF, io.EOF, errRead, io.ErrUnexpectedEOF}[r.Intn(4)]
		withN := r.Intn(2) == 0
		sizes := []int{[]int{1 << 20, 1, 2, ws, ss, ws + ss}[r.Intn(6)], 1 + r.Intn(ws+ss)}
		if r.Intn(4) == 0 {
			sizes = append(sizes, 0) // a read of nothing
		}
		in := fmt.Sprintf("weak size %d, strong size %d, stream %x (%d pairs and %d bytes), pieces of %v, ends with %v (together with data: %v)", ws, ss, cut(data), pairs, extra, sizes, end, withN)
		var got []chunks.ChunkChecksum
		var err error
		if !h.TryWithin(20*time.Second, "LoadChecksumsFromReader", in, func() {
			got, err = chunks.LoadChecksumsFromReader(&pieces{data: append([]byte{}, data...), sizes: sizes, end: end, withN: withN}, ws, ss)
		}) {
			return
		}
		if extra > 0 || end != io.EOF {
			// a failure reported together with the bytes that complete a pair may be seen as EOF by the next read only
			if err == nil {
				h.Fail(fmt.Sprintf("LoadChecksumsFromReader: no error, %d entries", len(got)), in)
				return
			}
			if got != nil {
				h.Fail(fmt.Sprintf("LoadChecksumsFromReader: an error (%v) and also %d entries", err, len(got)), in)
				return
			}
		} else {
			if err != nil {
				h.Fail(fmt.Sprint("LoadChecksumsFromReader: unexpected error ", err), in)
				return
			}
			if len(got) != pairs {
				h.Fail(fmt.Sprintf("LoadChecksumsFromReader: %d entries, want %d", len(got), pairs), in)
				return
			}
			for i, c := range got {
				d := data[i*(ws+ss):]
				if c.ChunkOffset != uint(i) || !bytes.Equal(c.WeakChecksum, d[:ws]) || !bytes.Equal(c.StrongChecksum, d[ws:ws+ss]) {
					h.Fail(fmt.Sprintf("LoadChecksumsFromReader: entry %d is number %d, %x, %x", i, c.ChunkOffset, c.WeakChecksum, c.StrongChecksum), in)
					return
				}
			}
		}
		key := ""
		if pairs > 1 {
			key = in
		}
		h.Case(key, in)

		if it%10 == 0 { // generate, store, load, index
			bs := 1 + r.Intn(8)
			d := make([]byte, r.Intn(12*bs))
			for i := range d {
				d[i] = byte(r.Intn(3))
			}
			in := fmt.Sprintf("block size %d, data %x", bs, d)
			n := (len(d) + bs - 1) / bs
			var gen = filechecksum.NewFileChecksumGenerator(uint(bs))
			h.Try("BuildChecksumIndex", in, func() {
				_, idx, lookup, err := indexbuilder.BuildChecksumIndex(gen, bytes.NewReader(d))
				if err != nil || idx.BlockCount != n {
					h.Fail(fmt.Sprintf("BuildChecksumIndex: error %v", err), in)
					return
				}
				for i := 0; i < n; i++ {
					e := (i + 1) * bs
					if e > len(d) {
						e = len(d)
					}
					sh := filechecksum.DefaultStrongHashGenerator()
					sh.Write(d[i*bs : e])
					if !bytes.Equal(lookup.GetStrongChecksumForBlock(i), sh.Sum(nil)) {
						h.Fail(fmt.Sprintf("BuildChecksumIndex: checksum of block %d is wrong", i), in)
						return
					}
				}
				_, idx, _, err = indexbuilder.BuildChecksumIndex(gen, &pieces{data: append([]byte{}, d...), sizes: sizes, end: errRead, withN: withN})
				if err == nil {
					h.Fail("BuildChecksumIndex: failing reader not reported", in)
				}
			})
			h.Case("", in)
		}
	}
}

func cut(b []byte) []byte {
	if len(b) > 2000 {
		return b[:2000]
	}
	return b
}
