//verif:dir filechecksum
package filechecksum_test

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"hash"
	"io"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/verifharness"
)

var errRead = errors.New("verif: read failed")
var errWrite = errors.New("verif: write failed")
var errComp = errors.New("verif: compression failed")

// delivers data in pieces, and fails (or ends) at its end
type pieces struct {
	data   []byte
	sizes  []int
	k      int
	end    error
	withN  bool // deliver the end together with the last bytes
	served bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, p.end
	}
	n := p.sizes[p.k%len(p.sizes)]
	p.k++
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.withN && len(p.data) == 0 {
		return n, p.end
	}
	return n, nil
}

type limitWriter struct {
	bytes.Buffer
	left int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if len(b) > l.left {
		n := l.left
		l.Buffer.Write(b[:n])
		l.left = 0
		return n, errWrite
	}
	l.left -= len(b)
	return l.Buffer.Write(b)
}

// a hash that takes its time to reset
type slowReset struct {
	hash.Hash
	d time.Duration
}

func (s *slowReset) Reset() { time.Sleep(s.d); s.Hash.Reset() }

func weak32(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func TestVerifC06(t *testing.T) {
	h := verifharness.New(t, "random inputs around block boundaries, block sizes 1-40, batch sizes 0-9, reader chunkings incl. short reads and data together with EOF, read, compression and write failures at every point; non-trivial: at least two blocks", 6*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	for it := 0; h.More(); it++ {
		bs := 1 + r.Intn(9)
		if r.Intn(5) == 0 {
			bs = 1 + r.Intn(40)
		}
		if it%50 == 30 {
			bs = 1 + r.Intn(100000)
		}
		n := r.Intn(6*bs + 3)
		switch r.Intn(4) {
		case 0:
			n = bs * r.Intn(6)
		case 1:
			n = bs*r.Intn(200) + r.Intn(2)
			if bs > 40 {
				n = bs*r.Intn(4) + r.Intn(2)
			}
		}
		data := make([]byte, n)
		if r.Intn(2) == 0 {
			r.Read(data)
		} else {
			for i := range data {
				data[i] = byte(r.Intn(2)) * 255
			}
		}
		sizes := []int{[]int{1 << 20, 1, 2, bs, bs + 1}[r.Intn(5)], 1 + r.Intn(bs+2)}
		if r.Intn(4) == 0 {
			sizes = append(sizes, 0) // a read of nothing
		}
		end := error(io.EOF)
		kind := r.Intn(6)
		switch kind {
		case 0:
			end = errRead
		case 1:
			end = io.ErrUnexpectedEOF
		}
		withN := r.Intn(3) == 0
		batch := uint(r.Intn(10))
		in := fmt.Sprintf("block size %d, batch %d, %d bytes %x in pieces of %v, ending with %v (together with data: %v)", bs, batch, n, cut(data), sizes, end, withN)

		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		nblocks := (n + bs - 1) / bs
		blk := func(i int) []byte {
			e := (i + 1) * bs
			if e > n {
				e = n
			}
			return data[i*bs : e]
		}
		sum := md5.Sum(data)

		// 1: the channel of results
		var compSeen [][]byte
		compFail := -1
		var comp filechecksum.CompressionFunction
		if r.Intn(2) == 0 {
			if r.Intn(3) == 0 && nblocks > 0 {
				compFail = r.Intn(nblocks)
			}
			comp = func(b []byte) (int64, error) {
				compSeen = append(compSeen, append([]byte{}, b...))
				if len(compSeen)-1 == compFail {
					return 0, errComp
				}
				return int64(1000 + len(compSeen)), nil
			}
		}
		var got []chunks.ChunkChecksum
		var fsum []byte
		var gerr error
		after := false
		batches := []int{}
		if !h.TryWithin(20*time.Second, "StartChecksumGeneration", in, func() {
			for res := range g.StartChecksumGeneration(&pieces{data: append([]byte{}, data...), sizes: sizes, end: end, withN: withN}, batch, comp) {
				if fsum != nil || gerr != nil {
					after = true
				}
				got = append(got, res.Checksums...)
				batches = append(batches, len(res.Checksums))
				if res.Filechecksum != nil {
					fsum = res.Filechecksum
				}
				if res.Err != nil {
					gerr = res.Err
				}
			}
		}) {
			return
		}
		bad := func(what string) { h.Fail("checksum generation: "+what, in) }
		if after {
			bad("results after the last one")
			return
		}
		for i, c := range got {
			if i >= nblocks {
				bad("more entries than blocks")
				return
			}
			ms := md5.Sum(blk(i))
			if c.ChunkOffset != uint(i) || !bytes.Equal(c.WeakChecksum, weak32(blk(i))) || !bytes.Equal(c.StrongChecksum, ms[:]) {
				bad(fmt.Sprintf("entry %d is number %d weak %x strong %x, want weak %x strong %x", i, c.ChunkOffset, c.WeakChecksum, c.StrongChecksum, weak32(blk(i)), ms))
				return
			}
			if comp != nil && c.Size != int64(1001+i) {
				bad(fmt.Sprintf("entry %d has size %d, the compression said %d", i, c.Size, 1001+i))
				return
			}
		}
		for i, c := range compSeen {
			if i >= nblocks || !bytes.Equal(c, blk(i)) {
				bad(fmt.Sprintf("block %d given to the compression is %x", i, c))
				return
			}
		}
		if end != io.EOF || compFail >= 0 {
			if gerr == nil || fsum != nil {
				bad(fmt.Sprintf("failure (reader: %v, compression of block %d) not reported: error %v, checksum %x", end, compFail, gerr, fsum))
				return
			}
		} else {
			if gerr != nil {
				bad(fmt.Sprint("unexpected error ", gerr))
				return
			}
			if len(got) != nblocks {
				bad(fmt.Sprintf("%d entries, want %d", len(got), nblocks))
				return
			}
			if !bytes.Equal(fsum, sum[:]) {
				bad(fmt.Sprintf("file checksum %x, want %x", fsum, sum))
				return
			}
			if comp != nil && len(compSeen) != nblocks {
				bad(fmt.Sprintf("%d blocks compressed of %d", len(compSeen), nblocks))
				return
			}
		}

		// 2: serialised, with the same generator
		out := &limitWriter{left: 1 << 30}
		full := nblocks * 20
		if r.Intn(3) == 0 && full > 0 {
			out.left = r.Intn(full)
		}
		lim := out.left
		slow := it%1000 == 7
		if slow {
			g.StrongHash = &slowReset{g.StrongHash, 5 * time.Millisecond}
			g.FileChecksumHash = &slowReset{g.FileChecksumHash, 5 * time.Millisecond}
			lim, out.left = 1<<30, 1<<30
			end = io.EOF
		}
		reps := 1
		if slow {
			reps = 2
		}
		for rep := 0; rep < reps; rep++ {
			out.Reset()
			var f []byte
			var err error
			if !h.TryWithin(20*time.Second, "GenerateChecksums", in, func() {
				f, err = g.GenerateChecksums(&pieces{data: append([]byte{}, data...), sizes: sizes, end: end, withN: withN}, out)
			}) {
				return
			}
			if end != io.EOF || lim < full {
				if err == nil || f != nil {
					bad(fmt.Sprintf("GenerateChecksums: failure (reader: %v, writer full after %d bytes) not reported: error %v, checksum %x", end, lim, err, f))
					return
				}
				continue
			}
			var want []byte
			for i := 0; i < nblocks; i++ {
				ms := md5.Sum(blk(i))
				want = append(append(want, weak32(blk(i))...), ms[:]...)
			}
			if err != nil || !bytes.Equal(f, sum[:]) {
				bad(fmt.Sprintf("GenerateChecksums (use %d of the generator) returned %x, %v; want %x", rep+2, f, err, sum))
				return
			}
			if !bytes.Equal(out.Bytes(), want) {
				bad(fmt.Sprintf("GenerateChecksums (use %d of the generator) wrote %x, want %x", rep+2, cut(out.Bytes()), cut(want)))
				return
			}
		}
		key := ""
		if nblocks > 1 {
			key = in
		}
		h.Case(key, in)
	}
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}
