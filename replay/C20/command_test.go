//verif:dir cmd/gosync
package main

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/verifharness"
)

func c20weak(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// The command divides the size of the local file among its matchers.
func TestVerifC20(t *testing.T) {
	h := verifharness.New(t, "", 6*time.Second, 100*time.Second)
	defer h.Done()
	r := h.R
	dir := os.Getenv("VERIF_SCRATCH")
	for h.More() {
		bs := 1 + r.Intn(9)
		workers := 1 + r.Intn(9)
		n := bs + r.Intn(12*bs)
		for p := 0; p+bs <= n && h.More(); p++ {
			local := make([]byte, n)
			for i := range local {
				local[i] = byte(r.Intn(100))
			}
			blk := make([]byte, bs)
			for i := range blk {
				blk[i] = byte(100 + r.Intn(100))
			}
			copy(local[p:], blk)
			s := md5.Sum(blk)
			idx := index.MakeChecksumIndex([]chunks.ChunkChecksum{{ChunkOffset: 7, Size: int64(bs), WeakChecksum: c20weak(blk), StrongChecksum: s[:]}})
			name := filepath.Join(dir, "local")
			if err := os.WriteFile(name, local, 0o644); err != nil {
				t.Fatal(err)
			}
			in := fmt.Sprintf("command, %d matchers, block size %d, local %x (block at position %d)", workers, bs, local, p)
			f, err := os.Open(name)
			if err != nil {
				t.Fatal(err)
			}
			var l comparer.BlockSpanList
			ok := h.TryWithin(20*time.Second, "multithreadedMatching", in, func() {
				m, _ := multithreadedMatching(f, idx, int64(n), int64(workers), uint(bs))
				l = m.GetMergedBlocks()
			})
			f.Close()
			if !ok {
				return
			}
			if len(l) != 1 || l[0].StartBlock != 7 || l[0].EndBlock != 7 || l[0].ComparisonStartOffset != int64(p) {
				h.Fail(fmt.Sprintf("multithreadedMatching: found %v instead of block 7 at %d", l, p), in)
				return
			}
			ss := n / workers
			ss += bs - ss%bs
			key := ""
			if p/ss != (p+bs-1)/ss {
				key = in
			}
			h.Case(key, in)
		}
	}
}
