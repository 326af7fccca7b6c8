//verif:dir rollsum
package rollsum_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/rollsum"
	"github.com/Redundancy/go-sync/verifharness"
)

func c03Sum(w []byte) []byte {
	var a, b uint64
	n := len(w)
	for i, x := range w {
		a += uint64(x)
		b += uint64(n-i) * uint64(x)
	}
	return []byte{byte(a), byte(a >> 8), byte(b), byte(b >> 8)}
}

func TestVerifC03(t *testing.T) {
	h := verifharness.New(t, "random sequences of writes (empty to three blocks), resets and sums on block sizes 1 to 1000; non-trivial: more than one block was written in several writes", 5*time.Second, 120*time.Second)
	defer h.Done()
	r := h.R
	for h.More() {
		bs := 1 + r.Intn(9)
		if r.Intn(6) == 0 {
			bs = 1 + r.Intn(1000)
		}
		if r.Intn(300) == 0 {
			bs = 1 + r.Intn(100000)
		}
		s := rollsum.NewRollsum32(uint(bs))
		var all []byte
		var log []string
		nontrivial := false
		fill := r.Intn(3)
		steps := 2 + r.Intn(20)
		if r.Intn(30) == 0 && bs < 100 {
			steps = 300
		}
		for k := 0; k < steps && !h.Stopped(); k++ {
			op := r.Intn(12)
			h.Try("rolling hash", &log, func() {
				if op == 0 {
					log = append(log, "Reset()")
					s.Reset()
					all = nil
				} else {
					n := r.Intn(bs + 2)
					switch r.Intn(6) {
					case 0:
						n = r.Intn(3*bs + 1)
					case 1:
						n = bs
					case 2:
						n = 1
					}
					b := make([]byte, n)
					for i := range b {
						if fill == 0 {
							b[i] = 255
						} else {
							b[i] = byte(r.Intn(256))
						}
					}
					log = append(log, fmt.Sprintf("Write(%.100x)", b))
					c, err := s.Write(b)
					if c != n || err != nil {
						h.Fail(fmt.Sprintf("Write of %d bytes returned %d, %v", n, c, err), map[string]interface{}{"block_size": bs, "ops": log})
						return
					}
					if len(all) > 0 && len(all)+n > bs {
						nontrivial = true
					}
					all = append(all, b...)
					for i := range b {
						b[i] = 0xEE
					}
				}
				last := all
				if len(last) > bs {
					last = last[len(last)-bs:]
				}
				in := map[string]interface{}{"block_size": bs, "ops": log}
				pre := make([]byte, r.Intn(6), 6+r.Intn(8))
				r.Read(pre)
				if r.Intn(4) == 0 {
					pre = nil
				}
				keep := append([]byte{}, pre...)
				for twice := 0; twice < 2; twice++ {
					got := s.Sum(pre)
					want := append(append([]byte{}, keep...), c03Sum(last)...)
					if !bytes.Equal(got, want) {
						h.Fail(fmt.Sprintf("Sum(%v) returned %v, expected %v", keep, got, want), in)
						return
					}
					if !bytes.Equal(pre, keep) {
						h.Fail("Sum changed existing bytes", in)
						return
					}
				}
				if got := s.GetLastBlock(); !bytes.Equal(got, last) {
					h.Fail(fmt.Sprintf("GetLastBlock returned %.200x, expected %.200x", got, last), in)
				} else if s.BlockSize() != bs || s.Size() != 4 {
					h.Fail(fmt.Sprintf("BlockSize() %d, Size() %d", s.BlockSize(), s.Size()), in)
				}
			})
		}
		key := ""
		if nontrivial {
			key = fmt.Sprint(bs, log)
		}
		h.Case(key, map[string]interface{}{"block_size": bs, "ops": log})
	}
}
