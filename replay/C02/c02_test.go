//verif:dir rollsum
package rollsum_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/rollsum"
	"github.com/Redundancy/go-sync/verifharness"
)

// oracle: the checksum of a window, computed from its bytes
func c02Sum(w []byte) [4]byte {
	var a, b uint64
	n := len(w)
	for i, x := range w {
		a += uint64(x)
		b += uint64(n-i) * uint64(x)
	}
	return [4]byte{byte(a), byte(a >> 8), byte(b), byte(b >> 8)}
}

func TestVerifC02(t *testing.T) {
	h := verifharness.New(t, "random sequences of window operations on windows up to 70000 bytes, low and high byte values; non-trivial: window of at least 2 bytes with a removal", 6*time.Second, 120*time.Second)
	defer h.Done()
	r := h.R
	rb := func(n int) []byte {
		b := make([]byte, n)
		switch r.Intn(3) {
		case 0:
			r.Read(b)
		case 1:
			for i := range b {
				b[i] = 255
			}
		default:
			for i := range b {
				b[i] = byte(r.Intn(3))
			}
		}
		return b
	}
	sizes := []int{0, 1, 2, 3, 5, 16, 255, 256, 257, 258, 1000, 70000}
	for h.More() {
		var w []byte
		var log []string
		ms := sizes[r.Intn(len(sizes))]
		if r.Intn(4) > 0 {
			ms = sizes[r.Intn(7)]
		}
		s := rollsum.NewRollsum32Base(uint(ms))
		removed := false
		check := func() bool {
			out := []byte{9, 9, 9, 9, 7}
			s.GetSum(out[:4])
			e := c02Sum(w)
			if [4]byte{out[0], out[1], out[2], out[3]} != e || out[4] != 7 {
				h.Fail(fmt.Sprintf("checksum of a %d byte window is %v, expected %v", len(w), out[:4], e), map[string]interface{}{"ops": log, "window": fmt.Sprintf("%.200x", w)})
				return false
			}
			return true
		}
		steps := 12
		if r.Intn(50) == 0 && ms < 300 {
			steps = 600
		}
		for k := 0; k < steps && !h.Stopped(); k++ {
			op := r.Intn(7)
			n := r.Intn(ms + 2)
			h.Try("rolling checksum", &log, func() {
				switch op {
				case 0:
					b := rb(1)
					log = append(log, fmt.Sprintf("AddByte(%d)", b[0]))
					s.AddByte(b[0])
					w = append(w[:len(w):len(w)], b[0])
				case 1:
					b := rb(n)
					log = append(log, fmt.Sprintf("AddBytes(%.60x.. len %d)", b, n))
					s.AddBytes(b)
					w = append(w[:len(w):len(w)], b...)
				case 2:
					if len(w) > 0 {
						log = append(log, fmt.Sprintf("RemoveByte(%d, %d)", w[0], len(w)))
						s.RemoveByte(w[0], len(w))
						w = w[1:]
						removed = true
					}
				case 3:
					if n > len(w) {
						n = len(w)
					}
					log = append(log, fmt.Sprintf("RemoveBytes(first %d, %d)", n, len(w)))
					s.RemoveBytes(append([]byte(nil), w[:n]...), len(w))
					w = w[n:]
					removed = true
				case 4:
					// the way a rolling window advances: add len(b), evict what no longer fits
					b := rb(n)
					ev := 0
					if len(w)+len(b) > ms {
						ev = len(w) + len(b) - ms
					}
					if ev > len(b) || ev > len(w) {
						return
					}
					log = append(log, fmt.Sprintf("AddAndRemoveBytes(%.60x.. len %d, evicted %d, %d)", b, len(b), ev, len(w)))
					s.AddAndRemoveBytes(b, append([]byte(nil), w[:ev]...), len(w))
					w = append(w[:len(w):len(w)], b...)[ev:]
					removed = removed || ev > 0
				case 5:
					b := rb(ms)
					log = append(log, fmt.Sprintf("SetBlock(%.60x.. len %d)", b, len(b)))
					s.SetBlock(b)
					w = b
				case 6:
					if r.Intn(4) == 0 {
						log = append(log, "Reset()")
						s.Reset()
						w = nil
					}
				}
			})
			if h.Stopped() || !check() {
				return
			}
		}
		key := ""
		if removed && len(w) > 1 {
			key = fmt.Sprint(log)
		}
		if len(key) > 300 {
			key = key[:300]
		}
		h.Case(key, log)
	}
}
