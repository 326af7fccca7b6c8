//verif:dir circularbuffer
package circularbuffer_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/verifharness"
)

func TestVerifC04(t *testing.T) {
	h := verifharness.New(t, "random sequences of writes, truncations and resets on buffers of block size 1 to 64; non-trivial: at least one write that evicted bytes", 5*time.Second, 120*time.Second)
	defer h.Done()
	r := h.R
	next := byte(0)
	for h.More() {
		bs := 1 + r.Intn(9)
		if r.Intn(8) == 0 {
			bs = 1 + r.Intn(64)
		}
		if r.Intn(60) == 0 {
			bs = 1 + r.Intn(5000)
		}
		c := circularbuffer.MakeC2Buffer(bs)
		var data, ev []byte
		checkEv := true
		var log []string
		nontrivial := false
		mode := r.Intn(3)
		steps := 2 + r.Intn(30)
		if r.Intn(40) == 0 {
			steps = 400
		}
		for k := 0; k < steps && !h.Stopped(); k++ {
			op := r.Intn(10)
			h.Try("circular buffer", &log, func() {
				switch {
				case op == 0:
					log = append(log, "Reset()")
					c.Reset()
					data, ev, checkEv = nil, nil, true
				case op <= 2:
					n := r.Intn(bs + 2)
					log = append(log, fmt.Sprintf("Truncate(%d)", n))
					got := append([]byte{}, c.Truncate(n)...)
					if n > len(data) {
						n = len(data)
					}
					if !bytes.Equal(got, data[:n]) {
						h.Fail(fmt.Sprintf("Truncate returned %v, expected %v", got, data[:n]), map[string]interface{}{"block_size": bs, "ops": log})
						return
					}
					data = data[n:]
					ev = nil
					checkEv = false
				default:
					n := r.Intn(bs + 1)
					if mode == 1 {
						n = 1
					} else if mode == 2 {
						n = bs - r.Intn(2)
					}
					b := make([]byte, n)
					for i := range b {
						b[i] = next
						next++
						if r.Intn(100) == 0 {
							next += byte(r.Intn(256))
						}
					}
					log = append(log, fmt.Sprintf("Write(%v)", b))
					in := append([]byte{}, b...)
					c.Write(b)
					if !bytes.Equal(in, b) {
						h.Fail("Write changed its argument", map[string]interface{}{"block_size": bs, "ops": log})
						return
					}
					for i := range b {
						b[i] = 0xEE // the buffer must not keep a reference
					}
					all := append(append([]byte{}, data...), in...)
					cut := len(all) - bs
					if cut < 0 {
						cut = 0
					}
					data, ev, checkEv = all[cut:], all[:cut], true
					if cut > 0 {
						nontrivial = true
					}
				}
			})
			if h.Stopped() {
				break
			}
			h.Try("circular buffer", &log, func() {
				in := map[string]interface{}{"block_size": bs, "ops": log}
				if c.Len() != len(data) || c.Empty() != (len(data) == 0) {
					h.Fail(fmt.Sprintf("Len() %d, Empty() %v with %d bytes held", c.Len(), c.Empty(), len(data)), in)
				} else if got := c.GetBlock(); !bytes.Equal(got, data) {
					h.Fail(fmt.Sprintf("GetBlock returned %v, expected %v", got, data), in)
				} else if got := c.Evicted(); checkEv && !bytes.Equal(got, ev) {
					h.Fail(fmt.Sprintf("Evicted returned %v, expected %v", got, ev), in)
				}
			})
		}
		key := ""
		if nontrivial {
			key = fmt.Sprint(bs, log)
		}
		h.Case(key, map[string]interface{}{"block_size": bs, "ops": log})
	}
}
