//verif:dir util/readers
package readers_test

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/util/readers"
	"github.com/Redundancy/go-sync/verifharness"
)

// c21Seq is the sequence from the property's text: the low bytes of v, v+inc, ... modulo the prime-like constant.
func c21Seq(start, n int) []byte {
	out := make([]byte, n)
	v := start
	for i := range out {
		out[i] = byte(v)
		v = (v + 17180131327) % 87178291199
	}
	return out
}

// c21Chunk splits its data at arbitrary points, sometimes reporting EOF with the last bytes.
type c21Chunk struct {
	data []byte
	step func() int
	eof  bool
}

func (c *c21Chunk) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := c.step()
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eof {
		return n, io.EOF
	}
	return n, nil
}

func TestVerifC21(t *testing.T) {
	h := verifharness.New(t, "reads of random sizes, zero included, through random compositions of the test-data readers; non-trivial: at least two reads, or a composition", 4*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R
	size := func() int {
		switch r.Intn(4) {
		case 0:
			return r.Intn(3)
		case 1:
			return r.Intn(3000)
		}
		return r.Intn(60)
	}
	var build func(depth int) (io.Reader, []byte, bool, string)
	// the reader, its bytes, whether it goes on for ever after them, and its description
	build = func(depth int) (io.Reader, []byte, bool, string) {
		k := r.Intn(8)
		if depth == 0 {
			k = r.Intn(5)
		}
		switch k {
		case 0:
			n := size()
			return readers.ZeroReader(n), bytes.Repeat([]byte{0}, n), false, fmt.Sprintf("Zero(%d)", n)
		case 1:
			n := size()
			return readers.OneReader(n), bytes.Repeat([]byte{1}, n), false, fmt.Sprintf("One(%d)", n)
		case 2:
			s := r.Intn(1000)
			if r.Intn(3) == 0 {
				s = int(r.Int63n(87178291199))
			}
			return readers.NewNonRepeatingSequence(s), c21Seq(s, 7000), true, fmt.Sprintf("Seq(%d)", s)
		case 3:
			s, n := r.Intn(100000), size()
			return readers.NewSizedNonRepeatingSequence(s, int64(n)), c21Seq(s, n), false, fmt.Sprintf("SizedSeq(%d,%d)", s, n)
		case 4:
			d := make([]byte, size())
			r.Read(d)
			return &c21Chunk{data: d, step: func() int { return 1 + r.Intn(9) }, eof: r.Intn(2) == 0}, d, false, fmt.Sprintf("Bytes(%d)", len(d))
		case 5, 6:
			a, ab, ainf, as := build(depth - 1)
			b, bb, binf, bs := build(depth - 1)
			off := r.Intn(80)
			if r.Intn(3) > 0 {
				off = r.Intn(len(ab) + 1)
			}
			s := fmt.Sprintf("Inject(%d,%s,%s)", off, as, bs)
			rd := readers.InjectedReader(int64(off), a, b)
			if off > len(ab) {
				off = len(ab)
			}
			out := append(append([]byte{}, ab[:off]...), bb...)
			if binf {
				return rd, out, true, s
			}
			return rd, append(out, ab[off:]...), ainf, s
		}
		var rs []io.Reader
		var out []byte
		s, inf := "", false
		for i := r.Intn(4); i >= 0; i-- {
			a, ab, ainf, as := build(depth - 1)
			rs = append(rs, a)
			if !inf {
				out = append(out, ab...)
			}
			inf = inf || ainf
			s += as + ","
		}
		lim := size()
		rd := readers.SequenceLimit(int64(lim), rs...)
		if lim < len(out) {
			out, inf = out[:lim], false
		} else if lim > 0 && inf {
			// the limit lies beyond what was computed
			inf = true
		}
		return rd, out, inf, fmt.Sprintf("Limit(%d,%s)", lim, s)
	}
	for h.More() {
		rd, want, inf, desc := build(2)
		var got []byte
		var log []string
		reads, zero := 0, 0
		for len(got) < len(want)+100 && !h.Stopped() {
			n := size()
			if r.Intn(6) == 0 {
				n = 0
			}
			if inf && n > len(want)-len(got) {
				n = len(want) - len(got)
				if n == 0 {
					break
				}
			}
			back := bytes.Repeat([]byte{0xA5}, n+7)
			var m int
			var err error
			if len(log) < 40 {
				log = append(log, fmt.Sprintf("read %d", n))
			}
			in := func() interface{} { return map[string]interface{}{"reader": desc, "reads": log, "delivered": len(got)} }
			if !h.TryWithin(5*time.Second, "reading", in(), func() { m, err = rd.Read(back[3 : 3+n]) }) {
				break
			}
			reads++
			switch {
			case m < 0 || m > n:
				h.Fail(fmt.Sprintf("a read of %d bytes reported %d", n, m), in())
			case !bytes.Equal(back[:3], bytes.Repeat([]byte{0xA5}, 3)) || !bytes.Equal(back[3+n:], bytes.Repeat([]byte{0xA5}, 4)):
				h.Fail("bytes outside the buffer were changed", in())
			case len(got)+m > len(want):
				h.Fail(fmt.Sprintf("more than %d bytes delivered", len(want)), in())
			case !bytes.Equal(back[3:3+m], want[len(got):len(got)+m]):
				h.Fail(fmt.Sprintf("wrong bytes at offset %d", len(got)), in())
			}
			if h.Stopped() {
				break
			}
			got = append(got, back[3:3+m]...)
			if err != nil {
				if err != io.EOF {
					h.Fail("unexpected error "+err.Error(), in())
				} else if len(got) != len(want) {
					h.Fail(fmt.Sprintf("EOF after %d of %d bytes", len(got), len(want)), in())
				} else if inf {
					h.Fail("EOF in an endless stream", in())
				}
				break
			}
			if m == 0 && n > 0 {
				if zero++; zero > 100 {
					h.Fail("no progress and no EOF", in())
				}
			} else {
				zero = 0
			}
		}
		key := ""
		if reads > 1 {
			key = fmt.Sprint(desc, log)
		}
		h.Case(key, map[string]interface{}{"reader": desc, "reads": log})
	}
}
