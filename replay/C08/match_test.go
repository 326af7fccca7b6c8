//verif:dir comparer
package comparer_test

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/verifharness"
)

const vProp = "C08"

var errRead = errors.New("verif: read failed")

type pieces struct {
	data  []byte
	sizes []int
	k     int
	end   error
	withN bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, p.end
	}
	n := p.sizes[p.k%len(p.sizes)]
	p.k++
	if n == 0 {
		return 0, nil // allowed, if discouraged
	}
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.withN && len(p.data) == 0 {
		return n, p.end
	}
	return n, nil
}

func weak32(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func TestVerifC08(t *testing.T) {
	h := verifharness.New(t, "local data over 1-4 byte values (cut from, or unrelated to, a reference with duplicate and partial blocks), block sizes 1-9 (sometimes up to 70), base offsets, index entries with colliding weak sums, reader chunkings incl. data with EOF and read failures; non-trivial: at least two matches", 6*time.Second, 90*time.Second)
	defer h.Done()
	r := h.R

	for it := 0; h.More(); it++ {
		bs := 1 + r.Intn(9)
		if r.Intn(8) == 0 {
			bs = 1 + r.Intn(70)
		}
		if it%150 == 120 {
			bs = 1 + r.Intn(1500)
		}
		alpha := 1 + r.Intn(4)
		word := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Intn(alpha)) * 85
			}
			return b
		}
		if r.Intn(3) == 0 {
			word = func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
		}
		var ref []byte
		for k := r.Intn(6); k >= 0; k-- {
			w := word(bs)
			for m := r.Intn(3); m >= 0; m-- {
				ref = append(ref, w...)
			}
		}
		if r.Intn(2) == 0 {
			ref = append(ref, word(r.Intn(bs+1))...)
		}
		// local data: pieces of the reference, and noise
		var d []byte
		for k := r.Intn(7); k >= 0; k-- {
			switch r.Intn(5) {
			case 0:
				d = append(d, word(r.Intn(2*bs+2))...)
			case 1: // the (partial) end of the reference
				a := len(ref) - 1 - r.Intn(bs)
				if a < 0 {
					a = 0
				}
				d = append(d, ref[a:]...)
			default:
				a := r.Intn(len(ref))
				if r.Intn(2) == 0 {
					a -= a % bs
				}
				b := a + r.Intn(3*bs+1)
				if r.Intn(2) == 0 {
					b = a + bs*(1+r.Intn(3))
				}
				if b > len(ref) {
					b = len(ref)
				}
				d = append(d, ref[a:b]...)
			}
		}
		type entry struct {
			weak, strong string
			off          uint
		}
		var ents []entry
		var list []chunks.ChunkChecksum
		add := func(w, s []byte, off uint) {
			ents = append(ents, entry{string(w), string(s), off})
			list = append(list, chunks.ChunkChecksum{ChunkOffset: off, WeakChecksum: append([]byte{}, w...), StrongChecksum: append([]byte{}, s...)})
		}
		for i := 0; i*bs < len(ref); i++ {
			e := (i + 1) * bs
			if e > len(ref) {
				e = len(ref)
			}
			s := md5.Sum(ref[i*bs : e])
			add(weak32(ref[i*bs:e]), s[:], uint(i))
		}
		for k := r.Intn(3); k > 0 && len(d) >= bs; k-- { // same weak sum, different strong sum
			a := r.Intn(len(d) - bs + 1)
			s := md5.Sum(word(bs + 1))
			add(weak32(d[a:a+bs]), s[:], uint(len(ents)))
		}
		sizes := []int{[]int{1 << 20, 1, 2, bs, bs + 1, bs - 1}[r.Intn(6)], 1 + r.Intn(bs+2)}
		if r.Intn(10) == 0 {
			sizes = append(sizes, 0)
		}
		end := error(io.EOF)
		switch r.Intn(8) {
		case 0:
			end = errRead
		case 1:
			end = io.ErrUnexpectedEOF
		}
		if vProp == "C08" {
			end = io.EOF // failures are the subject of C09
		}
		withN := r.Intn(3) == 0
		base := int64(0)
		if r.Intn(2) == 0 {
			base = r.Int63n(1 << 40)
		}
		in := fmt.Sprintf("block size %d, reference %x, %d extra index entries, local data %x at base offset %d, in pieces of %v, ends with %v (together with data: %v)", bs, ref, len(ents)-(len(ref)+bs-1)/bs, d, base, sizes, end, withN)

		var res []comparer.BlockMatchResult
		idx := index.MakeChecksumIndex(list)
		gen := filechecksum.NewFileChecksumGenerator(uint(bs))
		hang := h.TryWithin
		if vProp == "C08" {
			hang = func(d time.Duration, what string, in interface{}, f func()) bool { return verifharness.Within(d, f) }
		}
		if !hang(20*time.Second, "StartFindMatchingBlocks", in, func() {
			h.Mark("%s", in)
			c := &comparer.Comparer{}
			for m := range c.StartFindMatchingBlocks(&pieces{data: append([]byte{}, d...), sizes: sizes, end: end, withN: withN}, base, gen, idx) {
				if len(res) > 100000 {
					h.Fail("matching: endless results", in)
					break
				}
				res = append(res, m)
			}
		}) {
			return
		}
		bad := func(what string) { h.Fail("matching: "+what, in) }
		window := func(p int) []byte {
			e := p + bs
			if e > len(d) {
				e = len(d)
			}
			return d[p:e]
		}
		entryAt := func(p int) map[uint]bool {
			w := window(p)
			ws := string(weak32(w))
			s := md5.Sum(w)
			m := map[uint]bool{}
			for _, e := range ents {
				if e.weak == ws && e.strong == string(s[:]) {
					m[e.off] = true
				}
			}
			return m
		}
		var gerr error
		reported := map[int]map[uint]bool{}
		for k, m := range res {
			if m.Err != nil {
				gerr = m.Err
				if k != len(res)-1 && vProp == "C09" {
					bad("results after an error")
					return
				}
				continue
			}
			p := int(m.ComparisonOffset - base)
			if m.ComparisonOffset-base < 0 || m.ComparisonOffset-base >= int64(len(d)) {
				if vProp == "C08" {
					bad(fmt.Sprintf("match at offset %d, outside the data", m.ComparisonOffset))
					return
				}
				continue
			}
			if reported[p] == nil {
				reported[p] = map[uint]bool{}
			}
			reported[p][m.BlockIdx] = true
			if vProp == "C08" && !entryAt(p)[m.BlockIdx] {
				bad(fmt.Sprintf("block %d reported at offset %d (base+%d), where the bytes are %x", m.BlockIdx, m.ComparisonOffset, p, window(p)))
				return
			}
		}
		if vProp == "C09" {
			switch {
			case end != io.EOF || len(d) < bs:
				if gerr == nil {
					bad(fmt.Sprintf("the read failure (%v; %d bytes of data) is not reported", end, len(d)))
					return
				}
			case gerr != nil:
				bad(fmt.Sprint("unexpected error ", gerr))
				return
			default:
				covered := -1 // end of the furthest reaching match before p
				for p := 0; p < len(d); p++ {
					if p >= covered {
						for o := range entryAt(p) {
							if !reported[p][o] {
								bad(fmt.Sprintf("block %d, found at offset %d, is not reported there", o, p))
								return
							}
						}
					}
					if len(reported[p]) > 0 && p+len(window(p)) > covered {
						covered = p + len(window(p))
					}
				}
			}
		}
		key := ""
		if len(reported) > 1 {
			key = in
		}
		h.Case(key, in)
	}
}

var _ = bytes.Equal
