//verif:dir filechecksum
package filechecksum_test

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/verifharness"
)

type c13Lookup map[int][]byte

func (l c13Lookup) GetStrongChecksumForBlock(i int) []byte { return l[i] }

// the same, for block numbers counted from base
type shifted struct {
	l    c13Lookup
	base int
}

func (l shifted) GetStrongChecksumForBlock(i int) []byte { return l.l[i-l.base] }

func TestVerifC13(t *testing.T) {
	h := verifharness.New(t, "sequences of verifications by one verifier of good and corrupted block ranges, with partial last blocks and unknown checksums; non-trivial: a range of at least two blocks with a corrupted or unknown block", 4*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R
	algs := []func() hash.Hash{md5.New, sha1.New}
	for h.More() {
		bs := 1 + r.Intn(9)
		if r.Intn(5) == 0 {
			bs = 1 + r.Intn(3000)
		}
		nb := 1 + r.Intn(7)
		ref := make([]byte, bs*nb-r.Intn(bs))
		for i := range ref {
			ref[i] = byte(r.Intn(3))
		}
		alg := algs[r.Intn(2)]
		known := c13Lookup{}
		var all []chunks.ChunkChecksum
		for b := 0; b*bs < len(ref); b++ {
			e := (b + 1) * bs
			if e > len(ref) {
				e = len(ref)
			}
			x := alg()
			x.Write(ref[b*bs : e])
			all = append(all, chunks.ChunkChecksum{ChunkOffset: uint(b), StrongChecksum: x.Sum(nil)})
			if r.Intn(5) > 0 {
				known[b] = x.Sum(nil)

				// a stored checksum that is not as long as the hash matches nothing
				switch r.Intn(30) {
				case 0:
					known[b] = known[b][:1+r.Intn(len(known[b])-1)]
				case 1:
					known[b] = append(known[b], byte(r.Intn(2)))
				}
			}
		}
		var lookup filechecksum.ChecksumLookup = known
		full := r.Intn(3) == 0
		if full {
			for i, c := range all {
				known[i] = c.StrongChecksum
			}
			lookup = chunks.StrongChecksumGetter(all)
		}
		base := 0
		if !full && r.Intn(3) == 0 {
			base = 1<<uint(8+r.Intn(40)) - r.Intn(3)
			lookup = shifted{known, base}
		}
		v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: alg(), BlockChecksumGetter: lookup}
		var log []string
		for k := 0; k < 6 && !h.Stopped(); k++ {
			s := r.Intn(len(all))
			e := s + r.Intn(len(all)-s)
			end := (e + 1) * bs
			if end > len(ref) {
				end = len(ref)
			}
			data := append([]byte{}, ref[s*bs:end]...)
			what := "good"
			switch r.Intn(4) {
			case 0:
				if len(data) > 0 {
					p := r.Intn(len(data))
					data[p] ^= byte(1 + r.Intn(255))
					what = fmt.Sprintf("byte %d changed", p)
				}
			case 1:
				// shorten the last block (its hash then differs)
				data = data[:len(data)-r.Intn(min13(bs, len(data))+1)]
				what = "shortened"
			case 2:
				// data of another place
				o := r.Intn(len(all))
				data = append([]byte{}, ref[o*bs:]...)
				if len(data) > (len(all)-s)*bs {
					data = data[:(len(all)-s)*bs]
				}
				what = "other place"
			}
			want := true
			special := false
			for b := 0; b*bs < len(data); b++ {
				be := (b + 1) * bs
				if be > len(data) {
					be = len(data)
				}
				x := alg()
				x.Write(data[b*bs : be])
				if known[s+b] == nil {
					special = true
				} else if !bytes.Equal(known[s+b], x.Sum(nil)) {
					want = false
					special = true
				}
			}
			log = append(log, fmt.Sprintf("VerifyBlockRange(%d, %d bytes, %s)", base+s, len(data), what))
			in := map[string]interface{}{"block_size": bs, "known": fmt.Sprint(len(known), " of ", len(all)), "ops": append([]string{}, log...), "data": fmt.Sprintf("%.100x", data)}
			before := append([]byte{}, data...)
			h.Try("VerifyBlockRange", in, func() {
				if got := v.VerifyBlockRange(uint(base+s), data); got != want {
					h.Fail(fmt.Sprintf("VerifyBlockRange returned %v, expected %v", got, want), in)
				}
			})
			if !bytes.Equal(before, data) {
				h.Fail("VerifyBlockRange changed the data", in)
			}
			key := ""
			if special && len(data) > bs {
				key = fmt.Sprint(in)
			}
			h.Case(key, in)
		}
	}
}

func min13(a, b int) int {
	if a < b {
		return a
	}
	return b
}
