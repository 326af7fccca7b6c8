//verif:dir cmd/gosync
package main

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/verifharness"
)

type c19pieces struct {
	data  []byte
	sizes []int
	k     int
	withN bool
}

func (p *c19pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	n := p.sizes[p.k%len(p.sizes)]
	p.k++
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.withN && len(p.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func c19weak(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// the documented format, built independently
func c19file(data []byte, bs int, version [3]uint16) []byte {
	var w bytes.Buffer
	w.WriteString("G0S9NC")
	for _, v := range version {
		binary.Write(&w, binary.LittleEndian, v)
	}
	binary.Write(&w, binary.LittleEndian, int64(len(data)))
	binary.Write(&w, binary.LittleEndian, uint32(bs))
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		s := md5.Sum(data[i:e])
		w.Write(c19weak(data[i:e]))
		w.Write(s[:])
	}
	return w.Bytes()
}

func TestVerifC19(t *testing.T) {
	if os.Getenv("VERIF_C19_CHILD") != "" {
		// run the command as main does
		var args []string
		json.Unmarshal([]byte(os.Getenv("VERIF_C19_CHILD")), &args)
		os.Args = append([]string{"gosync"}, args...)
		main()
		os.Exit(0)
	}
	h := verifharness.New(t, "files of 0-12 blocks, block sizes 1-40 (and huge): build, parse against the documented format, read back through readers of any chunking; every truncation, other magic strings and versions, by function and through the patch command in a scratch directory; non-trivial: at least two blocks", 10*time.Second, 90*time.Second)
	defer h.Done()
	r := h.R
	root, err := ioutil.TempDir("", "verif-c19-")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(root)
	var ref []byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		http.ServeContent(w, q, "ref", time.Time{}, bytes.NewReader(ref))
	}))
	defer srv.Close()
	run := func(dir string, args ...string) error {
		cmd := exec.Command(os.Args[0], "-test.run=^TestVerifC19$")
		cmd.Dir = dir
		a, _ := json.Marshal(args)
		cmd.Env = append(os.Environ(), "VERIF_C19_CHILD="+string(a), "VERIF_OUT=")
		done := make(chan error, 1)
		go func() { done <- cmd.Run() }()
		select {
		case e := <-done:
			return e
		case <-time.After(30 * time.Second):
			cmd.Process.Kill()
			return fmt.Errorf("does not end")
		}
	}
	readBack := func(file []byte, data []byte, bs int, version [3]uint16, in string) {
		sizes := []int{[]int{1 << 20, 1, 3}[r.Intn(3)], 1 + r.Intn(9)}
		rd := &c19pieces{data: append([]byte{}, file...), sizes: sizes, withN: r.Intn(2) == 0}
		in += fmt.Sprintf(", read in pieces of %v", sizes)
		var ma, mi, pa uint16
		var fs int64
		var b uint32
		var err error
		h.Try("reading the header", in, func() { ma, mi, pa, fs, b, err = readHeadersAndCheck(rd, magicString, majorVersion) })
		if h.Stopped() {
			return
		}
		if err != nil {
			h.Fail("reading the header: unexpected error "+err.Error(), in)
			return
		}
		if [3]uint16{ma, mi, pa} != version || fs != int64(len(data)) && data != nil || b != uint32(bs) {
			h.Fail(fmt.Sprintf("reading the header: version %d.%d.%d, file size %d, block size %d", ma, mi, pa, fs, b), in)
			return
		}
		if data == nil {
			return
		}
		h.Try("reading the index", in, func() {
			idx, lookup, n, err := readIndex(rd, uint(b))
			if err != nil {
				h.Fail("reading the index: unexpected error "+err.Error(), in)
				return
			}
			want := (len(data) + bs - 1) / bs
			if int(n) != want || idx.BlockCount != want {
				h.Fail(fmt.Sprintf("reading the index: %d blocks, want %d", n, want), in)
				return
			}
			for i := 0; i < want; i++ {
				e := (i + 1) * bs
				if e > len(data) {
					e = len(data)
				}
				s := md5.Sum(data[i*bs : e])
				found := false
				for _, c := range idx.FindStrongChecksum2(s[:], idx.FindWeakChecksum2(c19weak(data[i*bs:e]))) {
					found = found || c.ChunkOffset == uint(i)
				}
				if !found || !bytes.Equal(lookup.GetStrongChecksumForBlock(i), s[:]) {
					h.Fail(fmt.Sprintf("reading the index: block %d is not there with its checksums", i), in)
					return
				}
			}
		})
	}
	header := 6 + 6 + 8 + 4

	for it := 0; h.More(); it++ {
		dir := filepath.Join(root, fmt.Sprint(it))
		os.MkdirAll(dir, 0o755)
		bs := 1 + r.Intn(8)
		if r.Intn(5) == 0 {
			bs = 1 + r.Intn(40)
		}
		n := r.Intn(12*bs + 1)
		if r.Intn(6) == 0 {
			n = bs * r.Intn(5)
		}
		big := it%30 == 20
		if big {
			bs = 60000 + r.Intn(12000)
			n = r.Intn(4 * bs)
		}
		data := make([]byte, n)
		r.Read(data)
		good := [3]uint16{majorVersion, minorVersion, patchVersion}
		want := c19file(data, bs, good)
		in := fmt.Sprintf("block size %d, %d bytes %x", bs, n, data)
		if big {
			in = fmt.Sprintf("block size %d, %d random bytes", bs, n)
		}

		// headers alone: any value
		if true {
			hb := uint32(1 + r.Int63n(1<<[]uint{3, 16, 32}[r.Intn(3)]-1))
			hs := r.Int63()
			if r.Intn(2) == 0 {
				hs = r.Int63n(1000)
			}
			ver := [3]uint16{majorVersion, uint16(r.Intn(1 << 16)), uint16(r.Intn(1 << 16))}
			name := filepath.Join(dir, "h")
			f, err := os.Create(name)
			if err != nil {
				t.Skip(err)
			}
			e := writeHeaders(f, magicString, hb, hs, ver[:])
			f.Close()
			got, _ := ioutil.ReadFile(name)
			var w bytes.Buffer
			w.WriteString("G0S9NC")
			binary.Write(&w, binary.LittleEndian, ver)
			binary.Write(&w, binary.LittleEndian, hs)
			binary.Write(&w, binary.LittleEndian, hb)
			hin := fmt.Sprintf("header: version %v, file size %d, block size %d", ver, hs, hb)
			if e != nil || !bytes.Equal(got, w.Bytes()) {
				h.Fail(fmt.Sprintf("writing the header: %x (%v), want %x", got, e, w.Bytes()), hin)
				return
			}
			rd := &c19pieces{data: append([]byte{}, got...), sizes: []int{1 + r.Intn(9), 1 + r.Intn(9)}}
			a, b, c, fs, bb, err2 := readHeadersAndCheck(rd, magicString, majorVersion)
			if err2 != nil || [3]uint16{a, b, c} != ver || fs != hs || bb != hb {
				h.Fail(fmt.Sprintf("reading the header back: %d.%d.%d, %d, %d (%v)", a, b, c, fs, bb, err2), hin)
				return
			}
			if f, err := os.Open(os.DevNull); err == nil { // not writable
				if writeHeaders(f, magicString, hb, hs, ver[:]) == nil {
					h.Fail("writing the header to a file that cannot be written: no error", hin)
					return
				}
				f.Close()
			}
		}

		// reading back a valid file
		readBack(want, data, bs, good, in)
		if h.Stopped() {
			return
		}

		// invalid ones
		reject := func(file []byte, what string) {
			rd := &c19pieces{data: append([]byte{}, file...), sizes: []int{1 + r.Intn(40)}, withN: r.Intn(2) == 0}
			var err error
			h.Try("reading", in+", "+what, func() {
				var b uint32
				_, _, _, _, b, err = readHeadersAndCheck(rd, magicString, majorVersion)
				if err == nil {
					_, _, _, err = readIndex(rd, uint(b))
				}
			})
			if err == nil {
				h.Fail("no error reading an invalid file", in+", "+what)
			}
		}
		bad := map[string][]byte{}
		for i := 0; i < len(want) && !big; i++ {
			if i < header || (i-header)%20 != 0 {
				reject(want[:i], fmt.Sprintf("truncated to %d bytes", i))
			}
		}
		if h.Stopped() {
			return
		}
		cut := r.Intn(len(want))
		if r.Intn(2) == 0 && len(want) > header {
			cut = header + (r.Intn(len(want)-header))/20*20
		}
		bad[fmt.Sprintf("truncated to %d bytes", cut)] = want[:cut]
		m := append([]byte{}, want...)
		m[r.Intn(6)] ^= byte(1 << uint(r.Intn(8)))
		bad["wrong magic string"] = m
		reject(m, "wrong magic string")
		o := good
		o[0] += uint16([]int{1, 2, 256, 0xffff}[r.Intn(4)])
		m = c19file(data, bs, o)
		bad[fmt.Sprintf("version %v", o)] = m
		reject(m, fmt.Sprintf("version %v", o))
		if h.Stopped() {
			return
		}

		// through the commands
		if it%10 == 0 || h.Thorough {
			ref = data
			src := filepath.Join(dir, "file.bin")
			ioutil.WriteFile(src, data, 0o644)
			if e := run(dir, "build", "--blocksize", fmt.Sprint(bs), "file.bin"); e != nil {
				h.Fail("build: unexpected failure "+e.Error(), in)
				return
			}
			got, e := ioutil.ReadFile(filepath.Join(dir, "file.gosync"))
			if e != nil || !bytes.Equal(got, want) {
				h.Fail(fmt.Sprintf("build wrote %x (%v), want %x", got, e, want), in)
				return
			}
			local := append([]byte{}, data...)
			if len(local) > 0 {
				local[r.Intn(len(local))]++
			}
			local = append(local, 1, 2, 3)
			lf := filepath.Join(dir, "local.bin")
			// what build wrote is what patch reads
			ioutil.WriteFile(lf, local, 0o644)
			if e := run(dir, "patch", "local.bin", "file.gosync", srv.URL+"/ref", "patched.bin"); e != nil {
				h.Fail("patch with the index that build wrote: unexpected failure "+e.Error(), in)
				return
			}
			if o, e := ioutil.ReadFile(filepath.Join(dir, "patched.bin")); e != nil || !bytes.Equal(o, data) {
				h.Fail(fmt.Sprintf("patch with the index that build wrote: the output is %x (%v)", o, e), in)
				return
			}
			for what, file := range bad {
				outKind := r.Intn(3)
				args := []string{"patch", "local.bin", "bad.gosync", "http//nowhere"}
				ioutil.WriteFile(lf, local, 0o644)
				ioutil.WriteFile(filepath.Join(dir, "bad.gosync"), file, 0o644)
				of := filepath.Join(dir, "out.bin")
				os.Remove(of)
				switch outKind {
				case 0:
					args = append(args, "out.bin")
				case 1:
					args = append(args, "out.bin")
					ioutil.WriteFile(of, []byte("old output"), 0o644)
				}
				if r.Intn(2) == 0 {
					if run(dir, "diff", "local.bin", "bad.gosync") == nil {
						h.Fail("diff: no failure", in+", diff with an index: "+what)
						return
					}
				}
				e := run(dir, args...)
				win := in + ", patch with an index: " + what
				if e == nil {
					h.Fail("patch: no failure", win)
					return
				}
				if l, _ := ioutil.ReadFile(lf); !bytes.Equal(l, local) {
					h.Fail("patch: the local file was touched", win)
					return
				}
				o, oe := ioutil.ReadFile(of)
				if outKind == 1 && string(o) != "old output" || outKind != 1 && oe == nil {
					h.Fail("patch: the output was touched", win)
					return
				}
				if fs, _ := filepath.Glob(filepath.Join(dir, "tmp_*")); len(fs) > 0 {
					h.Fail("patch: went on to create a temporary output", win)
					return
				}
			}
			h.Case("", in)
		}
		os.RemoveAll(dir)
		key := ""
		if n > bs {
			key = in
		}
		h.Case(key, in)
	}
}
