//verif:dir .
package gosync_test

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/verifharness"
)

func weak32(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	v := uint32(x) + uint32(y)<<16
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func summaryOf(ref []byte, bs int) *gosync.BasicSummary {
	var list []chunks.ChunkChecksum
	for i := 0; i*bs < len(ref); i++ {
		e := (i + 1) * bs
		if e > len(ref) {
			e = len(ref)
		}
		s := md5.Sum(ref[i*bs : e])
		list = append(list, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: weak32(ref[i*bs : e]), StrongChecksum: s[:]})
	}
	return &gosync.BasicSummary{
		ChecksumIndex:  index.MakeChecksumIndex(list),
		ChecksumLookup: chunks.StrongChecksumGetter(list),
		BlockCount:     uint(len(list)),
		BlockSize:      uint(bs),
		FileSize:       int64(len(ref)),
	}
}

var errClose = errors.New("verif: close failed")

type failClose struct{}

func (failClose) Close() error { return errClose }

func TestVerifC18(t *testing.T) {
	h := verifharness.New(t, "every combination of output (new, existing shorter/equal/longer, same name, symbolic or hard link to the input) and file sizes, served by a local HTTP server, and failing file operations (missing input, unwritable output, no temporary file, temporary file gone or unreadable, full device, failing close); non-trivial: output existed before", 8*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	// everything happens below a scratch directory
	root, err := ioutil.TempDir("", "verif-c18-")
	if err != nil {
		t.Skip(err)
	}
	cwd, _ := os.Getwd()
	defer os.RemoveAll(root)
	defer os.Chdir(cwd)
	var ref []byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		http.ServeContent(w, q, "ref", time.Time{}, bytes.NewReader(ref))
	}))
	defer srv.Close()
	conc := gosync.DefaultConcurrency
	defer func() { gosync.DefaultConcurrency = conc }()
	gosync.DefaultConcurrency = 2

	for it := 0; h.More(); it++ {
		dir := filepath.Join(root, fmt.Sprint(it))
		os.MkdirAll(dir, 0o755)
		os.Chdir(dir)
		bs := 1 + r.Intn(8)
		n := r.Intn(10*bs + 1)
		if r.Intn(8) == 0 {
			n = 0
		}
		ref = make([]byte, n)
		r.Read(ref)
		local := append([]byte{}, ref...)
		switch r.Intn(4) {
		case 0:
			local = make([]byte, r.Intn(40))
		case 1:
			local = append(local, make([]byte, r.Intn(50))...)
		case 2:
			if n > 0 {
				local[r.Intn(n)]++
			}
		}
		ioutil.WriteFile("in", local, 0o644)
		outKind := []string{"new", "existing", "same", "symlink", "hardlink", "samepath"}[it%6]
		out := "out"
		same := true
		switch outKind {
		case "new":
			same = false
		case "existing":
			same = false
			old := make([]byte, []int{0, n / 2, n, n + 1, n + 100}[r.Intn(5)])
			r.Read(old)
			ioutil.WriteFile(out, old, 0o600)
		case "same":
			out = "in"
		case "symlink":
			os.Symlink("in", out)
		case "hardlink":
			os.Link("in", out)
		case "samepath":
			out = filepath.Join(dir, "in")
		}
		fault := []string{"", "", "", "no input", "output is a directory", "output directory missing", "no temporary file", "temporary file gone", "temporary file unreadable", "destination full", "close fails", "source missing"}[r.Intn(12)]
		in := fmt.Sprintf("block size %d, %d reference bytes, %d local bytes, output %s, fault: %s", bs, n, len(local), outKind, fault)
		mustMake, mustPatch, mustClose := false, false, false
		switch fault {
		case "no input":
			os.Remove("in")
			mustMake = true
		case "output is a directory":
			out = "d"
			os.Mkdir(out, 0o755)
			mustMake = true
			same = false
		case "output directory missing":
			out = "missing/out"
			mustMake = true
			same = false
		case "no temporary file":
			if same {
				// the working directory is gone: no file can be created in it
				gone := filepath.Join(dir, "gone")
				os.Mkdir(gone, 0o755)
				os.Chdir(gone)
				os.Remove(gone)
				out = filepath.Join(dir, "in")
				mustMake = true
			} else {
				fault = ""
			}
		}
		input := filepath.Join(dir, "in")
		var rs *gosync.RSync
		var merr error
		if !h.TryWithin(30*time.Second, "MakeRSync", in, func() { rs, merr = gosync.MakeRSync(input, srv.URL, out, summaryOf(ref, bs)) }) {
			return
		}
		os.Chdir(dir)
		bad := func(s string) { h.Fail("patching files: "+s, in) }
		if mustMake {
			if merr == nil {
				bad("MakeRSync does not report the failure")
				return
			}
			h.Case("", in)
			os.RemoveAll(dir)
			continue
		}
		if merr != nil {
			bad("MakeRSync: unexpected error " + merr.Error())
			return
		}
		if c, ok := rs.Source.(interface{ Close() error }); ok {
			defer c.Close()
		}
		if fault == "source missing" {
			ref = nil // the server has nothing: range requests fail
		}
		want := append([]byte{}, ref...)
		var perr error
		if !h.TryWithin(30*time.Second, "Patch", in, func() { perr = rs.Patch() }) {
			return
		}
		if fault == "source missing" {
			// all of it may have been found locally
			want = nil
			if perr == nil {
				h.Case("", in)
				rs.Close()
				os.RemoveAll(dir)
				continue
			}
			rs.OnClose = nil
			h.Case("", in)
			os.RemoveAll(dir)
			continue
		}
		if perr != nil {
			bad("Patch: unexpected error " + perr.Error())
			return
		}
		if now, e := ioutil.ReadFile("in"); e != nil || !bytes.Equal(now, local) {
			bad(fmt.Sprintf("the input file was changed before closing: %x, was %x", now, local))
			return
		}
		tmp := []string{}
		if fs, e := ioutil.ReadDir("."); e == nil {
			for _, f := range fs {
				if f.Name() != "in" && f.Name() != "out" {
					tmp = append(tmp, f.Name())
				}
			}
		}
		if same && len(tmp) == 1 {
			switch fault {
			case "temporary file gone":
				os.Remove(tmp[0])
				mustClose = true
			case "temporary file unreadable":
				os.Remove(tmp[0])
				os.Mkdir(tmp[0], 0o755)
				mustClose = true
			case "destination full":
				if _, e := os.Stat("/dev/full"); e == nil && n > 0 {
					os.Remove(out)
					os.Symlink("/dev/full", out)
					mustClose = true
				}
			}
		}
		if fault == "close fails" {
			k := r.Intn(len(rs.OnClose) + 1)
			in += fmt.Sprintf(" at %d", k)
			fails := failClose{}
			rs.OnClose = append(rs.OnClose, nil)
			copy(rs.OnClose[k+1:], rs.OnClose[k:])
			rs.OnClose[k] = fails
			mustClose = true
		}
		_ = mustPatch
		var cerr error
		if !h.TryWithin(30*time.Second, "Close", in, func() { cerr = rs.Close() }) {
			return
		}
		if mustClose {
			if cerr == nil {
				bad("Close does not report the failure")
				return
			}
		} else {
			if cerr != nil {
				bad("Close: unexpected error " + cerr.Error())
				return
			}
			got, e := ioutil.ReadFile(out)
			if e != nil || !bytes.Equal(got, want) {
				bad(fmt.Sprintf("the output file has %d bytes %x (%v), want %d bytes %x", len(got), got, e, len(want), want))
				return
			}
			if !same {
				if now, e := ioutil.ReadFile("in"); e != nil || !bytes.Equal(now, local) {
					bad("the input file was changed although it is not the output")
					return
				}
			}
			if e := rs.Close(); e == nil && len(rs.OnClose) > 0 {
				bad("closing the closed files again does not report an error")
				return
			}
		}
		key := ""
		if outKind != "new" {
			key = in
		}
		h.Case(key, in)
		os.RemoveAll(dir)
	}
}
