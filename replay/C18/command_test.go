//verif:dir cmd/gosync
package main

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/verifharness"
)

func c18weak(b []byte) []byte {
	var x, y uint16
	for i, c := range b {
		x += uint16(c)
		y += uint16(len(b)-i) * uint16(c)
	}
	return binary.LittleEndian.AppendUint32(nil, uint32(x)+uint32(y)<<16)
}

// an index file in the documented format
func c18file(data []byte, bs int) []byte {
	var w bytes.Buffer
	w.WriteString("G0S9NC")
	binary.Write(&w, binary.LittleEndian, [3]uint16{majorVersion, minorVersion, patchVersion})
	binary.Write(&w, binary.LittleEndian, int64(len(data)))
	binary.Write(&w, binary.LittleEndian, uint32(bs))
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		s := md5.Sum(data[i:e])
		w.Write(c18weak(data[i:e]))
		w.Write(s[:])
	}
	return w.Bytes()
}

func TestVerifC18(t *testing.T) {
	if a := os.Getenv("VERIF_C18_CHILD"); a != "" {
		// run the command as main does
		var args []string
		json.Unmarshal([]byte(a), &args)
		os.Args = append([]string{"gosync"}, args...)
		main()
		os.Exit(0)
	}
	h := verifharness.New(t, "the patch command as a process, in a scratch directory, against a local HTTP server: output new, existing, the input itself (by default, by name, by link); local files unlike, like and equal to the reference; servers that fail, lie or send too little; missing and unwritable files; non-trivial: the command succeeded", 8*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R
	root, err := ioutil.TempDir("", "verif-c18-")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(root)
	var ref []byte
	mode := ""
	fetched := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		fetched++
		switch mode {
		case "not found":
			http.Error(w, "no", 404)
		case "other content":
			d := append([]byte{}, ref...)
			for i := range d {
				d[i] ^= 0x5a
			}
			http.ServeContent(w, q, "ref", time.Time{}, bytes.NewReader(d))
		case "whole file":
			w.Write(ref)
		default:
			http.ServeContent(w, q, "ref", time.Time{}, bytes.NewReader(ref))
		}
	}))
	defer srv.Close()
	run := func(dir string, args ...string) (error, string) {
		cmd := exec.Command(os.Args[0], "-test.run=^TestVerifC18$")
		cmd.Dir = dir
		a, _ := json.Marshal(args)
		cmd.Env = append(os.Environ(), "VERIF_C18_CHILD="+string(a), "VERIF_OUT=", "TMPDIR="+dir)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			return nil, "verif: not started"
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case e := <-done:
			return e, out.String()
		case <-time.After(30 * time.Second):
			cmd.Process.Kill()
			return fmt.Errorf("verif: does not end"), ""
		}
	}
	for it := 0; h.More(); it++ {
		dir := filepath.Join(root, fmt.Sprint(it))
		os.MkdirAll(dir, 0o755)
		bs := 1 + r.Intn(20)
		n := r.Intn(12*bs + 1)
		if r.Intn(6) == 0 {
			n = bs * r.Intn(5)
		}
		ref = make([]byte, n)
		r.Read(ref)
		var local []byte
		similar := r.Intn(4)
		switch similar {
		case 0:
			local = make([]byte, r.Intn(3*n+bs+2))
			r.Read(local)
		case 1:
			local = append([]byte{}, ref...)
			for k := 0; k < 3 && len(local) > 0; k++ {
				local[r.Intn(len(local))]++
			}
			local = append(local, 1, 2, 3)
		case 2:
			local = append([]byte{}, ref...)
		case 3:
			p := r.Intn(n + 1)
			local = append(append([]byte{}, ref[p:]...), ref[:p]...)
		}
		mode = []string{"", "", "", "not found", "other content", "whole file"}[r.Intn(6)]
		fetched = 0
		write := func(name string, d []byte) { ioutil.WriteFile(filepath.Join(dir, name), d, 0o644) }
		write("local.bin", local)
		write("ref.gosync", c18file(ref, bs))
		args := []string{"patch", "local.bin", "ref.gosync", srv.URL + "/ref"}
		out, same, must := "out.bin", false, ""
		kind := []string{"new", "shorter", "longer", "default", "same", "hard link", "symbolic link", "no directory", "full device", "missing input", "missing index"}[r.Intn(11)]
		switch kind {
		case "shorter":
			write(out, ref[:n/2])
		case "longer":
			write(out, append(append([]byte{}, ref...), []byte("the rest of the previous content")...))
		case "default", "same":
			out, same = "local.bin", true
		case "hard link":
			same = os.Link(filepath.Join(dir, "local.bin"), filepath.Join(dir, out)) == nil
		case "symbolic link":
			same = os.Symlink("local.bin", filepath.Join(dir, out)) == nil
		case "no directory":
			out, must = "nowhere/out.bin", "fail"
		case "full device":
			if _, err := os.Stat("/dev/full"); err == nil && n > 0 {
				out, must = "/dev/full", "fail"
			}
		case "missing input":
			os.Remove(filepath.Join(dir, "local.bin"))
			must = "fail"
		case "missing index":
			os.Remove(filepath.Join(dir, "ref.gosync"))
			must = "fail"
		}
		if kind != "default" {
			args = append(args, out)
		}
		in := fmt.Sprintf("block size %d, reference %x, local %x, server %q, output %s", bs, ref, local, mode, kind)
		h.Mark("patch: %s", in)
		e, text := run(dir, args...)
		if e != nil && e.Error() == "verif: does not end" {
			h.Fail("patch does not end", in)
			return
		}
		if e == nil && must == "fail" {
			h.Fail("patch: success is reported although it cannot have succeeded", in)
			return
		}
		if e == nil {
			got, ge := ioutil.ReadFile(filepath.Join(dir, out))
			if ge != nil || !bytes.Equal(got, ref) {
				h.Fail(fmt.Sprintf("patch: success, but the output is %x (%v)", got, ge), in)
				return
			}
		}
		// a good server must do, and a bad one does no harm when nothing is fetched
		if e != nil && must == "" && (mode == "" || fetched == 0) {
			h.Fail("patch: unexpected failure: "+text, in)
			return
		}
		if !same && kind != "missing input" {
			got, ge := ioutil.ReadFile(filepath.Join(dir, "local.bin"))
			if ge != nil || !bytes.Equal(got, local) {
				h.Fail("patch: the local file was changed", in)
				return
			}
		}
		if same && e != nil {
			got, ge := ioutil.ReadFile(filepath.Join(dir, "local.bin"))
			if ge != nil || !bytes.Equal(got, local) {
				h.Fail("patch: failed, and the local file was changed", in)
				return
			}
		}
		os.RemoveAll(dir)
		key := ""
		if e == nil {
			key = in
		}
		h.Case(key, in)
	}
}
