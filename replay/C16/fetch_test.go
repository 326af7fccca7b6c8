//verif:dir blocksources
package blocksources_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/verifharness"
)

var errVerif = errors.New("verif: injected failure")

type seeker struct {
	data     []byte
	pos      int64
	piece    int
	failSeek bool
	failAt   int64 // -1: never
	end      error
	withN    bool
	readOnly bool
}

func (s *seeker) Seek(off int64, whence int) (int64, error) {
	if s.failSeek {
		return 0, errVerif
	}
	switch whence {
	case 0:
		s.pos = off
	case 1:
		s.pos += off
	case 2:
		s.pos = int64(len(s.data)) + off
	}
	return s.pos, nil
}

func (s *seeker) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, s.end
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := len(b)
	if n > s.piece {
		n = s.piece
	}
	if s.failAt >= 0 && s.pos+int64(n) > s.failAt {
		n = int(s.failAt - s.pos)
	}
	n = copy(b[:n], s.data[s.pos:])
	s.pos += int64(n)
	if s.withN && s.pos == int64(len(s.data)) && s.failAt < 0 {
		return n, io.EOF
	}
	if s.withN && s.failAt >= 0 && s.pos >= s.failAt {
		return n, s.end
	}
	return n, nil
}

func TestVerifC16(t *testing.T) {
	h := verifharness.New(t, "HTTP: byte ranges (offsets to 2^45, lengths 1-300, some 200000) against a scripted local server: status codes, content encodings, bodies too short, too long, cut off or exact, chunked or not; seekable readers: ranges inside, across and past the end, short reads, failing seeks and reads; non-trivial: a range that does not start at 0", 7*time.Second, 60*time.Second)
	defer h.Done()
	r := h.R

	type script struct {
		status   int
		encoding []string
		body     []byte
		declare  int // Content-Length, -1: chunked
	}
	var sc script
	var gotRange []string
	var gotMethod string
	calls := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		calls++
		gotRange = q.Header["Range"]
		gotMethod = q.Method
		for _, e := range sc.encoding {
			w.Header().Add("Content-Encoding", e)
		}
		if sc.declare >= 0 {
			w.Header().Set("Content-Length", strconv.Itoa(sc.declare))
		}
		w.WriteHeader(sc.status)
		if sc.declare < 0 {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}
		w.Write(sc.body)
	}))
	defer srv.Close()
	src := blocksources.NewHttpBlockSource(srv.URL, 1, blocksources.MakeNullFixedSizeResolver(4), nil)
	defer src.Close()

	for it := 0; h.More(); it++ {
		if it%2 == 0 { // HTTP
			start := r.Int63n([]int64{1, 10, 1000, 1 << 33, 1 << 45}[r.Intn(5)])
			n := 1 + r.Intn(20)
			switch r.Intn(8) {
			case 0:
				n = 1 + r.Intn(300)
			case 1:
				if r.Intn(10) == 0 {
					n = 200000
				}
			}
			body := make([]byte, n)
			r.Read(body)
			sc = script{status: 206, body: body, declare: n}
			good := true
			desc := ""
			switch r.Intn(10) {
			case 0, 1, 2:
				sc.status = []int{200, 404, 416, 500, 301, 203, 205, 207, 226, 503}[r.Intn(10)]
				good = false
			case 3:
				sc.encoding = [][]string{{"gzip"}, {"deflate"}, {"br"}, {"x-gzip"}, {"gzip, deflate"}}[r.Intn(5)]
				good = false
			case 4:
				sc.encoding = []string{"identity"}
			case 5: // wrong length, consistently declared
				d := []int{1, -1, n, -n, 5}[r.Intn(5)]
				if n+d < 0 {
					d = 1
				}
				sc.body = make([]byte, n+d)
				copy(sc.body, body)
				sc.declare = n + d
				if r.Intn(2) == 0 {
					sc.declare = -1
				}
				good = d == 0
				desc = fmt.Sprintf("body of %d bytes", n+d)
			case 6: // connection ends before the declared length
				sc.body = body[:r.Intn(n)]
				good = false
				desc = fmt.Sprintf("body ends after %d bytes", len(sc.body))
			case 7:
				sc.declare = -1
				desc = "chunked"
			case 8: // right number of bytes, but more were promised
				sc.declare = n + 1 + r.Intn(5)
				good = false
				desc = fmt.Sprintf("%d bytes declared", sc.declare)
			}
			in := fmt.Sprintf("HTTP bytes [%d,%d), server: status %d, encoding %q, %s", start, start+int64(n), sc.status, sc.encoding, desc)
			calls = 0
			var data []byte
			var err error
			if !h.TryWithin(30*time.Second, "HTTP fetch", in, func() { data, err = src.Requester.DoRequest(start, start+int64(n)) }) {
				return
			}
			wantRange := fmt.Sprintf("bytes=%d-%d", start, start+int64(n)-1)
			switch {
			case calls == 0 || len(gotRange) != 1 || gotRange[0] != wantRange || gotMethod != "GET":
				h.Fail(fmt.Sprintf("HTTP fetch: asked for %q (%s), want %q", gotRange, gotMethod, wantRange), in)
			case good && err != nil:
				h.Fail("HTTP fetch: unexpected error "+err.Error(), in)
			case good && !bytes.Equal(data, body):
				h.Fail(fmt.Sprintf("HTTP fetch: returned %d bytes that are not the %d of the body", len(data), n), in)
			case !good && err == nil:
				h.Fail(fmt.Sprintf("HTTP fetch: no error, returned %d bytes", len(data)), in)
			}
			if h.Stopped() {
				return
			}
			key := ""
			if start > 0 {
				key = in
			}
			h.Case(key, in)
			continue
		}
		for k := 0; k < 50; k++ {
			size := r.Intn(60)
			data := make([]byte, size)
			r.Read(data)
			start := r.Intn(size + 5)
			n := r.Intn(30)
			s := &seeker{data: data, piece: []int{1, 2, 7, 1 << 20}[r.Intn(4)], failAt: -1, withN: r.Intn(2) == 0}
			switch r.Intn(6) {
			case 0:
				s.failSeek = true
			case 1, 2:
				s.failAt = int64(r.Intn(size + 1))
				s.end = []error{errVerif, io.ErrUnexpectedEOF}[r.Intn(2)]
			}
			in := fmt.Sprintf("seekable reader of %d bytes, range [%d,%d), pieces of %d, failing seek %v, read failure at %d (%v), EOF with data %v", size, start, start+n, s.piece, s.failSeek, s.failAt, s.end, s.withN)
			b := blocksources.NewReadSeekerBlockSource(s, blocksources.MakeNullFixedSizeResolver(4))
			var got []byte
			var err error
			ok := h.TryWithin(20*time.Second, "reader fetch", in, func() { got, err = b.Requester.DoRequest(int64(start), int64(start+n)) })
			b.Close()
			if !ok {
				return
			}
			e := start + n
			if e > size {
				e = size
			}
			a := start
			if a > size {
				a = size
			}
			if e < a {
				e = a
			}
			want := data[a:e]
			// a failure counts when reading [start, start+n) gets to it
			hit := s.failSeek || s.failAt >= 0 && n > 0 && s.failAt < int64(start+n) && (s.failAt < int64(e) || len(want) < n)
			if s.failAt >= int64(size) && s.failAt >= 0 && !s.failSeek {
				hit = len(want) < n && int64(start) <= s.failAt && s.failAt <= int64(size) || len(want) < n && int64(start) > s.failAt
			}
			switch {
			case hit && err == nil:
				h.Fail(fmt.Sprintf("reader fetch: failure not reported, returned %d bytes", len(got)), in)
			case !hit && len(want) == 0 && n > 0: // nothing there: the end of the data may be reported as an error
				if err == nil && len(got) != 0 {
					h.Fail("reader fetch: bytes from past the end", in)
				}
			case !hit && err != nil:
				h.Fail("reader fetch: unexpected error "+err.Error(), in)
			case !hit && !bytes.Equal(got, want):
				h.Fail(fmt.Sprintf("reader fetch: returned %x, want %x", got, want), in)
			}
			if h.Stopped() {
				return
			}
			h.Case("", in)
		}
	}
}
