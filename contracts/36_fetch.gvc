package blocksources

# ---------------------------------------------------------------- C16: seekable readers
# serr: the error of seeking to an offset (nil if it works); avail: what can then be read before the reader's error or the end
fun content(any) seq
fun serr(any, int) any
fun avail(any, int) seq
defaxiom avail_prefix: forall r any, o int {avail(r, o)} :: o >= 0 ==> len(avail(r, o)) <= max(len(content(r)) - o, 0) && avail(r, o) == content(r)[o:o + len(avail(r, o))]
defaxiom avail_all: forall r any, o int {avail(r, o)} :: o >= 0 && rerr(r) == io.EOF ==> len(avail(r, o)) == max(len(content(r)) - o, 0)

iface blocksources.ReadSeeker.Read(r, b) returns n, err
  modifies r.rem, b[*]
  ensures 0 <= n && n <= len(b) && n <= len(old(r.rem))
  ensures b[:n] == old(r.rem)[:n]
  ensures r.rem == old(r.rem)[n:]
  ensures err != nil ==> len(r.rem) == 0 && err == rerr(r)
  ensures len(old(r.rem)) == 0 && len(b) > 0 ==> err != nil
  ensures forall k int {row(b)[k]} :: k < off(b) || k >= off(b) + len(b) ==> row(b)[k] == old(row(b))[k]

iface blocksources.ReadSeeker.Seek(r, offset, whence) returns pos, err
  modifies r.rem
  ensures whence == 0 ==> err == serr(r, offset)
  ensures whence == 0 && err == nil ==> r.rem == avail(r, offset)

func blocksources.ReadSeekerRequester.DoRequest(r, startOffset, endOffset) returns data, err
  requires r != nil && r.rs != nil && 0 <= startOffset && startOffset <= endOffset && endOffset <= 70368744177664
  modifies r.rs.rem
  # success: the bytes of the range, up to the end of the data
  ensures err == nil ==> data[*] == content(r.rs)[startOffset:startOffset + len(data)] && len(data) <= endOffset - startOffset
  ensures err == nil && len(data) < endOffset - startOffset ==> len(data) == len(content(r.rs)) - startOffset
  # failure: the error that occurred
  ensures err != nil ==> len(data) == 0 && (err == serr(r.rs, startOffset) || err == rerr(r.rs))
  # it succeeds when the seek works and the range can be read, or the data ends inside it
  ensures serr(r.rs, startOffset) == nil && len(avail(r.rs, startOffset)) >= endOffset - startOffset ==> err == nil
  ensures serr(r.rs, startOffset) == nil && rerr(r.rs) == io.EOF && startOffset < len(content(r.rs)) ==> err == nil
  loop 1
    modifies r.rs.rem, buffer[*]
    invariant 0 <= n && n <= len(buffer) && n <= len(avail(r.rs, startOffset))
    invariant forall k int {buffer[k]} :: 0 <= k && k < n ==> buffer[k] == avail(r.rs, startOffset)[k]
    invariant r.rs.rem == avail(r.rs, startOffset)[n:]
    invariant err != nil ==> err == rerr(r.rs) && len(r.rs.rem) == 0

prop C16 blocksources.ReadSeekerRequester.DoRequest blocksources.HttpRequester.DoRequest

# ---------------------------------------------------------------- C16: HTTP
# hrange: the Range header set so far; areq, aresp, aerr: the last request sent through a client, the response and the error.
ghost hrange seq
ghost areq any
ghost aresp any
ghost aerr any
ghost bcont seq

extern http.NewRequest(method, url, body) returns req, err
  ensures err == nil ==> req != nil && fresh(req) && req.Header != nil && fresh(req.Header) && req.Header.hrange == empty
  ensures err != nil ==> req == nil

extern http.Request.ProtoAtLeast(r, major, minor) returns b

extern http.Header.Add(h, key, value)
  modifies h.hrange
  ensures h.hrange == (if key == "Range" then value else old(h.hrange))

extern http.Client.Do(c, req) returns resp, err
  modifies c.areq, c.aresp, c.aerr
  ensures c.areq == req && c.aresp == resp && c.aerr == err
  ensures err == nil ==> resp != nil && fresh(resp) && resp.Body != nil && fresh(resp.Body) && resp.Body.rem == bodyof(resp.Body)

fun hget(ref, seq) seq
fun joined(ref, int, int) seq
fun bodyof(any) seq
fun eqfold(seq, seq) bool
fun contains(seq, seq) bool

extern http.Header.Get(h, key) returns v
  ensures v == hget(h, key)

extern strings.Join(elems, sep) returns s
  ensures s == joined(arr(elems), off(elems), len(elems))

extern strings.Contains(s, sub) returns c
  ensures c <==> contains(s, sub)

extern strings.EqualFold(a, b) returns e
  ensures e <==> eqfold(a, b)

# fclosed: closed without an error
ghost fclosed bool
iface io.Closer.Close(c) returns err
  modifies c.fclosed
  ensures err == nil ==> c.fclosed
  ensures err != nil ==> c.fclosed == old(c.fclosed)

extern bytes.NewBuffer(buf) returns b
  ensures b != nil && fresh(b) && b.bcont == buf[*] && b.rem == buf[*] && b.wout == empty

extern bytes.Buffer.ReadFrom(b, r) returns n, err
  modifies b.bcont, r.rem
  ensures b.bcont == old(b.bcont) ++ old(r.rem) && r.rem == empty
  ensures err == (if rerr(r) == io.EOF then nil else rerr(r))

extern bytes.Buffer.Bytes(b) returns s
  ensures s[*] == b.bcont

# what the server sent in answer to the last request
def resp(c *http.Client) "*http.Response" = as(c.aresp, "*http.Response")
defaxiom joined_none: forall a ref, o int {joined(a, o, 0)} :: joined(a, o, 0) == ""
def encoding(c *http.Client) seq = if resp(c).Header == nil || !has(resp(c).Header, "Content-Encoding") then "" else joined(arr(resp(c).Header["Content-Encoding"]), off(resp(c).Header["Content-Encoding"]), len(resp(c).Header["Content-Encoding"]))
def unencoded(c *http.Client) bool = encoding(c) == "" || eqfold(encoding(c), "identity")
fun dec(int) seq

func blocksources.HttpRequester.DoRequest(r, startOffset, endOffset) returns data, err
  requires r != nil && r.client != nil && 0 <= startOffset && startOffset <= endOffset && endOffset <= 70368744177664
  modifies r.client.areq, r.client.aresp, r.client.aerr
  # it asks for exactly the range it was given
  ensures err == nil ==> as(r.client.areq, "*http.Request").Header.hrange == "bytes=" ++ dec(startOffset) ++ "-" ++ dec(endOffset - 1)
  # success only on a complete partial-content response that is not encoded, and with exactly its bytes
  ensures err == nil ==> r.client.aerr == nil && resp(r.client).StatusCode == 206 && unencoded(r.client)
  ensures err == nil ==> data[*] == bodyof(resp(r.client).Body) && rerr(resp(r.client).Body) == io.EOF && len(data) == endOffset - startOffset
  # and on every such response
  ensures err != nil ==> r.client.areq == old(r.client.areq) || r.client.aerr != nil || resp(r.client).StatusCode != 206 || !unencoded(r.client) || contains(hget(resp(r.client).Header, "Content-Encoding"), "gzip") || rerr(resp(r.client).Body) != io.EOF || len(bodyof(resp(r.client).Body)) != endOffset - startOffset
propinfo C16 explain HttpRequester.DoRequest is proved to send a Range header naming exactly the half-open range, and to succeed exactly with the complete body of an unencoded partial-content response of exactly that length; ReadSeekerRequester.DoRequest is proved to return the content's bytes at the range, shorter only at the end of the content, or the seek or read error
propinfo C16 assume net/http (NewRequest, Client.Do, Header), strings and bytes.Buffer behave as their documentation states; the body of a response is what its reader delivers; range ends below 2^46
