package circularbuffer

# ---------------------------------------------------------------- C04
# ghost str: every byte written since the last reset.
ghost doubleSizeBuffer.str seq

# a ring holds the last len(buffer) bytes of str, ending just before head
def ring(b *circularbuffer.doubleSizeBuffer, s seq) bool =
  len(b.buffer) > 0 && 0 <= b.head && b.head < len(b.buffer) && arr(b.buffer) != nil
  && (forall p int {b.buffer[p]} :: 0 <= p && p < b.head && len(s) - b.head + p >= 0 ==> b.buffer[p] == s[len(s) - b.head + p])
  && (forall p int {b.buffer[p]} :: b.head <= p && p < len(b.buffer) && len(s) - b.head + p - len(b.buffer) >= 0 ==> b.buffer[p] == s[len(s) - b.head + p - len(b.buffer)])

func circularbuffer.doubleSizeBuffer.Write(buff, by)
  requires buff != nil && ring(buff, buff.str)
  requires arr(by) != arr(buff.buffer)
  modifies buff.head, buff.buffer[*], buff.str
  ghostset buff.str := buff.str ++ by[*]
  ensures buff.str == old(buff.str) ++ by[*]
  ensures ring(buff, buff.str)
  ensures (buff.head - old(buff.head) - len(by)) % len(buff.buffer) == 0
  loop 1
    invariant arr(remaining) == arr(by) && off(remaining) + len(remaining) == off(by) + len(by) && len(remaining) <= len(by)
    invariant ring(buff, old(buff.str) ++ by[:len(by)-len(remaining)])
    invariant (buff.head - old(buff.head) - (len(by) - len(remaining))) % len(buff.buffer) == 0
  # cutting what is written off the parameter
  alt
  loop 1
    invariant arr(by) == arr(old(by)) && off(by) + len(by) == off(old(by)) + len(old(by)) && len(by) <= len(old(by))
    invariant ring(buff, old(buff.str) ++ old(by)[:len(old(by))-len(by)])
    invariant (buff.head - old(buff.head) - (len(old(by)) - len(by))) % len(buff.buffer) == 0
  # counting what is written
  alt
  loop 1
    invariant 0 <= written && written <= len(by)
    invariant ring(buff, old(buff.str) ++ by[:written])
    invariant (buff.head - old(buff.head) - written) % len(buff.buffer) == 0

func circularbuffer.doubleSizeBuffer.Reset(buff)
  requires buff != nil
  modifies buff.head, buff.str
  ghostset buff.str := empty
  ensures buff.str == empty && buff.head == buff.baseOffset

# the logical content: the most recent bytes, at most blocksize of them
ghost C2.data seq
# what the last operation pushed out
ghost C2.ev seq

def evcount(c *circularbuffer.C2) int = c.lastWritten + min(c.totalWritten - c.lastWritten, c.blocksize) - c.blocksize

typeinv circularbuffer.C2(c)
  opt checked
  invariant c.blocksize >= 1 && len(c.a.buffer) == 2 * c.blocksize && len(c.b.buffer) == 2 * c.blocksize && arr(c.a.buffer) != arr(c.b.buffer)
  invariant c.a.baseOffset == 0 && c.b.baseOffset == c.blocksize
  invariant ring(c.a, c.a.str) && ring(c.b, c.a.str) && c.a.str == c.b.str
  invariant c.b.head == (if c.a.head < c.blocksize then c.a.head + c.blocksize else c.a.head - c.blocksize)
  invariant 0 <= c.totalWritten && 0 <= c.lastWritten && min(c.totalWritten, c.blocksize) <= len(c.a.str)
  invariant c.data == c.a.str[len(c.a.str) - min(c.totalWritten, c.blocksize):]
  invariant c.totalWritten > c.blocksize ==> c.lastWritten <= c.blocksize && c.lastWritten <= c.totalWritten && evcount(c) >= 0 && c.blocksize + evcount(c) <= len(c.a.str)
  invariant c.totalWritten > c.blocksize ==> c.ev == c.a.str[len(c.a.str) - c.blocksize - evcount(c):len(c.a.str) - c.blocksize]
  invariant c.totalWritten <= c.blocksize ==> c.ev == empty

func circularbuffer.MakeC2Buffer(blockSize) returns c
  requires 1 <= blockSize && blockSize <= 1152921504606846976
  ensures fresh(c) && c.blocksize == blockSize && c.data == empty && c.ev == empty && c.totalWritten == 0 && fresh(c.a.buffer) && fresh(c.b.buffer)

func circularbuffer.C2.Reset(c)
  requires c != nil
  modifies c.lastWritten, c.totalWritten, c.a.head, c.b.head, c.a.str, c.b.str, c.data, c.ev
  ghostset c.data := empty
  ghostset c.ev := empty
  ensures c.data == empty && c.ev == empty

func circularbuffer.C2.Write(c, b)
  requires c != nil && len(b) <= c.blocksize
  requires c.totalWritten + len(b) <= 9223372036854775807
  requires arr(b) != arr(c.a.buffer) && arr(b) != arr(c.b.buffer)
  modifies c.lastWritten, c.totalWritten, c.a.head, c.b.head, c.a.str, c.b.str, c.a.buffer[*], c.b.buffer[*], c.data, c.ev
  ghostset c.ev := (c.data ++ b[*])[:max(len(c.data) + len(b) - c.blocksize, 0)]
  ghostset c.data := (c.data ++ b[*])[max(len(c.data) + len(b) - c.blocksize, 0):]
  ensures c.data == (old(c.data) ++ b[*])[max(len(old(c.data)) + len(b) - c.blocksize, 0):]
  ensures c.ev == (old(c.data) ++ b[*])[:max(len(old(c.data)) + len(b) - c.blocksize, 0)]
  ensures c.totalWritten <= old(c.totalWritten) + len(b)

func circularbuffer.C2.Len(c) returns n
  requires c != nil
  ensures n == len(c.data)

func circularbuffer.C2.Empty(c) returns e
  requires c != nil
  ensures e <==> len(c.data) == 0

func circularbuffer.C2.Truncate(c, byteCount) returns evicted
  requires c != nil && byteCount >= 0
  modifies c.totalWritten, c.data, c.ev
  ghostset c.data := c.data[min(byteCount, len(c.data)):]
  ghostset c.ev := empty
  ensures evicted[*] == old(c.data)[:min(byteCount, len(old(c.data)))]
  ensures c.data == old(c.data)[min(byteCount, len(old(c.data))):] && c.totalWritten <= old(c.totalWritten)
  ensures c.ev == empty

func circularbuffer.C2.GetBlock(c) returns r
  requires c != nil
  ensures r[*] == c.data

func circularbuffer.C2.Evicted(c) returns r
  requires c != nil
  ensures r[*] == c.ev

prop C04 circularbuffer.MakeC2Buffer circularbuffer.C2.Reset circularbuffer.C2.Write circularbuffer.C2.Len circularbuffer.C2.Empty circularbuffer.C2.Truncate circularbuffer.C2.GetBlock circularbuffer.C2.Evicted
propinfo C04 explain the representation invariant of the two rings (positions, wrap-around, contents against the ghost stream) is proved to be kept by every operation, and GetBlock/Evicted/Truncate/Len to return exactly the ghost window, the bytes just pushed out and the bytes dropped
propinfo C04 assume fewer than 2^63 bytes are written between resets
