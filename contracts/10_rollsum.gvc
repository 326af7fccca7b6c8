package rollsum

# ---------------------------------------------------------------- C02
# Rollsum32Base: the ghost field win is the sequence of bytes in the rolling window.  The type
# invariant ties the machine words to the window; every operation states its effect on win only.
ghost Rollsum32Base.win seq

typeinv rollsum.Rollsum32Base(r)
  invariant r.a % 65536 == sumb(r.win) % 65536
  invariant r.b % 65536 == wsum(r.win) % 65536

func rollsum.NewRollsum32Base(blockSize) returns r
  ensures fresh(r) && r.blockSize == blockSize && r.win == empty

func rollsum.Rollsum32Base.AddByte(r, b)
  requires r != nil
  modifies r.a, r.b, r.win
  ghostset r.win := snoc(r.win, b)
  ensures r.win == snoc(old(r.win), b)

func rollsum.Rollsum32Base.AddBytes(r, bs)
  requires r != nil
  modifies r.a, r.b, r.win
  ghostset r.win := old(r.win) ++ bs[*]
  ensures r.win == old(r.win) ++ bs[*]
  loop 1
    invariant $iter <= len(bs) && r.win == old(r.win)
    invariant r.a % 65536 == sumb(old(r.win) ++ bs[:$iter]) % 65536
    invariant r.b % 65536 == wsum(old(r.win) ++ bs[:$iter]) % 65536
    hint old(r.win) ++ bs[:$iter] == snoc(old(r.win) ++ bs[:$iter-1], bs[$iter-1])
  # byte by byte through AddByte
  alt
  loop 1
    invariant $iter <= len(bs) && r.win == old(r.win) ++ bs[:$iter]
    hint old(r.win) ++ bs[:$iter] == snoc(old(r.win) ++ bs[:$iter-1], bs[$iter-1])

func rollsum.Rollsum32Base.RemoveByte(r, b, length)
  requires r != nil
  requires length >= 1 && len(r.win) == length && r.win[0] == b
  modifies r.a, r.b, r.win
  ghostset r.win := r.win[1:]
  ensures r.win == old(r.win)[1:]

func rollsum.Rollsum32Base.RemoveBytes(r, bs, length)
  requires r != nil
  requires len(r.win) == length && len(bs) <= length
  requires forall i int :: 0 <= i && i < len(bs) ==> r.win[i] == bs[i]
  modifies r.a, r.b, r.win
  ghostset r.win := old(r.win)[len(bs):]
  ensures r.win == old(r.win)[len(bs):]
  loop 1
    invariant $iter <= len(bs) && r.win == old(r.win)
    invariant r.a % 65536 == sumb(old(r.win)[$iter:]) % 65536
    invariant r.b % 65536 == wsum(old(r.win)[$iter:]) % 65536
    hint old(r.win)[$iter:] == old(r.win)[$iter-1:][1:]
    hint old(r.win)[$iter-1:][0] == bs[$iter-1]
    hint wsum(old(r.win)[$iter-1:]) == wsum(old(r.win)[$iter:]) + (old(length) - ($iter - 1)) * bs[$iter-1]
  # byte by byte through RemoveByte
  alt
  loop 1
    invariant $iter <= len(bs) && r.win == old(r.win)[$iter:]
    hint old(r.win)[$iter:] == old(r.win)[$iter-1:][1:]

func rollsum.Rollsum32Base.AddAndRemoveBytes(r, add, remove, length)
  requires r != nil
  requires len(r.win) == length && len(remove) <= len(add)
  requires len(remove) > 0 ==> len(remove) < length + len(add)
  requires length + len(add) <= 9223372036854775807
  requires remove[*] == (r.win ++ add[*])[:len(remove)]
  modifies r.a, r.b, r.win
  ensures r.win == (old(r.win) ++ add[*])[len(remove):]
  loop 1
    invariant $iter <= len(remove)
    headhint $iter < len(remove) ==> remove[$iter] == (old(r.win) ++ add[*])[$iter]
    headhint $iter < len(remove) ==> (old(r.win) ++ add[*])[$iter] == (old(r.win) ++ add[:$iter + (len(add) - len(remove))])[$iter]
    invariant r.win == (old(r.win) ++ add[:$iter + (len(add) - len(remove))])[$iter:]

func rollsum.Rollsum32Base.Reset(r)
  requires r != nil
  modifies r.a, r.b, r.win
  ghostset r.win := empty
  ensures r.win == empty

func rollsum.Rollsum32Base.SetBlock(r, block)
  requires r != nil
  modifies r.a, r.b, r.win
  ensures r.win == block[*]

# the published checksum of a byte sequence
def weakbyte(s seq, i int) int = if i == 0 then sumb(s) % 256 else if i == 1 then (sumb(s) / 256) % 256 else if i == 2 then wsum(s) % 256 else (wsum(s) / 256) % 256

func rollsum.Rollsum32Base.GetSum(r, b)
  requires r != nil && len(b) >= 4
  modifies b[*]
  ensures b[0] == weakbyte(r.win, 0) && b[1] == weakbyte(r.win, 1) && b[2] == weakbyte(r.win, 2) && b[3] == weakbyte(r.win, 3)
  ensures forall k int {row(b)[k]} :: k < off(b) || k >= off(b) + 4 ==> row(b)[k] == old(row(b))[k]

prop C02 rollsum.NewRollsum32Base rollsum.Rollsum32Base.AddByte rollsum.Rollsum32Base.AddBytes rollsum.Rollsum32Base.RemoveByte rollsum.Rollsum32Base.RemoveBytes rollsum.Rollsum32Base.AddAndRemoveBytes rollsum.Rollsum32Base.Reset rollsum.Rollsum32Base.SetBlock rollsum.Rollsum32Base.GetSum
propinfo C02 explain every operation of Rollsum32Base is proved to keep a = sum and b = weighted sum of the ghost window modulo 2^16 (machine words wrap at 2^32), and GetSum to write their low 16 bits; so after any sequence of operations the checksum is that of the window alone

# ---------------------------------------------------------------- C03
# Rollsum32: the window of the base checksum is always the content of the circular buffer.
typeinv rollsum.Rollsum32(r)
  opt checked
  invariant r.buffer != nil && r.blockSize == r.buffer.blocksize
  invariant inv(r.buffer)
  invariant r.a % 65536 == sumb(r.Rollsum32Base.win) % 65536 && r.b % 65536 == wsum(r.Rollsum32Base.win) % 65536
  invariant r.Rollsum32Base.win == r.buffer.data

func rollsum.NewRollsum32(blocksize) returns r
  requires 1 <= blocksize && blocksize <= 1152921504606846976
  ensures fresh(r) && r.blockSize == blocksize && r.buffer.data == empty && r.Rollsum32Base.win == empty && fresh(r.buffer)

func rollsum.Rollsum32.Write(r, p) returns n, err
  requires r != nil
  requires r.buffer.totalWritten + r.blockSize <= 9223372036854775807
  requires arr(p) != arr(r.buffer.a.buffer) && arr(p) != arr(r.buffer.b.buffer)
  modifies r.a, r.b, r.Rollsum32Base.win, r.buffer.lastWritten, r.buffer.totalWritten, r.buffer.a.head, r.buffer.b.head, r.buffer.a.str, r.buffer.b.str, r.buffer.a.buffer[*], r.buffer.b.buffer[*], r.buffer.data, r.buffer.ev
  ensures n == len(p) && err == nil
  ensures r.buffer.data == (old(r.buffer.data) ++ p[*])[max(len(old(r.buffer.data)) + len(p) - r.blockSize, 0):]

func rollsum.Rollsum32.Reset(r)
  requires r != nil
  modifies r.a, r.b, r.Rollsum32Base.win, r.buffer.lastWritten, r.buffer.totalWritten, r.buffer.a.head, r.buffer.b.head, r.buffer.a.str, r.buffer.b.str, r.buffer.data, r.buffer.ev
  ensures r.buffer.data == empty

func rollsum.Rollsum32.Sum(r, b) returns out
  requires r != nil
  requires arr(b) != arr(r.buffer.a.buffer) && arr(b) != arr(r.buffer.b.buffer)
  modifies b[*]
  ensures len(out) == len(b) + 4
  ensures forall i int :: 0 <= i && i < len(b) ==> out[i] == old(b[*])[i]
  ensures out[len(b)] == weakbyte(r.buffer.data, 0) && out[len(b)+1] == weakbyte(r.buffer.data, 1) && out[len(b)+2] == weakbyte(r.buffer.data, 2) && out[len(b)+3] == weakbyte(r.buffer.data, 3)

func rollsum.Rollsum32.GetLastBlock(r) returns out
  requires r != nil
  ensures out[*] == r.buffer.data

func rollsum.Rollsum32.BlockSize(r) returns n
  requires r != nil
  ensures n == r.blockSize

func rollsum.Rollsum32.Size(r) returns n
  requires r != nil
  ensures n == 4

prop C03 rollsum.NewRollsum32 rollsum.Rollsum32.Write rollsum.Rollsum32.Reset rollsum.Rollsum32.Sum rollsum.Rollsum32.GetLastBlock rollsum.Rollsum32.BlockSize rollsum.Rollsum32.Size
propinfo C03 explain the type invariant of Rollsum32 (the checksum's ghost window is the content of the circular buffer) is proved to be kept by NewRollsum32, Write and Reset; Sum and GetLastBlock are proved to return its checksum and its bytes
propinfo C03 assume fewer than 2^63 bytes are written between resets; the slice given to Write is not the memory of the buffer itself
