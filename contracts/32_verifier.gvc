package filechecksum

# ---------------------------------------------------------------- C13
# the strong checksum known for a block; none is known when hasstrong is false
fun hasstrong(any, int) bool
fun strongof(any, int) seq

iface filechecksum.ChecksumLookup.GetStrongChecksumForBlock(l, blockID) returns sum
  ensures sum == nil <==> !hasstrong(l, blockID)
  ensures sum != nil ==> sum[*] == strongof(l, blockID)

def blockof(d seq, i int, bs int) seq = d[i * bs:min(i * bs + bs, len(d))]
def blockok(v *filechecksum.HashVerifier, start int, d seq, i int) bool = hasstrong(v.BlockChecksumGetter, start + i) ==> strongof(v.BlockChecksumGetter, start + i) == digest(hashalg(v.Hash), blockof(d, i, v.BlockSize))

func filechecksum.HashVerifier.VerifyBlockRange(v, startBlockID, data) returns ok
  requires v != nil && v.Hash != nil && v.BlockChecksumGetter != nil && v.BlockSize >= 1
  requires v.BlockSize <= 4611686018427387904 && startBlockID + len(data) <= 9223372036854775807
  modifies v.Hash.hin
  ensures ok <==> (forall i int {blk(i)} :: blk(i) && 0 <= i && i * v.BlockSize < len(data) ==> blockok(v, startBlockID, data[*], i))
  loop 1
    invariant blk($iter) && $iter <= len(data) && $iter * v.BlockSize <= len(data) + v.BlockSize
    invariant forall k int {blk(k)} :: blk(k) && 0 <= k && k < $iter ==> blockok(v, startBlockID, data[*], k)
    decreases len(data) - $iter
  # stepping by byte offset
  alt
  loop 1
    invariant blk($iter) && $iter <= len(data) && $iter * v.BlockSize <= len(data) + v.BlockSize && start == $iter * v.BlockSize
    invariant forall k int {blk(k)} :: blk(k) && 0 <= k && k < $iter ==> blockok(v, startBlockID, data[*], k)
    decreases len(data) - $iter
  # cutting blocks off the data
  alt
  loop 1
    invariant arr(data) == arr(old(data)) && off(data) + len(data) == off(old(data)) + len(old(data)) && len(data) <= len(old(data))
    invariant blk($iter) && $iter <= len(old(data)) && $iter * v.BlockSize <= len(old(data)) + v.BlockSize && len(old(data)) - len(data) == min($iter * v.BlockSize, len(old(data)))
    invariant forall k int {blk(k)} :: blk(k) && 0 <= k && k < $iter ==> blockok(v, startBlockID, old(data[*]), k)
    decreases len(data)

prop C13 filechecksum.HashVerifier.VerifyBlockRange
propinfo C13 explain VerifyBlockRange is proved to return true exactly when every block of the data (the last possibly partial) has the expected strong checksum or none is known, whatever was written to the hash before the call
propinfo C13 assume the checksum lookup returns the same answer for the same block during one call
