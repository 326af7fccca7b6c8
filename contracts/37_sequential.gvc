package sequential

# ---------------------------------------------------------------- C17
# Writers: wout is everything written so far; wfail the error of the last write or copy into it.
ghost wout seq
ghost wfail any
# seekable readers: the error of the last seek
ghost seekfail any
# channels: number of messages received so far, number ever sent, and whether it is closed
ghost recvN int
ghost sentN int
ghost chclosed bool
# block sources: first and last block of every span requested so far, and the error of the last request
ghost reqfirst seq
ghost reqlast seq
ghost reqfail any
fun rchan(any) ref
fun echan(any) ref
# the result and error channels of a block source, and the objects it works on, are distinct from each other
defaxiom chans_differ: forall r any, s any {rchan(r), echan(s)} :: rchan(r) != echan(s)

iface io.ReadSeeker.Seek(r, offset, whence) returns pos, err
  modifies r.rem, r.seekfail
  ensures whence == 0 ==> err == serr(r, offset) && r.seekfail == err
  ensures whence == 0 && err == nil ==> r.rem == avail(r, offset)

iface io.Writer.Write(w, p) returns n, err
  modifies w.wout, w.wfail
  ensures 0 <= n && n <= len(p) && w.wout == old(w.wout) ++ p[:n]
  ensures n < len(p) ==> err != nil
  ensures err == nil ==> w.wout == old(w.wout) ++ p[*]
  ensures w.wfail == err

# copies what src still has, unless reading or writing fails; if src is limited its base is consumed
fun islimited(any) bool
def copylen(src any, n int) int = if islimited(src) then min(max(limn(src), 0), n) else n
extern io.Copy(dst, src) returns n, err
  modifies dst.wout, dst.wfail, src.rem, (if islimited(src) then limbase(src).rem else src.rem)
  ensures dst.wfail == err
  ensures err == nil && islimited(src) ==> dst.wout == old(dst.wout) ++ old(limbase(src).rem)[:n] && n == min(max(limn(src), 0), len(old(limbase(src).rem)))
  ensures err == nil && islimited(src) && n < limn(src) ==> rerr(limbase(src)) == io.EOF
  ensures err == nil && !islimited(src) ==> dst.wout == old(dst.wout) ++ old(src.rem) && n == len(old(src.rem)) && rerr(src) == io.EOF

iface patcher.BlockSource.RequestBlocks(s, span) returns err
  modifies s.reqfirst, s.reqlast, s.reqfail
  ensures s.reqfirst == snoc(old(s.reqfirst), span.StartBlock) && s.reqlast == snoc(old(s.reqlast), span.EndBlock) && s.reqfail == err

iface patcher.BlockSource.GetResultChannel(s) returns ch
  ensures ref(ch) == rchan(s)

iface patcher.BlockSource.EncounteredError(s) returns ch
  ensures ref(ch) == echan(s)

func sequential.withinFirstBlockOfRemoteBlocks(currentBlock, remoteBlocks) returns w
  ensures w <==> len(remoteBlocks) > 0 && remoteBlocks[0].StartBlock <= currentBlock && currentBlock <= remoteBlocks[0].EndBlock

func sequential.withinFirstBlockOfLocalBlocks(currentBlock, localBlocks) returns w
  ensures w <==> len(localBlocks) > 0 && localBlocks[0].StartBlock <= currentBlock && currentBlock <= localBlocks[0].EndBlock

# the number of blocks, the last possibly partial
func sequential.calculateNumberOfCompletedBlocks(resultLength, blockSize) returns c
  requires 0 <= resultLength && blockSize >= 1
  ensures c * blockSize >= resultLength && (c - 1) * blockSize < resultLength && c >= 0
  ensures resultLength > 0 <==> c > 0

# ---- the spans and what is delivered for them
# bytes of a span of full blocks, and where it starts in the output
def spanlen(first int, last int, bs int) int = (last + 1) * bs - first * bs
def upto(first int, bs int) int = first * bs
# the local bytes found at an offset, up to n of them
def localpart(f any, o int, n int) seq = avail(f, o)[:min(n, len(avail(f, o)))]
# the j-th response the source delivers during the call
def response(r any, k int) "patcher.BlockReponse" = chmsg(rchan(r), k, "patcher.BlockReponse")

def foundok(l "[]patcher.FoundBlockSpan", i int, bs int, max int) bool = l[i].StartBlock <= l[i].EndBlock && l[i].EndBlock <= max && (l[i].BlockSize == bs || l[i].StartBlock == max && 1 <= l[i].BlockSize && l[i].BlockSize < bs)
# its bytes: full blocks, or the last block of the file with its own size
def foundlen(s patcher.FoundBlockSpan, bs int) int = if s.BlockSize == bs then spanlen(s.StartBlock, s.EndBlock, bs) else s.BlockSize
def missingok(l "[]patcher.MissingBlockSpan", j int, bs int, max int) bool = l[j].StartBlock <= l[j].EndBlock && l[j].EndBlock <= max && l[j].BlockSize == bs
# span i of the found list is in the output w (which started at base): its local bytes, all of them unless it is the last span
def foundin(w seq, base int, f any, s patcher.FoundBlockSpan, bs int, max int) bool =
  (s.EndBlock < max ==> len(avail(f, s.MatchOffset)) >= spanlen(s.StartBlock, s.EndBlock, bs)
     && w[base + s.StartBlock * bs:base + (s.EndBlock + 1) * bs] == avail(f, s.MatchOffset)[:spanlen(s.StartBlock, s.EndBlock, bs)])
  && (s.EndBlock == max ==> (len(avail(f, s.MatchOffset)) < foundlen(s, bs) ==> rerr(f) == io.EOF) && len(w) == base + s.StartBlock * bs + min(foundlen(s, bs), len(avail(f, s.MatchOffset)))
     && w[base + s.StartBlock * bs:] == localpart(f, s.MatchOffset, foundlen(s, bs)))
def missingin(w seq, base int, m patcher.BlockReponse, s patcher.MissingBlockSpan, bs int, max int) bool =
  m.StartBlock == s.StartBlock
  && (s.EndBlock < max ==> len(m.Data) == spanlen(s.StartBlock, s.EndBlock, bs) && w[base + s.StartBlock * bs:base + (s.EndBlock + 1) * bs] == m.Data[*])
  && (s.EndBlock == max ==> len(m.Data) <= spanlen(s.StartBlock, s.EndBlock, bs) && len(m.Data) > s.EndBlock * bs - s.StartBlock * bs && len(w) == base + s.StartBlock * bs + len(m.Data) && w[base + s.StartBlock * bs:] == m.Data[*])

# a response that is not for the span, or not of its length
def badresponse(m patcher.BlockReponse, s patcher.MissingBlockSpan, bs int, max int) bool =
  m.StartBlock != s.StartBlock || len(m.Data) > spanlen(s.StartBlock, s.EndBlock, bs) || len(m.Data) < spanlen(s.StartBlock, s.EndBlock, bs) && s.EndBlock < max || len(m.Data) <= s.EndBlock * bs - s.StartBlock * bs

# the block size and the last block
def bsof(l "[]patcher.FoundBlockSpan", m "[]patcher.MissingBlockSpan") int = if len(m) > 0 then m[0].BlockSize else l[0].BlockSize
def maxof(l "[]patcher.FoundBlockSpan", m "[]patcher.MissingBlockSpan") int = max(if len(l) > 0 then l[len(l)-1].EndBlock else 0, if len(m) > 0 then m[len(m)-1].EndBlock else 0)

func sequential.SequentialPatcher(localFile, reference, requiredRemoteBlocks, locallyAvailableBlocks, maxBlockStorage, output) returns err
  requires localFile != nil && output != nil && localFile != output && reference != localFile && reference != output
  requires bsof(locallyAvailableBlocks, requiredRemoteBlocks) >= 1 && 0 <= maxof(locallyAvailableBlocks, requiredRemoteBlocks) && (maxof(locallyAvailableBlocks, requiredRemoteBlocks) + 1) * bsof(locallyAvailableBlocks, requiredRemoteBlocks) <= 70368744177664 && maxof(locallyAvailableBlocks, requiredRemoteBlocks) <= 70368744177664
  requires forall i int {locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len(locallyAvailableBlocks) ==> foundok(locallyAvailableBlocks, i, bsof(locallyAvailableBlocks, requiredRemoteBlocks), maxof(locallyAvailableBlocks, requiredRemoteBlocks)) && locallyAvailableBlocks[i].MatchOffset >= 0
  requires forall i int {requiredRemoteBlocks[i].StartBlock} :: 0 <= i && i < len(requiredRemoteBlocks) ==> missingok(requiredRemoteBlocks, i, bsof(locallyAvailableBlocks, requiredRemoteBlocks), maxof(locallyAvailableBlocks, requiredRemoteBlocks))
  requires @ordF forall i int, j int {locallyAvailableBlocks[i].StartBlock, locallyAvailableBlocks[j].StartBlock} :: 0 <= i && i < j && j < len(locallyAvailableBlocks) ==> locallyAvailableBlocks[i].EndBlock < locallyAvailableBlocks[j].StartBlock
  requires @ordM forall i int, j int {requiredRemoteBlocks[i].StartBlock, requiredRemoteBlocks[j].StartBlock} :: 0 <= i && i < j && j < len(requiredRemoteBlocks) ==> requiredRemoteBlocks[i].EndBlock < requiredRemoteBlocks[j].StartBlock
  requires @cross forall i int, j int {locallyAvailableBlocks[i].StartBlock, requiredRemoteBlocks[j].StartBlock} :: 0 <= i && i < len(locallyAvailableBlocks) && 0 <= j && j < len(requiredRemoteBlocks) ==> locallyAvailableBlocks[i].EndBlock < requiredRemoteBlocks[j].StartBlock || requiredRemoteBlocks[j].EndBlock < locallyAvailableBlocks[i].StartBlock
  # together they cover every block from zero to the last
  requires @cover forall b int {blk(b)} :: blk(b) && 0 <= b && b <= maxof(locallyAvailableBlocks, requiredRemoteBlocks) ==> (exists i int {locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len(locallyAvailableBlocks) && locallyAvailableBlocks[i].StartBlock <= b && b <= locallyAvailableBlocks[i].EndBlock) || (exists j int {requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len(requiredRemoteBlocks) && requiredRemoteBlocks[j].StartBlock <= b && b <= requiredRemoteBlocks[j].EndBlock)
  modifies localFile.rem, localFile.seekfail, output.wout, output.wfail, reference.reqfirst, reference.reqlast, reference.reqfail, rchan(reference).recvN, echan(reference).recvN
  # success: what was written is the local bytes of each found span and the delivered bytes of each missing span, at their places
  ensures @found err == nil ==> (forall i int {locallyAvailableBlocks[i].StartBlock} :: 0 <= i && i < len(locallyAvailableBlocks) ==> foundin(output.wout, len(old(output.wout)), localFile, locallyAvailableBlocks[i], bsof(locallyAvailableBlocks, requiredRemoteBlocks), maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
  ensures @missing err == nil ==> (forall j int {requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len(requiredRemoteBlocks) ==> missingin(output.wout, len(old(output.wout)), response(reference, old(rchan(reference).recvN) + j), requiredRemoteBlocks[j], bsof(locallyAvailableBlocks, requiredRemoteBlocks), maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
  ensures err == nil ==> output.wout[:len(old(output.wout))] == old(output.wout)
  # each missing span is requested once, in order
  ensures err == nil ==> len(reference.reqfirst) == len(old(reference.reqfirst)) + len(requiredRemoteBlocks) && len(reference.reqlast) == len(old(reference.reqlast)) + len(requiredRemoteBlocks)
  ensures err == nil ==> (forall j int {requiredRemoteBlocks[j].StartBlock} :: 0 <= j && j < len(requiredRemoteBlocks) ==> reference.reqfirst[len(old(reference.reqfirst)) + j] == requiredRemoteBlocks[j].StartBlock && reference.reqlast[len(old(reference.reqlast)) + j] == requiredRemoteBlocks[j].EndBlock)
  ensures err == nil ==> reference != nil && rchan(reference).recvN == old(rchan(reference).recvN) + len(requiredRemoteBlocks)
  # failure: only if something failed
  ensures @+cover+ordF+ordM err != nil ==> reference == nil || localFile.seekfail != nil || output.wfail != nil || reference.reqfail != nil || echan(reference).recvN > old(echan(reference).recvN) || echan(reference).chclosed || rchan(reference).chclosed
     || (exists i int {blk(i)} :: blk(i) && 0 <= i && i < len(locallyAvailableBlocks) && locallyAvailableBlocks[i].EndBlock < maxof(locallyAvailableBlocks, requiredRemoteBlocks) && len(avail(localFile, locallyAvailableBlocks[i].MatchOffset)) < spanlen(locallyAvailableBlocks[i].StartBlock, locallyAvailableBlocks[i].EndBlock, bsof(locallyAvailableBlocks, requiredRemoteBlocks)))
     || (exists j int {blk(j)} :: blk(j) && 0 <= j && j < len(requiredRemoteBlocks) && badresponse(response(reference, old(rchan(reference).recvN) + j), requiredRemoteBlocks[j], bsof(locallyAvailableBlocks, requiredRemoteBlocks), maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c < firstMissing.EndBlock - firstMissing.StartBlock + 1 ==> $c * $blockSize <= (firstMissing.EndBlock - firstMissing.StartBlock) * $blockSize
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c > firstMissing.EndBlock - firstMissing.StartBlock + 1 ==> ($c - 1) * $blockSize >= (firstMissing.EndBlock - firstMissing.StartBlock + 1) * $blockSize
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! (firstMissing.EndBlock - firstMissing.StartBlock) * $blockSize == firstMissing.EndBlock * $blockSize - firstMissing.StartBlock * $blockSize && (firstMissing.EndBlock - firstMissing.StartBlock + 1) * $blockSize == spanlen(firstMissing.StartBlock, firstMissing.EndBlock, $blockSize)
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c == firstMissing.EndBlock - firstMissing.StartBlock + 1 ==> $c * $blockSize == spanlen(firstMissing.StartBlock, firstMissing.EndBlock, $blockSize)
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! !rchan(reference).chclosed ==> $resultLength == len(response(reference, old(rchan(reference).recvN) + old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)).Data)
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c < firstMissing.EndBlock - firstMissing.StartBlock + 1 ==> $resultLength <= firstMissing.EndBlock * $blockSize - firstMissing.StartBlock * $blockSize
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c > firstMissing.EndBlock - firstMissing.StartBlock + 1 ==> $resultLength > spanlen(firstMissing.StartBlock, firstMissing.EndBlock, $blockSize)
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! $c == firstMissing.EndBlock - firstMissing.StartBlock + 1 && $resultLength != $c * $blockSize ==> $resultLength < spanlen(firstMissing.StartBlock, firstMissing.EndBlock, $blockSize)
  hint after sequential.calculateNumberOfCompletedBlocks: @=cnt+! !rchan(reference).chclosed && ($c != firstMissing.EndBlock - firstMissing.StartBlock + 1 || $resultLength != $c * $blockSize && firstMissing.EndBlock < maxBlock) ==> badresponse(response(reference, old(rchan(reference).recvN) + old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)), firstMissing, $blockSize, maxBlock)
  loop 1
    modifies localFile.rem, localFile.seekfail, output.wout, output.wfail, reference.reqfirst, reference.reqlast, reference.reqfail, rchan(reference).recvN, echan(reference).recvN
    invariant arr(locallyAvailableBlocks) == old(arr(locallyAvailableBlocks)) && len(locallyAvailableBlocks) <= old(len(locallyAvailableBlocks)) && off(locallyAvailableBlocks) - old(off(locallyAvailableBlocks)) == old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks)
    invariant arr(requiredRemoteBlocks) == old(arr(requiredRemoteBlocks)) && len(requiredRemoteBlocks) <= old(len(requiredRemoteBlocks)) && off(requiredRemoteBlocks) - old(off(requiredRemoteBlocks)) == old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)
    invariant @+ordF+ordM+cross+cover reference != nil && maxBlock == old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)) && 0 <= currentBlock && currentBlock <= maxBlock + 1
    invariant forall i int {old(locallyAvailableBlocks)[i].StartBlock} :: 0 <= i && i < old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks) ==> old(locallyAvailableBlocks)[i].EndBlock < currentBlock
    invariant @+ordF+cross forall i int {old(locallyAvailableBlocks)[i].StartBlock} :: old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks) <= i && i < old(len(locallyAvailableBlocks)) ==> old(locallyAvailableBlocks)[i].StartBlock >= currentBlock
    invariant forall i int {old(requiredRemoteBlocks)[i].StartBlock} :: 0 <= i && i < old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks) ==> old(requiredRemoteBlocks)[i].EndBlock < currentBlock
    invariant @+ordM+cross forall i int {old(requiredRemoteBlocks)[i].StartBlock} :: old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks) <= i && i < old(len(requiredRemoteBlocks)) ==> old(requiredRemoteBlocks)[i].StartBlock >= currentBlock
    invariant len(output.wout) >= len(old(output.wout)) && output.wout[:len(old(output.wout))] == old(output.wout)
    invariant currentBlock <= maxBlock ==> len(output.wout) == len(old(output.wout)) + currentBlock * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks))
    invariant @found forall i int {old(locallyAvailableBlocks)[i].StartBlock} :: 0 <= i && i < old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks) ==> foundin(output.wout, len(old(output.wout)), localFile, old(locallyAvailableBlocks)[i], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
    invariant @missing forall j int {old(requiredRemoteBlocks)[j].StartBlock} :: 0 <= j && j < old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks) ==> missingin(output.wout, len(old(output.wout)), response(reference, old(rchan(reference).recvN) + j), old(requiredRemoteBlocks)[j], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
    invariant echan(reference).recvN >= old(echan(reference).recvN) && echan(reference).chclosed == old(echan(reference).chclosed) && rchan(reference).chclosed == old(rchan(reference).chclosed)
    invariant rchan(reference).recvN == old(rchan(reference).recvN) + old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)
    invariant len(reference.reqfirst) == len(old(reference.reqfirst)) + old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks) && len(reference.reqlast) == len(old(reference.reqlast)) + old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)
    invariant forall j int {old(requiredRemoteBlocks)[j].StartBlock} :: 0 <= j && j < old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks) ==> reference.reqfirst[len(old(reference.reqfirst)) + j] == old(requiredRemoteBlocks)[j].StartBlock && reference.reqlast[len(old(reference.reqlast)) + j] == old(requiredRemoteBlocks)[j].EndBlock
    decreases maxBlock + 1 - currentBlock
    headhint len(locallyAvailableBlocks) > 0 ==> locallyAvailableBlocks[0].StartBlock == old(locallyAvailableBlocks)[old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks)].StartBlock
    headhint len(requiredRemoteBlocks) > 0 ==> requiredRemoteBlocks[0].StartBlock == old(requiredRemoteBlocks)[old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks)].StartBlock
    headhint blk(currentBlock) && blk(old(len(locallyAvailableBlocks)) - len(locallyAvailableBlocks)) && blk(old(len(requiredRemoteBlocks)) - len(requiredRemoteBlocks))
    hint at_head(currentBlock) * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)) <= currentBlock * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)) && (currentBlock - at_head(currentBlock)) * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)) == currentBlock * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)) - at_head(currentBlock) * old(bsof(locallyAvailableBlocks, requiredRemoteBlocks))
    hint at_head(len(requiredRemoteBlocks)) != len(requiredRemoteBlocks) ==> old(requiredRemoteBlocks)[old(len(requiredRemoteBlocks)) - at_head(len(requiredRemoteBlocks))].EndBlock + 1 == currentBlock && at_head(len(locallyAvailableBlocks)) == len(locallyAvailableBlocks)
    hint at_head(len(locallyAvailableBlocks)) != len(locallyAvailableBlocks) ==> old(locallyAvailableBlocks)[old(len(locallyAvailableBlocks)) - at_head(len(locallyAvailableBlocks))].EndBlock + 1 == currentBlock && at_head(len(requiredRemoteBlocks)) == len(requiredRemoteBlocks)
    hint at_head(len(requiredRemoteBlocks)) != len(requiredRemoteBlocks) ==> missingin(output.wout, len(old(output.wout)), response(reference, old(rchan(reference).recvN) + old(len(requiredRemoteBlocks)) - at_head(len(requiredRemoteBlocks))), old(requiredRemoteBlocks)[old(len(requiredRemoteBlocks)) - at_head(len(requiredRemoteBlocks))], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
    hint at_head(len(locallyAvailableBlocks)) != len(locallyAvailableBlocks) ==> foundin(output.wout, len(old(output.wout)), localFile, old(locallyAvailableBlocks)[old(len(locallyAvailableBlocks)) - at_head(len(locallyAvailableBlocks))], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
    hint @found forall i int {old(locallyAvailableBlocks)[i].StartBlock} :: 0 <= i && i < old(len(locallyAvailableBlocks)) - at_head(len(locallyAvailableBlocks)) ==> foundin(output.wout, len(old(output.wout)), localFile, old(locallyAvailableBlocks)[i], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))
    hint @missing forall j int {old(requiredRemoteBlocks)[j].StartBlock} :: 0 <= j && j < old(len(requiredRemoteBlocks)) - at_head(len(requiredRemoteBlocks)) ==> missingin(output.wout, len(old(output.wout)), response(reference, old(rchan(reference).recvN) + j), old(requiredRemoteBlocks)[j], old(bsof(locallyAvailableBlocks, requiredRemoteBlocks)), old(maxof(locallyAvailableBlocks, requiredRemoteBlocks)))

prop C17 sequential.SequentialPatcher sequential.withinFirstBlockOfRemoteBlocks sequential.withinFirstBlockOfLocalBlocks sequential.calculateNumberOfCompletedBlocks
propinfo C17 explain On success the output is, at the place of every found span, the local bytes at its match offset (the last span may be short, as the local file is) and, at the place of every missing span, the bytes the source delivered for it; every missing span is requested exactly once and in order; an error is returned only if a part failed: seek, write, request, the source's error channel, a local file shorter than a found span, or a response that is not for the span or not of its length.
propinfo C17 assume found and missing spans arrive sorted, disjoint, and covering every block from zero to the last, as the documentation of the function asks for
propinfo C17 assume all spans carry one block size of at least 1 (except that a span of the last block alone may carry the smaller size of that block) and the whole file is at most 2^46 bytes
propinfo C17 assume a message delivered on the result channel is not changed afterwards by the sender; channels are modelled as logs of messages
propinfo C17 assume io.Copy from an io.LimitReader over a file positioned by Seek copies the bytes at that offset, up to the limit, all of them unless reading or writing fails; Write writes all bytes or reports an error
