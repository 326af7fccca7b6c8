package blocksources

# ---------------------------------------------------------------- C12
def capped(r *blocksources.FixedSizeBlockResolver, o int) int = if r.FileSize != 0 && o > r.FileSize then r.FileSize else o

func blocksources.FixedSizeBlockResolver.GetBlockStartOffset(r, blockID) returns off
  requires r != nil && blockID * r.BlockSize <= 9223372036854775807
  ensures off == capped(r, blockID * r.BlockSize)

func blocksources.FixedSizeBlockResolver.GetBlockEndOffset(r, blockID) returns off
  requires r != nil && (blockID + 1) * r.BlockSize <= 9223372036854775807 && blockID < 18446744073709551615
  ensures off == capped(r, (blockID + 1) * r.BlockSize)

def chain(q "[]blocksources.QueuedRequest", s int) bool =
  (len(q) > 0 ==> q[0].StartBlockID == s)
  && (forall i int {q[i]} :: 0 <= i && i < len(q) ==> q[i].StartBlockID <= q[i].EndBlockID)
  && (forall i int {q[i]} :: 0 < i && i < len(q) ==> q[i].StartBlockID == q[i-1].EndBlockID + 1)

# Splitting: consecutive non-empty ranges from startBlockID to endBlockID, each no longer than the desired size (or one block)
func blocksources.FixedSizeBlockResolver.SplitBlockRangeToDesiredSize(r, startBlockID, endBlockID) returns q
  requires r != nil && r.BlockSize >= 1 && startBlockID <= endBlockID && endBlockID - startBlockID < 140737488355328
  ensures len(q) >= 1 && chain(q, startBlockID) && q[len(q)-1].EndBlockID == endBlockID
  ensures r.MaxDesiredRequestSize != 0 ==> forall i int {q[i]} :: 0 <= i && i < len(q) ==> (q[i].EndBlockID - q[i].StartBlockID + 1) * r.BlockSize <= max(r.MaxDesiredRequestSize, r.BlockSize)
  ensures r.MaxDesiredRequestSize == 0 ==> len(q) == 1
  loop 1
    invariant startBlockID <= currentBlockID && currentBlockID <= endBlockID
    decreases endBlockID - currentBlockID
    invariant chain(requests, startBlockID) && (len(requests) == 0 ==> currentBlockID == startBlockID)
    invariant len(requests) > 0 ==> requests[len(requests)-1].EndBlockID + 1 == currentBlockID
    invariant forall i int {requests[i]} :: 0 <= i && i < len(requests) ==> requests[i].EndBlockID - requests[i].StartBlockID + 1 <= blockCountPerRequest

func blocksources.MakeNullFixedSizeResolver(blockSize) returns r
  ensures is(r, "*blocksources.FixedSizeBlockResolver") && as(r, "*blocksources.FixedSizeBlockResolver").BlockSize == blockSize
  ensures as(r, "*blocksources.FixedSizeBlockResolver").FileSize == 0 && as(r, "*blocksources.FixedSizeBlockResolver").MaxDesiredRequestSize == 0

func blocksources.MakeFileSizedBlockResolver(blockSize, filesize) returns r
  ensures is(r, "*blocksources.FixedSizeBlockResolver") && as(r, "*blocksources.FixedSizeBlockResolver").BlockSize == blockSize
  ensures as(r, "*blocksources.FixedSizeBlockResolver").FileSize == filesize && as(r, "*blocksources.FixedSizeBlockResolver").MaxDesiredRequestSize == 0

prop C12 blocksources.FixedSizeBlockResolver.GetBlockStartOffset blocksources.FixedSizeBlockResolver.GetBlockEndOffset blocksources.FixedSizeBlockResolver.SplitBlockRangeToDesiredSize blocksources.MakeNullFixedSizeResolver blocksources.MakeFileSizedBlockResolver
propinfo C12 explain block start and end offsets are proved equal to the capped products; splitting is proved to return a chain of non-empty consecutive ranges from the first to the last block, each no longer than the desired size (or one block)
propinfo C12 assume block number times block size fits in an int64; a range to split has fewer than 2^47 blocks
