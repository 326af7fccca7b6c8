package blocksources

# ---------------------------------------------------------------- C14, C15: the event loop of the block source
# how often v (or the pair (v, w)) occurs among n elements of a row (two rows) from o on
fun cnt(row, int, int, int) int
fun cnt2(row, row, int, int, int, int) int
defaxiom cnt_zero: forall r row, o int, v int {cnt(r, o, 0, v)} :: cnt(r, o, 0, v) == 0
defaxiom cnt_step: forall r row, o int, n int, m int, v int {cnt(r, o, n, v), cnt(r, o, m, v)} :: n >= 0 && m == n + 1 ==> cnt(r, o, m, v) == cnt(r, o, n, v) + (if r[o + n] == v then 1 else 0)
defaxiom cnt2_zero: forall r row, q row, o int, v int, w int {cnt2(r, q, o, 0, v, w)} :: cnt2(r, q, o, 0, v, w) == 0
defaxiom cnt2_step: forall r row, q row, o int, n int, m int, v int, w int {cnt2(r, q, o, n, v, w), cnt2(r, q, o, m, v, w)} :: n >= 0 && m == n + 1 ==> cnt2(r, q, o, m, v, w) == cnt2(r, q, o, n, v, w) + (if r[o + n] == v && q[o + n] == w then 1 else 0)
lemma cnt_pos: forall r row, o int, n int, v int {cnt(r, o, n, v)} :: n >= 0 ==> cnt(r, o, n, v) >= 0
  induction n
  use n > 0 ==> cnt(r, o, n, v) == cnt(r, o, n - 1, v) + (if r[o + (n - 1)] == v then 1 else 0)
lemma cnt_eq: forall r row, o int, q row, p int, n int, v int {cnt(r, o, n, v), cnt(q, p, n, v)} :: n >= 0 && (forall k int {r[o + k]} {q[p + k]} {blk(k)} :: 0 <= k && k < n ==> r[o + k] == q[p + k]) ==> cnt(r, o, n, v) == cnt(q, p, n, v)
  induction n
  use n > 0 ==> cnt(r, o, n, v) == cnt(r, o, n - 1, v) + (if r[o + (n - 1)] == v then 1 else 0)
  use n > 0 ==> cnt(q, p, n, v) == cnt(q, p, n - 1, v) + (if q[p + (n - 1)] == v then 1 else 0)
  use blk(n - 1)
  use n > 0 && (forall k int {r[o + k]} {q[p + k]} {blk(k)} :: 0 <= k && k < n ==> r[o + k] == q[p + k]) ==> r[o + (n - 1)] == q[p + (n - 1)]
lemma cnt_mem: forall r row, o int, n int, v int, j int {cnt(r, o, n, v), r[j]} :: o <= j && j < o + n && r[j] == v ==> cnt(r, o, n, v) >= 1
  induction n
  use n > 0 ==> cnt(r, o, n, v) == cnt(r, o, n - 1, v) + (if r[o + (n - 1)] == v then 1 else 0)
  use n > 0 ==> cnt(r, o, n - 1, v) >= 0
  use o <= j && j < o + n - 1 && r[j] == v ==> cnt(r, o, n - 1, v) >= 1
lemma cnt_has: forall r row, o int, n int, v int {cnt(r, o, n, v)} :: n >= 0 && cnt(r, o, n, v) >= 1 ==> (exists k int {blk(k)} :: blk(k) && 0 <= k && k < n && r[o + k] == v)
  induction n
  use n > 0 ==> cnt(r, o, n, v) == cnt(r, o, n - 1, v) + (if r[o + (n - 1)] == v then 1 else 0)
  use blk(n - 1)
lemma cnt2_pos: forall r row, q row, o int, n int, v int, w int {cnt2(r, q, o, n, v, w)} :: n >= 0 ==> cnt2(r, q, o, n, v, w) >= 0
  induction n
  use n > 0 ==> cnt2(r, q, o, n, v, w) == cnt2(r, q, o, n - 1, v, w) + (if r[o + (n - 1)] == v && q[o + (n - 1)] == w then 1 else 0)
lemma cnt2_has: forall r row, q row, o int, n int, v int, w int {cnt2(r, q, o, n, v, w)} :: n >= 0 && cnt2(r, q, o, n, v, w) >= 1 ==> (exists k int {blk(k)} :: blk(k) && 0 <= k && k < n && r[o + k] == v && q[o + k] == w)
  induction n
  use n > 0 ==> cnt2(r, q, o, n, v, w) == cnt2(r, q, o, n - 1, v, w) + (if r[o + (n - 1)] == v && q[o + (n - 1)] == w then 1 else 0)
  use blk(n - 1)

sort mset
fun mempty() mset
fun mc(mset, int, int) int
fun madd(mset, int, int) mset
fun mdel(mset, int, int) mset
defaxiom mc_empty: forall v int, w int {mc(mempty(), v, w)} :: mc(mempty(), v, w) == 0
defaxiom mc_pos: forall m mset, v int, w int {mc(m, v, w)} :: mc(m, v, w) >= 0
defaxiom mc_add: forall m mset, a int, b int, v int, w int {mc(madd(m, a, b), v, w)} :: mc(madd(m, a, b), v, w) == mc(m, v, w) + (if v == a && w == b then 1 else 0)
defaxiom mc_del: forall m mset, a int, b int, v int, w int {mc(mdel(m, a, b), v, w)} :: mc(m, a, b) >= 1 ==> mc(mdel(m, a, b), v, w) == mc(m, v, w) - (if v == a && w == b then 1 else 0)

# offsets of blocks, what a fetch returns, what a verifier accepts
fun roff(any, int) int
fun rend(any, int) int
fun fetched(any, int, int, seq) bool
fun verified(any, int, seq) bool
# byte ranges fetched, block ranges asked for, whether a verification failed
ghost fetches mset
ghost asked mset
ghost vfail bool
iface blocksources.BlockSourceRequester.DoRequest(q, startOffset, endOffset) returns data, err
  modifies q.fetches
  ensures q.fetches == madd(old(q.fetches), startOffset, endOffset)
  ensures err == nil ==> fetched(q, startOffset, endOffset, data[*])
iface blocksources.BlockSourceOffsetResolver.GetBlockStartOffset(r, b) returns o
  ensures o == roff(r, b)
iface blocksources.BlockSourceOffsetResolver.GetBlockEndOffset(r, b) returns o
  ensures o == rend(r, b)
iface blocksources.BlockSourceOffsetResolver.SplitBlockRangeToDesiredSize(r, a, b) returns out
  modifies r.asked
  ensures fresh(out)
  ensures forall v int, w int {mc(r.asked, v, w)} :: mc(r.asked, v, w) == mc(old(r.asked), v, w) + cnt2(row(out, "StartBlockID"), row(out, "EndBlockID"), off(out), len(out), v, w)
iface blocksources.BlockVerifier.VerifyBlockRange(v, start, data) returns ok
  modifies v.vfail
  ensures ok ==> verified(v, start, data[*])
  ensures v.vfail <==> old(v.vfail) || !ok

# channels.  cq, cres, cver, cerr: requester, resolver, verifier and error channel; infl: blocks whose fetch has started and whose result has
# not been received, infln how many; bfail: a failed fetch was received; und: blocks whose fetch has started and that were
# not delivered; errsent: an error was handed over
ghost cq any
ghost cres any
ghost cver any
ghost cerr ref
ghost infl mset
ghost infln int
ghost bfail bool
ghost und mset
ghost errsent bool
def isfetch(c ref, a int, b int, d seq) bool = fetched(c.cq, roff(c.cres, a), rend(c.cres, b), d)
chan blocksources.asyncResult(c, m)
  send m.err == nil ==> blk(m.endBlockID) && isfetch(ref(c), m.startBlockID, m.endBlockID, m.data[*])
  sendghost c.infl := madd(c.infl, m.startBlockID, 0)
  sendghost c.infln := c.infln + 1
  recv mc(c.infl, m.startBlockID, 0) >= 1 && c.infln >= 1
  recv m.err == nil ==> blk(m.endBlockID) && isfetch(ref(c), m.startBlockID, m.endBlockID, m.data[*])
  recvghost c.infl := mdel(c.infl, m.startBlockID, 0)
  recvghost c.infln := c.infln - 1
  recvghost c.bfail := c.bfail || m.err != nil
  closed c.chclosed
  # when the loop stops nothing is in flight, and a failed fetch was reported
  close c.infln == 0
  close c.bfail ==> c.cerr.errsent
# a range that was fetched and accepted
def good(c ref, a int, d seq) bool = (exists b int {blk(b)} :: blk(b) && isfetch(c, a, b, d)) && (c.cver != nil ==> verified(c.cver, a, d))
chan patcher.BlockReponse(c, m) returns logged
  send mc(c.und, m.StartBlock, 0) >= 1 && good(ref(c), m.StartBlock, m.Data[*])
  send forall v int {mc(c.und, v, 0)} :: mc(c.und, v, 0) >= 1 ==> v >= m.StartBlock
  sendghost c.und := mdel(c.und, m.StartBlock, 0)
chan error(c, m) returns logged
  send m != nil && !c.errsent
  sendghost c.errsent := true
chan patcher.MissingBlockSpan(c, m)
  closed c.chclosed
chan bool(c, m)
  closed c.chclosed

# the loop's lists are sorted in descending order
func blocksources.UintSlice.Len(r) returns n
  ensures n == len(r)
func blocksources.UintSlice.Less(r, i, j) returns b
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  ensures b <==> r[i] < r[j]
func blocksources.UintSlice.Swap(r, i, j)
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  modifies r[*]
  ensures r[i] == old(r[j]) && r[j] == old(r[i])
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) && k != i && k != j ==> r[k] == old(r[k])
func blocksources.QueuedRequestList.Len(r) returns n
  ensures n == len(r)
func blocksources.QueuedRequestList.Less(r, i, j) returns b
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  ensures b <==> r[i].StartBlockID < r[j].StartBlockID
func blocksources.QueuedRequestList.Swap(r, i, j)
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  modifies r[*]
  ensures r[i] == old(r[j]) && r[j] == old(r[i])
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) && k != i && k != j ==> r[k] == old(r[k])
func blocksources.PendingResponses.Len(r) returns n
  ensures n == len(r)
func blocksources.PendingResponses.Less(r, i, j) returns b
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  ensures b <==> r[i].StartBlock < r[j].StartBlock
func blocksources.PendingResponses.Swap(r, i, j)
  requires 0 <= i && i < len(r) && 0 <= j && j < len(r)
  modifies r[*]
  ensures r[i] == old(r[j]) && r[j] == old(r[i])
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) && k != i && k != j ==> r[k] == old(r[k])

# the byte ranges of a multiset of block ranges
ghost started mset
fun mimg(any, mset) mset
defaxiom mimg_empty: forall r any {mimg(r, mempty())} :: mimg(r, mempty()) == mempty()
defaxiom mimg_add: forall r any, m mset, a int, b int {mimg(r, madd(m, a, b))} :: mimg(r, madd(m, a, b)) == madd(mimg(r, m), roff(r, a), rend(r, b))

# a fetch: of exactly the byte range of the blocks, by one of at most the configured number of goroutines, while nothing failed
func blocksources.BlockSourceBase.loop$3()
  requires s != nil && s.Requester != nil && s.BlockSourceResolver != nil && resultChan != nil && s.responseChannel != nil
  requires resultChan.infln < s.ConcurrentRequests
  requires !resultChan.bfail && (s.Verifier != nil ==> !s.Verifier.vfail)
  requires !resultChan.chclosed && resultChan.cq == s.Requester && resultChan.cres == s.BlockSourceResolver
  # of the ranges waiting it is a lowest one
  requires forall v int, w int {mc(s.BlockSourceResolver.asked, v, w)} :: mc(s.BlockSourceResolver.asked, v, w) > mc(resultChan.started, v, w) ==> nextRequest.StartBlockID <= v
  modifies s.Requester.fetches, resultChan.infl, resultChan.infln, resultChan.sentN, s.responseChannel.und, resultChan.started
  ghostset @entry s.responseChannel.und := madd(s.responseChannel.und, nextRequest.StartBlockID, 0)
  ghostset @entry resultChan.started := madd(resultChan.started, nextRequest.StartBlockID, nextRequest.EndBlockID)
  ensures s.Requester.fetches == madd(old(s.Requester.fetches), roff(s.BlockSourceResolver, nextRequest.StartBlockID), rend(s.BlockSourceResolver, nextRequest.EndBlockID))
  ensures resultChan.infl == madd(old(resultChan.infl), nextRequest.StartBlockID, 0) && resultChan.infln == old(resultChan.infln) + 1
  ensures s.responseChannel.und == madd(old(s.responseChannel.und), nextRequest.StartBlockID, 0)
  ensures resultChan.started == madd(old(resultChan.started), nextRequest.StartBlockID, nextRequest.EndBlockID)

def distinct4(a ref, b ref, c ref, d ref) bool = a != nil && b != nil && c != nil && d != nil && a != b && a != c && a != d && b != c && b != d && c != d
def isopen(c ref) bool = !c.chclosed
func blocksources.BlockSourceBase.loop(s)
  opt thread 1
  requires s != nil && s.Requester != nil && s.BlockSourceResolver != nil && 1 <= s.ConcurrentRequests && s.ConcurrentRequests <= 1048576
  requires distinct4(ref(s.exitChannel), ref(s.errorChannel), ref(s.requestChannel), ref(s.responseChannel))
  requires isopen(ref(s.exitChannel)) && isopen(ref(s.errorChannel)) && isopen(ref(s.requestChannel)) && isopen(ref(s.responseChannel))
  modifies s.hasQuit, s.bytesRequested, s.exitChannel.chclosed, s.errorChannel.chclosed, s.requestChannel.chclosed, s.responseChannel.chclosed, s.errorChannel.errsent, s.errorChannel.sentN, s.responseChannel.sentN, msglog(s.errorChannel), msglog(s.responseChannel), s.responseChannel.und, s.Requester.fetches, s.BlockSourceResolver.asked, s.Verifier.vfail, s.responseChannel.cq, s.responseChannel.cres, s.responseChannel.cver
  ghostset @entry s.responseChannel.und := mempty()
  ghostset @entry s.responseChannel.cq := s.Requester
  ghostset @entry s.responseChannel.cres := s.BlockSourceResolver
  ghostset @entry s.responseChannel.cver := s.Verifier
  ghostset @entry s.Requester.fetches := mempty()
  ghostset @entry s.BlockSourceResolver.asked := mempty()
  ghostset @entry s.Verifier.vfail := false
  ghostset @entry s.errorChannel.errsent := false
  ghostset @loop1 resultChan.cq := s.Requester
  ghostset @loop1 resultChan.cres := s.BlockSourceResolver
  ghostset @loop1 resultChan.cerr := ref(s.errorChannel)
  ghostset @loop1 resultChan.infl := mempty()
  ghostset @loop1 resultChan.infln := 0
  ghostset @loop1 resultChan.bfail := false
  ghostset @loop1 resultChan.started := mempty()
  ensures s.exitChannel.chclosed && s.errorChannel.chclosed && s.requestChannel.chclosed && s.responseChannel.chclosed
  ensures s.Verifier != nil && s.Verifier.vfail ==> s.errorChannel.errsent
  # whenever the loop waits: it takes requests, results and the signal to stop; an unreported failure is offered; as many
  # fetches run as are allowed unless every range asked for was started; the lowest undelivered block is offered once it is there
  hint select: listens(resultChan) && listens(s.requestChannel) && listens(s.exitChannel)
  hint select: failed && !s.errorChannel.errsent ==> offered(s.errorChannel)
  hint select: !failed ==> resultChan.infln >= s.ConcurrentRequests || (forall v int, w int {mc(s.BlockSourceResolver.asked, v, w)} :: mc(s.BlockSourceResolver.asked, v, w) == mc(resultChan.started, v, w))
  hint select: forall v int {mc(s.responseChannel.und, v, 0)} :: !failed && mc(s.responseChannel.und, v, 0) > mc(resultChan.infl, v, 0) && (forall u int {mc(s.responseChannel.und, u, 0)} :: mc(s.responseChannel.und, u, 0) >= 1 ==> v <= u) ==> offered(s.responseChannel)
  loop 1
    modifies s.bytesRequested, s.errorChannel.errsent, s.errorChannel.sentN, s.responseChannel.sentN, msglog(s.errorChannel), msglog(s.responseChannel), s.responseChannel.und, s.Requester.fetches, s.BlockSourceResolver.asked, s.Verifier.vfail, resultChan.infl, resultChan.infln, resultChan.bfail, resultChan.started, resultChan.sentN, pendingErrors.lastError, pendingResponse.pendingResponse, requestQueue[*], requestOrdering[*], responseOrdering[*]
    invariant inflightRequests == resultChan.infln && 0 <= inflightRequests && inflightRequests <= s.ConcurrentRequests
    invariant isopen(ref(s.exitChannel)) && isopen(ref(s.errorChannel)) && isopen(ref(s.requestChannel)) && isopen(ref(s.responseChannel)) && isopen(ref(resultChan))
    invariant failed ==> state == 1 && len(requestQueue) == 0
    invariant resultChan.bfail || s.Verifier != nil && s.Verifier.vfail ==> failed
    invariant pendingErrors.errorChannel == s.errorChannel && pendingResponse.responseChannel == s.responseChannel
    invariant (pendingErrors.lastError != nil ==> failed) && (failed ==> (pendingErrors.lastError != nil <==> !s.errorChannel.errsent)) && (!failed ==> !s.errorChannel.errsent)
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: cnt(row(requestOrdering), off(requestOrdering), len(requestOrdering), v) == mc(s.responseChannel.und, v, 0)
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: mc(s.responseChannel.und, v, 0) >= mc(resultChan.infl, v, 0) + cnt(row(responseOrdering, "StartBlock"), off(responseOrdering), len(responseOrdering), v)
    invariant !failed ==> (forall v int {mc(s.responseChannel.und, v, 0)} :: mc(s.responseChannel.und, v, 0) == mc(resultChan.infl, v, 0) + cnt(row(responseOrdering, "StartBlock"), off(responseOrdering), len(responseOrdering), v))
    invariant forall i int, j int {requestQueue[i].StartBlockID, requestQueue[j].StartBlockID} :: 0 <= i && i < j && j < len(requestQueue) ==> requestQueue[i].StartBlockID >= requestQueue[j].StartBlockID
    invariant forall i int, j int {requestOrdering[i], requestOrdering[j]} :: 0 <= i && i < j && j < len(requestOrdering) ==> requestOrdering[i] >= requestOrdering[j]
    invariant forall i int, j int {responseOrdering[i].StartBlock, responseOrdering[j].StartBlock} :: 0 <= i && i < j && j < len(responseOrdering) ==> responseOrdering[i].StartBlock >= responseOrdering[j].StartBlock
    invariant forall i int {responseOrdering[i].StartBlock} :: 0 <= i && i < len(responseOrdering) ==> good(ref(s.responseChannel), responseOrdering[i].StartBlock, responseOrdering[i].Data[*])
    invariant !failed ==> (forall v int, w int {mc(s.BlockSourceResolver.asked, v, w)} :: mc(s.BlockSourceResolver.asked, v, w) == cnt2(row(requestQueue, "StartBlockID"), row(requestQueue, "EndBlockID"), off(requestQueue), len(requestQueue), v, w) + mc(resultChan.started, v, w))
    invariant s.Requester.fetches == mimg(s.BlockSourceResolver, resultChan.started)
  loop 2
    modifies s.responseChannel.und, s.Requester.fetches, resultChan.infl, resultChan.infln, resultChan.started, resultChan.sentN, requestQueue[*], requestOrdering[*]
    invariant inflightRequests == resultChan.infln && 0 <= inflightRequests && inflightRequests <= s.ConcurrentRequests
    invariant failed ==> len(requestQueue) == 0
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: cnt(row(requestOrdering), off(requestOrdering), len(requestOrdering), v) == mc(s.responseChannel.und, v, 0)
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: mc(s.responseChannel.und, v, 0) >= mc(resultChan.infl, v, 0) + cnt(row(responseOrdering, "StartBlock"), off(responseOrdering), len(responseOrdering), v)
    invariant !failed ==> (forall v int {mc(s.responseChannel.und, v, 0)} :: mc(s.responseChannel.und, v, 0) == mc(resultChan.infl, v, 0) + cnt(row(responseOrdering, "StartBlock"), off(responseOrdering), len(responseOrdering), v))
    invariant forall i int, j int {requestQueue[i].StartBlockID, requestQueue[j].StartBlockID} :: 0 <= i && i < j && j < len(requestQueue) ==> requestQueue[i].StartBlockID >= requestQueue[j].StartBlockID
    invariant forall i int, j int {requestOrdering[i], requestOrdering[j]} :: 0 <= i && i < j && j < len(requestOrdering) ==> requestOrdering[i] >= requestOrdering[j]
    invariant !failed ==> (forall v int, w int {mc(s.BlockSourceResolver.asked, v, w)} :: mc(s.BlockSourceResolver.asked, v, w) == cnt2(row(requestQueue, "StartBlockID"), row(requestQueue, "EndBlockID"), off(requestQueue), len(requestQueue), v, w) + mc(resultChan.started, v, w))
    invariant s.Requester.fetches == mimg(s.BlockSourceResolver, resultChan.started)
    invariant len(responseOrdering) > 0 ==> mc(s.responseChannel.und, responseOrdering[len(responseOrdering)-1].StartBlock, 0) >= 1
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: mc(s.responseChannel.und, v, 0) >= 1 ==> (exists k int {blk(k)} :: blk(k) && 0 <= k && k < len(requestOrdering) && requestOrdering[k] == v)
    invariant len(requestOrdering) > 0 ==> mc(s.responseChannel.und, requestOrdering[len(requestOrdering)-1], 0) >= 1
    invariant forall v int {mc(s.responseChannel.und, v, 0)} :: !failed && mc(s.responseChannel.und, v, 0) > mc(resultChan.infl, v, 0) ==> (exists k int {blk(k)} :: blk(k) && 0 <= k && k < len(responseOrdering) && responseOrdering[k].StartBlock == v)
    invariant forall v int, w int {mc(s.BlockSourceResolver.asked, v, w)} :: !failed && mc(s.BlockSourceResolver.asked, v, w) > mc(resultChan.started, v, w) ==> (exists k int {blk(k)} :: blk(k) && 0 <= k && k < len(requestQueue) && requestQueue[k].StartBlockID == v)
    decreases len(requestQueue)

# what a block source is made of
func blocksources.NewBlockSourceBase(requester, resolver, verifier, concurrentRequestCount, concurrentBytes) returns b
  requires requester != nil && resolver != nil && 1 <= concurrentRequestCount && concurrentRequestCount <= 1048576
  ensures fresh(b) && b.Requester == requester && b.BlockSourceResolver == resolver && b.Verifier == verifier && b.ConcurrentRequests == concurrentRequestCount
  ensures distinct4(ref(b.exitChannel), ref(b.errorChannel), ref(b.requestChannel), ref(b.responseChannel))
func blocksources.NewReadSeekerBlockSource(r, resolver) returns b
  requires r != nil && resolver != nil
  ensures fresh(b) && is(b.Requester, "*blocksources.ReadSeekerRequester") && as(b.Requester, "*blocksources.ReadSeekerRequester").rs == r && b.BlockSourceResolver == resolver
  # requests seek in the one reader: no two at once
  ensures b.ConcurrentRequests == 1
func blocksources.BlockSourceBase.GetResultChannel(s) returns c
  requires s != nil
  ensures c == s.responseChannel
func blocksources.BlockSourceBase.EncounteredError(s) returns c
  requires s != nil
  ensures c == s.errorChannel
func blocksources.BlockSourceBase.ReadBytes(s) returns n
  requires s != nil
  ensures n == s.bytesRequested

prop C14 blocksources.NewBlockSourceBase blocksources.NewReadSeekerBlockSource blocksources.NewHttpBlockSource blocksources.BlockSourceBase.GetResultChannel blocksources.BlockSourceBase.EncounteredError blocksources.BlockSourceBase.loop blocksources.BlockSourceBase.loop$3 blocksources.UintSlice.Len blocksources.UintSlice.Less blocksources.UintSlice.Swap blocksources.QueuedRequestList.Len blocksources.QueuedRequestList.Less blocksources.QueuedRequestList.Swap blocksources.PendingResponses.Len blocksources.PendingResponses.Less blocksources.PendingResponses.Swap
propinfo C14 explain the event loop is proved, for every sequence of requests, completions, receives and closing, to keep: of the ranges waiting a lowest one is started first, ranges asked for = queued + started while nothing failed, byte ranges fetched = those of the ranges started, blocks started and undelivered = in flight + waiting, at most the configured number in flight; each message on the response channel is an undelivered block with the bytes its fetch returned, accepted by the verifier, and no lower block is undelivered; whenever the loop waits it takes results, as many fetches run as allowed unless nothing is queued, and the lowest undelivered block is offered as soon as it is there
propinfo C14 assume a fetch goroutine is taken to perform its fetch when it is started; its result then arrives in any order relative to the others (a multiset in flight)
propinfo C14 assume only the loop closes its channels and sends responses and errors on them; what a resolver splits a range into is proved separately (C12) and here only named
propinfo C14 assume 1 to 2^20 concurrent requests; scheduling is fair: an offered message is taken when the consumer keeps receiving
prop C15 blocksources.NewBlockSourceBase blocksources.BlockSourceBase.GetResultChannel blocksources.BlockSourceBase.EncounteredError blocksources.BlockSourceBase.loop blocksources.BlockSourceBase.loop$3 blocksources.UintSlice.Len blocksources.UintSlice.Less blocksources.UintSlice.Swap blocksources.QueuedRequestList.Len blocksources.QueuedRequestList.Less blocksources.QueuedRequestList.Swap blocksources.PendingResponses.Len blocksources.PendingResponses.Less blocksources.PendingResponses.Swap
propinfo C15 explain every index, slice, send and explicit panic of the event loop is proved safe for every order of requests, completions, failures, receives and closing; when it stops nothing is in flight, its channels are closed and a failed fetch or verification was handed over as exactly one error; while one is pending it is offered whenever the loop waits, and no fetch is started after it
propinfo C15 assume a fetch goroutine is taken to perform its fetch when it is started; its result then arrives in any order relative to the others
propinfo C15 assume only the loop closes its channels and sends responses and errors on them; the watcher of the error channel receives; termination is not proved
