import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Patch that succeeds reproduces the reference exactly',
 'Whenever patching returns without an error, the bytes written to the output are exactly the reference content described by the summary, whatever the local file contains, however similar or different it is, and whatever the block size, including a partial last block and an empty reference. This assumes only that the index describes the reference, the strong hash has no collisions and the block source returns the bytes it was asked for; if it cannot be done an error is returned.',
 ['inputs','configurations','schedules'],'every local content, reference content, block size and number of matching workers',
 'The tests patch one sentence with block size 4; they cannot range over local/reference pairs, alignments of duplicated or partial blocks, or worker counts.',
 ['rsync.go','patcher/sequential/sequential.go','comparer/comparer.go','comparer/merger.go','filechecksum/filechecksum.go','index/index.go'],
 [('section split, match, merge, complement, sequential assembly','rsync.go:RSync.Patch'),('span conversion','rsync.go:toPatcherFoundSpan/toPatcherMissingSpan'),('assembly in block order','patcher/sequential/sequential.go:SequentialPatcher')],
 observe=['bytes written to RSync.Output','error returned by Patch'])

p('C02','Rolling checksum equals the checksum of its current window',
 'After any sequence of adding bytes at the end, removing the oldest bytes (single, in bulk, or combined), setting a block and resetting, the weak checksum equals the one computed from scratch over the bytes currently in the window. Its 4 output bytes are, little-endian, the low 16 bits of the byte sum followed by the low 16 bits of the position-weighted byte sum, for every window length.',
 ['inputs','histories'],'all byte values, window lengths and operation sequences (32-bit wrap-around included)',
 'The tests roll over a few fixed short strings; overflow of the 32-bit accumulators and arbitrary add/remove interleavings are never reached.',
 ['rollsum/rollsum_32_base.go'],[('incremental update','Rollsum32Base.AddBytes/RemoveBytes/AddAndRemoveBytes/SetBlock/Reset'),('output','Rollsum32Base.GetSum')],
 [('a, b','byte sum and weighted byte sum modulo 2^32','rollsum/rollsum_32_base.go')])

p('C03','Rollsum32 as a hash: Sum is the weak checksum of the last block',
 'After any sequence of writes of any lengths and resets, Sum appends to its argument exactly the 4-byte weak checksum of the last min(total written, block size) bytes, leaving existing bytes and the hash state unchanged, and the last-block accessor returns exactly those bytes. Write always accepts all its bytes.',
 ['inputs','histories'],'all write-length sequences, block sizes >= 1 and destination slices',
 'Tests write a handful of fixed chunks whose lengths divide the block size; the wrap-around positions of the double buffer are hardly exercised.',
 ['rollsum/rollsum_32.go','circularbuffer/noalloc.go'],[('window bookkeeping','Rollsum32.Write'),('append semantics','Rollsum32.Sum')])

p('C04','Circular buffer always holds exactly the most recent bytes',
 'After any sequence of writes (each at most the block size), truncations and resets, the buffer reports and returns exactly the most recent bytes not truncated, at most block size of them, oldest first. After each write the evicted bytes are exactly those that the write pushed out, oldest first, and a truncation returns the oldest bytes it drops.',
 ['inputs','histories'],'all operation sequences, write lengths and block sizes >= 1',
 'A correct answer depends on the position of the two write heads modulo twice the block size; tests sample a few positions only.',
 ['circularbuffer/noalloc.go'],[('two offset double-size buffers','C2.Write/doubleSizeBuffer.Write'),('window extraction','C2.GetBlock/Evicted/Truncate')],
 [('head, totalWritten, lastWritten','write positions and logical fill','circularbuffer/noalloc.go')])

p('C05','Index lookup returns exactly the blocks with the given checksums',
 'For an index built from any list of block checksums, looking up a weak checksum and then a strong checksum returns exactly the entries of the list having both, each as many times as it occurs and with its own block offset; a weak or strong checksum that is absent yields nothing. The reported number of blocks is the number of entries.',
 ['inputs'],'all checksum lists, including weak collisions, duplicates and empty lists, and all queries',
 'Tests build indexes of up to four entries; search boundaries in longer collision lists are unexplored.',
 ['index/index.go','chunks/chunks.go'],[('bucketed map keyed by weak sum','index.MakeChecksumIndex/FindWeakChecksumInIndex'),('binary search over sorted strong sums','StrongChecksumList.FindStrongChecksum')])

p('C06','Checksum generation describes every block of the input in order',
 'Generating checksums for any readable input yields, in order and without gaps, one entry per block (the last one possibly partial) carrying the block number and the weak and strong checksums of exactly that block, followed by the checksum of the whole input; the serialised form is the concatenation of weak and strong checksums. If reading the input, compressing a block or writing the output fails, the failure is reported instead of a checksum.',
 ['inputs','fault_sequences','configurations'],'all inputs, block sizes, batch sizes, reader chunkings and failure points',
 'Tests use a few in-memory inputs that never fail and one batch size.',
 ['filechecksum/filechecksum.go'],[('block loop and batching','FileChecksumGenerator.generate'),('serialisation','FileChecksumGenerator.GenerateChecksums')])

p('C07','Loading stored checksums inverts writing them',
 'Loading a stream that is the concatenation of weak and strong checksums yields exactly those pairs in order, numbered from zero, for any (positive) checksum sizes and however the reader splits its data. A stream whose length is not a multiple of the pair size, or that fails part-way, is reported as an error rather than yielding a shortened list.',
 ['inputs','fault_sequences'],'all streams, checksum sizes, reader chunkings and failures',
 'Two truncated inputs are tested; no reader that delivers short reads or fails is.',
 ['chunks/chunks.go','indexbuilder/indexbuilder.go'],[('alternating full reads','chunks.LoadChecksumsFromReader'),('build then load','indexbuilder.BuildChecksumIndex')])

p('C08','Every reported match is a real match',
 'Every match the comparer reports names an index block whose weak and strong checksums are those of the local bytes at the reported offset (shifted by the base offset), over a full block or, only at the end of the data, the shorter remainder. This holds for any local data, any index and any way the reader splits its data.',
 ['inputs','configurations'],'all local data, base offsets, block sizes, indexes and reader chunkings',
 'A wrong offset or a stale window shows only for particular alignments of matches; tests compare a few short strings.',
 ['comparer/comparer.go','circularbuffer/noalloc.go'],[('rolling window loop','Comparer.startFindMatchingBlocks_int'),('window memory','circularbuffer.C2')])

p('C09','No match is missed and read failures are reported',
 'When the local data is read to its end, every full-block window whose checksums are in the index is reported with every matching index block, unless it starts inside an already reported match; the same holds for the shorter windows at the end of the data. Data shorter than one block, and a failing read, are reported: the comparer then reports an error and stops rather than spinning or ending silently.',
 ['inputs','configurations','fault_sequences'],'all local data, block sizes >= 1, indexes, reader chunkings and read failures',
 'Missed matches depend on buffer positions and on how data follows an unaligned match; tests sample a few layouts and no failing readers.',
 ['comparer/comparer.go'],[('advance by byte or by block','Comparer.startFindMatchingBlocks_int'),('end-of-data shrinking window','Comparer.startFindMatchingBlocks_int')])

p('C10','Merged spans are sorted, disjoint and faithful to the matches',
 'However match results from several streams interleave, the merged list is sorted by block, its spans do not overlap, and every block inside a span was reported by some stream at exactly the offset the span implies. Every block reported before a stream ended is inside some span.',
 ['schedules','inputs','histories'],'all sets of match results, stream counts and interleavings',
 'Tests feed up to a few results through one stream; orders in which neighbours and duplicates arrive are not enumerated.',
 ['comparer/merger.go'],[('tree of span starts and ends under a lock','MatchMerger.StartMergeResultStream/merge'),('extraction','MatchMerger.GetMergedBlocks')],
 [('startEndBlockMap','ordered map from block number to the span starting or ending there','comparer/merger.go')])

p('C11','Missing spans are exactly the complement of the found spans',
 'For any sorted, disjoint list of found spans inside the file, the missing spans are sorted, non-empty and disjoint, and every block from zero to the last block is in exactly one found or missing span. Nothing outside that range is ever listed.',
 ['inputs'],'all sorted disjoint span lists and last-block numbers',
 'Tests check a gap at the front, middle and end one at a time.',
 ['comparer/merger.go'],[('gap scan','BlockSpanList.GetMissingBlocks')])

p('C12','Block ranges map to exact byte ranges and split without loss',
 'A block starts at block number times block size and ends where the next one starts, both capped at the file size when it is known. Splitting a block range for requests yields consecutive ranges that cover it exactly, in order, each at most the desired request size (or one block), for every range and configuration.',
 ['inputs','configurations'],'all block ranges, block sizes, file sizes and desired request sizes',
 'Tests split ranges of two to four blocks.',
 ['blocksources/fixed_size_block_resolver.go','blocksources/helpers.go'],[('offset arithmetic','FixedSizeBlockResolver.GetBlockStartOffset/GetBlockEndOffset'),('split loop','FixedSizeBlockResolver.SplitBlockRangeToDesiredSize')])

p('C13','Verification accepts a block range iff every block hash matches',
 'Verifying downloaded data accepts it exactly when each of its blocks (the last possibly partial) has the strong checksum expected for its block number; a block for which no checksum is known is not checked. The answer depends only on this data, not on earlier verifications, successful or failed.',
 ['inputs','histories'],'all data, start blocks, block sizes, expected checksums and call histories',
 'Tests verify three tiny inputs once each and never verify bad data, let alone good data afterwards.',
 ['filechecksum/verifier.go'],[('per-block hash and compare','HashVerifier.VerifyBlockRange')])

p('C14','Block source delivers each requested range once, in order, verified',
 'Each requested block range, once split, is fetched exactly once with exactly its byte range, and is delivered at most once, with the bytes the fetch returned, never before a lower-numbered range whose fetch has started; of the ranges waiting to be fetched, a lowest-numbered one is fetched first; no range that fails verification is ever delivered. At most the configured number of fetches runs at once, and every fetched range is delivered as long as no error occurs and the consumer keeps receiving.',
 ['schedules','histories','configurations'],'all request sequences, completion orders, receive timings and concurrency limits',
 'Tests force one out-of-order completion with two requests; other interleavings of requests, completions and receives are left to chance.',
 ['blocksources/blocksourcebase.go','blocksources/helpers.go','blocksources/sortableBlockResponse.go'],[('event loop','BlockSourceBase.loop'),('ordering lists','PendingResponses, UintSlice, QueuedRequestList')],
 [('requestOrdering, responseOrdering, inflightRequests','outstanding requests, undelivered responses, running fetches','blocksources/blocksourcebase.go')])

p('C15','Block source failures surface as one error and never crash',
 'When fetches or verifications fail, singly or several at once, the block source hands an error to whoever watches its error channel and stops; no order of requests, completions, failures, receives and closing makes its event loop panic.',
 ['schedules','fault_sequences','histories'],'all interleavings of failures with requests, deliveries and closing',
 'The test makes a single request fail; two failures in flight are never produced.',
 ['blocksources/blocksourcebase.go','blocksources/helpers.go'],[('pending error and response slots','errorWatcher, pendingResponseHelper'),('event loop','BlockSourceBase.loop')])

p('C16','A fetch returns exactly the requested bytes or an error',
 'An HTTP fetch asks for exactly the half-open byte range it was given and succeeds only on a partial-content, unencoded response whose body has exactly that length, returning that body unchanged; anything else is an error. A fetch from a seekable reader returns the bytes at that range, shortened only where the data ends, or the error that occurred.',
 ['inputs','fault_sequences'],'all ranges, server responses, statuses, body lengths and read or seek failures',
 'Tests run against one cooperative local server and in-memory readers.',
 ['blocksources/httpblocksource.go','blocksources/readseeker_blocksource.go'],[('range request and response checks','HttpRequester.DoRequest'),('seek and full read','ReadSeekerRequester.DoRequest')])

p('C17','Sequential patching assembles blocks in order or fails',
 'Given found and missing spans that together cover blocks zero to the last exactly once, the sequential patcher writes, in block order, the local bytes of each found span and the delivered bytes of each missing span, requesting each missing span once, and nothing else. If a seek, local read, request, delivery or write fails, or a delivery is for the wrong block or the wrong number of blocks, it returns an error. Only the very last span may be cut short by the end of the data (a partial last block).',
 ['inputs','fault_sequences'],'all span lists, local contents, deliveries and failure points',
 'Three span layouts over one string are tested, without any failure.',
 ['patcher/sequential/sequential.go'],[('block cursor loop','SequentialPatcher'),('response length check','calculateNumberOfCompletedBlocks')])

p('C18','Patching files leaves exactly the result, or reports the failure',
 'After patching by file name succeeds and is closed, the output file contains exactly the patched bytes, nothing left over from previous content, even if it is the input file itself, which is not modified before closing. Any failure while opening, closing or copying files is returned to the caller.',
 ['inputs','fault_sequences','configurations'],'all combinations of input, output (same, existing, new) and failing file operations',
 'No test uses the file-name interface at all.',
 ['rsync.go'],[('output selection','MakeRSync, getOutFile, getTempFile, IsSameFile'),('finalisation','RSync.Close, fileCopyCloser.Close, fileCloser.Close')])

p('C19','Index files round-trip and invalid ones are rejected',
 'Reading back the header and index that the build command writes yields the same version, file size, block size and checksums, for every file and block size and however the reader splits its data. A file with the wrong magic string, another major version or a truncated header or index is rejected with an error, and the patch command stops on it without touching the output.',
 ['inputs','fault_sequences'],'all header values, streams, truncations and reader chunkings',
 'The command package has no tests.',
 ['cmd/gosync/common.go','cmd/gosync/build.go','cmd/gosync/patch.go'],[('header codec','writeHeaders, readHeadersAndCheck'),('index load','readIndex'),('error handling','Patch')])

p('C20','Parallel matching covers every window of the scanned data',
 'When the local file is divided among matching workers, every block-sized window of it that starts within the divided size (the reference size in the library, the local size in the command-line matcher) lies entirely inside some worker section, and each worker reports offsets relative to the whole file. This holds for every file size, block size and worker count.',
 ['inputs','configurations'],'all file sizes, block sizes and worker counts',
 'The only multi-worker test data is far smaller than a worker section.',
 ['rsync.go','cmd/gosync/common.go'],[('section arithmetic','RSync.Patch'),('section arithmetic','multithreadedMatching')])

p('C21','Test-data readers produce exactly the promised byte streams',
 'The uniform readers deliver exactly the requested number of equal bytes and then end-of-file; the sequence reader is deterministic and independent of how reads are split; limiting, injecting and concatenating readers deliver exactly the bytes of their parts in the stated order. No read reports more bytes than it stored.',
 ['inputs','histories'],'all lengths, seeds and read-size sequences',
 'Tests read fixed sizes in one or two calls.',
 ['util/readers/uniformreader.go','util/readers/nonrepeating.go','util/readers/injectedreader.go','util/readers/sequencelimit.go'],[('bounded fill','uniformReader.Read'),('state step','nonRepeatingSequenceReader.Read'),('composition','InjectedReader, SequenceLimit')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
