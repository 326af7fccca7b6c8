claims['C02']=('proof','Every operation of Rollsum32Base verified against its contract for all inputs; assumes encoding/binary stores little endian, and govc/z3 are sound.')
claims['C03']=('proof','Rollsum32 (constructor, Write, Sum, Reset, GetLastBlock) verified for all inputs over the contracts of the base checksum and the circular buffer; assumes fewer than 2^63 bytes written, and that the argument slices are not the memory of the buffer.')
claims['C04']=('proof','Representation invariant and functional contracts of all circular buffer operations verified for all block sizes and histories; assumes fewer than 2^63 bytes written between resets.')
claims['C11']=('proof','FileSummary.GetMissingBlocks verified for every sorted disjoint list of spans and every last block; block numbers as uint values below 2^62.')
claims['C12']=('proof','The four resolver functions verified against the byte-range arithmetic for all inputs (machine arithmetic modelled with overflow checks).')
claims['C13']=('proof','HashVerifier.VerifyBlockRange verified over an abstract hash function (hash.Hash modelled as a function of the bytes written since Reset).')
claims['C21']=('proof','Test data readers verified: uniform, one-sequence and injection readers produce exactly the promised stream for any sequence of read sizes.')
claims['C07']=('proof','LoadChecksumsFromReader and the strong checksum lookup verified for every stream, split and pair size; the composition (BuildChecksumIndex, BuildIndexFromString) verified too. The content of a bytes.Buffer is an assumed contract.')
claims['C16']=('proof','Both DoRequest implementations verified over contracts of net/http, bytes.Buffer and io.ReadSeeker, which are assumed.')
claims['C17']=('proof','SequentialPatcher and its helpers verified for every list of spans, file, source and failure; io.Copy, Seek, Write and the source interface are assumed contracts.')
claims['C05']=('proof','Index construction (sound, complete, no duplicates, ordered) and all lookups verified for every list of checksums; sort.Sort and sort.Search are assumed.')
claims['C06']=('proof','generate, GenerateChecksums and the rolling hash refinement verified for every input, block size and failure; hash functions, readers and writers are assumed contracts; goroutine/channel interaction through a channel contract.')
claims['C08']=('proof','the comparer loop verified for every data, split, index and hash: each sent match is a match of the window at its offset; index, hashes and reader are assumed contracts.')
claims['C09']=('proof','the comparer loop verified: when the channel closes, an error was sent or every window was handled; termination is not proved.')
claims['C10']=('proof','the merging goroutine verified under a lock invariant with a rely condition for every interleaving, and the extraction for every map; the ordered map library is an assumed contract.')
notyet={}
claims['C20']=('proof','multithreadedMatching and RSync.Patch verified for every worker count, file and block size: the sections given to the workers cover every window; section and buffered readers, goroutines and channels are assumed contracts.')
claims['C01']=('proof','RSync.Patch verified end to end over the verified contracts of matching, merging, complement and assembly; the block source and the index/reference relation are assumed as in the statement.')

claims['C18']=('proof','MakeRSync, RSync.Close, all closers and the whole body of the patch command verified over a model of the file system (assumed contracts of os and io).')
claims['C19']=('proof','Build, the header and index readers and the whole body of the patch command verified, round trip by a lemma; assumes encoding/binary, os.File and cli contracts and a block size flag from 1 to 2^32-1.')
claims['C14']=('proof','The event loop of BlockSourceBase, its fetch goroutine and its sort orders verified for every interleaving of requests, completions, receives and closing under channel contracts; fairness of the scheduler and the requester, resolver and verifier interfaces are assumed.')
claims['C15']=('proof','The event loop of BlockSourceBase verified free of panics and to hand over exactly one error after any failures, for every interleaving; termination is not proved.')
