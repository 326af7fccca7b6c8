package main

# ---------------------------------------------------------------- C19: what the build command writes
lemma les3: forall r row, o int {les(r, o, 3)} :: les(r, o, 3) == le(2, r[o]) ++ le(2, r[o + 1]) ++ le(2, r[o + 2])
  use les(r, o, 0) == empty && les(r, o, 1) == les(r, o, 0) ++ le(2, r[o]) && les(r, o, 2) == les(r, o, 1) ++ le(2, r[o + 1]) && les(r, o, 3) == les(r, o, 2) ++ le(2, r[o + 2])
fun header(int, int) seq
defaxiom header_is: forall fs int, bs int {header(fs, bs)} :: header(fs, bs) == main.magicString ++ (le(2, main.majorVersion) ++ le(2, main.minorVersion) ++ le(2, main.patchVersion)) ++ le(8, fs) ++ le(4, bs)
lemma header_len: forall fs int, bs int {header(fs, bs)} :: len(header(fs, bs)) == 24
# reading back the header
lemma header_read: forall fs int, bs int, t seq {header(fs, bs) ++ t} :: 0 <= fs && fs < 9223372036854775808 && 1 <= bs && bs < 4294967296 ==> validhead(header(fs, bs) ++ t, main.majorVersion) && headsize(header(fs, bs) ++ t) == fs && headblock(header(fs, bs) ++ t) == bs && (header(fs, bs) ++ t)[24:] == t

def indexname(c *cli.Context) seq = carg(cargs(c), 0)[:len(carg(cargs(c), 0)) - len(fext(carg(cargs(c), 0)))] ++ ".gosync"
func main.Build(c) returns err
  requires c != nil && filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil && dsize(stdalg()) >= 1
  requires 1 <= cint(c, "blocksize") && cint(c, "blocksize") < 4294967296 && allocated(nodeof(carg(cargs(c), 0)))
  requires len(fdata(nodeof(carg(cargs(c), 0)))) <= 4611686018427387904
  modifies anything
  hint before filechecksum.FileChecksumGenerator.GenerateChecksums: $output.wout == header(len(content($inputFile)), cint(c, "blocksize"))
  hint after filechecksum.FileChecksumGenerator.GenerateChecksums: $err == nil ==> (exists n int {blk(n)} :: blk(n) && nblocks(n, len(content($inputFile)), cint(c, "blocksize")) && $output.wout == header(len(content($inputFile)), cint(c, "blocksize")) ++ serial($check.WeakRollingHash, stdalg(), content($inputFile), cint(c, "blocksize"), n))
  hint after filechecksum.FileChecksumGenerator.GenerateChecksums: $err == nil ==> vindex($output.wout) && headsize($output.wout) == len(content($inputFile)) && headblock($output.wout) == cint(c, "blocksize")
  ensures err == nil
  # the index file describes the input
  ensures exists wk any {wsize(wk)} :: is(wk, "*rollsum.Rollsum32Base") && (exists n int {blk(n)} :: blk(n) && nblocks(n, len(old(fdata(nodeof(carg(cargs(c), 0))))), cint(c, "blocksize")) && fdata(nodeof(indexname(c))) == header(len(old(fdata(nodeof(carg(cargs(c), 0))))), cint(c, "blocksize")) ++ serial(wk, stdalg(), old(fdata(nodeof(carg(cargs(c), 0)))), cint(c, "blocksize"), n))
  # and is what reading accepts
  ensures vindex(fdata(nodeof(indexname(c)))) && headsize(fdata(nodeof(indexname(c)))) == len(old(fdata(nodeof(carg(cargs(c), 0))))) && headblock(fdata(nodeof(indexname(c)))) == cint(c, "blocksize")

prop C19 main.Build main.Patch$1 main.writeHeaders main.readHeadersAndCheck main.checkBlockCount main.readIndex -filechecksum.FileChecksumGenerator.GenerateChecksums -filechecksum.NewFileChecksumGenerator -gosync.RSync.Patch -gosync.RSync.Close -gosync.MakeRSync -chunks.LoadChecksumsFromReader -index.MakeChecksumIndex
propinfo C19 explain main.Build is proved to leave, in the index file, the header (magic, version, length of the input, block size, little endian) followed by the serialised checksums of the input's blocks, whenever it returns; readHeadersAndCheck to accept exactly the inputs that start with a complete header with the magic and the major version and to return its fields and leave the rest; readIndex to accept exactly whole pairs of checksums, to return them in order, and, if they are what was written for some content, to return the checksums of its blocks; checkBlockCount to accept exactly the right number of blocks; lemma header_read closes the round trip. The command main.Patch (its whole body but the panic handler) is proved to reach MakeRSync, which is the first to touch any file, only with a valid index file and with the summary that it says
propinfo C19 assume binary.Read reads exactly the value's bytes or fails; binary.Write and WriteString write all or fail; a reader yields its bytes whatever its splits (io.ReadFull contract); files are shorter than 2^62 bytes; cli, fmt, time and os.Exit have no effect on files; os.File.Stat succeeds on an open file and gives its length; the input does not change while it is indexed; the recover wrapper errorWrapper (which only prints) is not under contract
propinfo C19 assume the block size flag is between 1 and 2^32-1 (smaller values make the generator fail)
