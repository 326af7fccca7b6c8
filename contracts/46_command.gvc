package main

# ---------------------------------------------------------------- the commands: C19, C18, C01
fun cargs(any) any
fun carg(any, int) seq
fun cargn(any) int
fun cint(any, seq) int
extern cli.Context.Args(c) returns a
  ensures a != nil && a == cargs(c)
extern cli.Context.Int(c, name) returns n
  ensures n == cint(c, name)
iface cli.Args.Len(a) returns n
  ensures n == cargn(a) && n >= 0
iface cli.Args.Get(a, n) returns s
  ensures s == carg(a, n)
extern fmt.Fprintln(w, a) returns n, err
extern fmt.Fprintf(w, format, a) returns n, err
extern os.Exit(code)
  opt noreturn 1
extern os.IsExist(err) returns b
extern os.IsPermission(err) returns b
extern filepath.Abs(path) returns abs, err
fun fext(seq) seq
extern filepath.Ext(path) returns ext
  ensures ext == fext(path) && len(ext) <= len(path)
extern os.File.Stat(f) returns fi, err
  ensures fi != nil && fisize(fi) == len(content(f))
fun fisize(any) int
iface fs.FileInfo.Size(fi) returns n
  ensures n == fisize(fi)
extern time.Now() returns t
extern time.Time.Sub(t, u) returns d
extern time.Duration.Seconds(d) returns s

# what the header of an index file says, and the index after it
def headsize(s seq) int = lev(8, s[12:20])
def headblock(s seq) int = lev(4, s[20:24])
def vindex(s seq) bool = validhead(s, 0) && (exists m int {blk(m)} :: blk(m) && m * (4 + dsize(stdalg())) == len(s) - 24 && m * headblock(s) >= headsize(s) && (m - 1) * headblock(s) < headsize(s))
def bsum(s any) *gosync.BasicSummary = as(s, "*gosync.BasicSummary")
# the summary is what a valid index file says
def summarises(x any, s seq) bool = is(x, "*gosync.BasicSummary") && bsum(x) != nil && bsum(x).FileSize == headsize(s) && bsum(x).BlockSize == headblock(s)
  && is(bsum(x).ChecksumLookup, "chunks.StrongChecksumGetter") && pairs(lst(bsum(x).ChecksumLookup), s[24:], 4 + dsize(stdalg())) && bsum(x).BlockCount == len(lst(bsum(x).ChecksumLookup)) && indexed(bsum(x).ChecksumIndex, lst(bsum(x).ChecksumLookup))
# the content of the reference that an index file was built from
fun reffile(seq) seq
def outname(c *cli.Context) seq = if cargn(cargs(c)) == 4 then carg(cargs(c), 3) else carg(cargs(c), 0)

func main.Patch$1(c) returns err
  requires c != nil && filechecksum.DefaultStrongHashGenerator != nil && filechecksum.DefaultFileHashGenerator != nil && dsize(stdalg()) >= 1
  requires forall n int {carg(cargs(c), n)} :: allocated(nodeof(carg(cargs(c), n)))
  requires len(fdata(nodeof(carg(cargs(c), 1)))) <= 4611686018427387904
  modifies anything
  # a file that is not a valid index is rejected before the output is touched
  hint before gosync.MakeRSync: vindex(old(fdata(nodeof(carg(cargs(c), 1)))))
  hint before gosync.MakeRSync: summarises($Summary, old(fdata(nodeof(carg(cargs(c), 1)))))
  hint before gosync.MakeRSync: forall n ref {n.fw} :: n.fw == old(n.fw)
  trust before gosync.MakeRSync: 1 <= gosync.DefaultConcurrency && gosync.DefaultConcurrency <= 65536
  # the summary is its fields
  trust before gosync.RSync.Patch: sumbs($rsync.Summary) == bsum($rsync.Summary).BlockSize && sumcount($rsync.Summary) == bsum($rsync.Summary).BlockCount && sumsize($rsync.Summary) == bsum($rsync.Summary).FileSize
  trust before gosync.RSync.Patch: bsum($rsync.Summary).BlockSize <= 1073741824 && bsum($rsync.Summary).FileSize <= 35184372088832 && len(content($rsync.Input)) <= 70368744177664
  # the index file is the index of the reference, which the source serves
  trust before gosync.RSync.Patch: refcontent($rsync.Summary) == reffile(old(fdata(nodeof(carg(cargs(c), 1))))) && len(refcontent($rsync.Summary)) == sumsize($rsync.Summary)
  trust before gosync.RSync.Patch: describes($rsync.Summary, refcontent($rsync.Summary), sumbs($rsync.Summary), sumcount($rsync.Summary)) && sourced($rsync.Source, refcontent($rsync.Summary), sumbs($rsync.Summary))
  hint before gosync.RSync.Patch: (bsum($rsync.Summary).BlockCount - 1) * bsum($rsync.Summary).BlockSize < bsum($rsync.Summary).FileSize && bsum($rsync.Summary).FileSize <= bsum($rsync.Summary).BlockCount * bsum($rsync.Summary).BlockSize
  hint before gosync.RSync.Patch: bmul(sumcount($rsync.Summary) - 1, sumbs($rsync.Summary)) < sumsize($rsync.Summary) && sumsize($rsync.Summary) <= bmul(sumcount($rsync.Summary), sumbs($rsync.Summary))
  hint before gosync.RSync.Patch: sumcount($rsync.Summary) <= 1 + sumsize($rsync.Summary)
  hint before gosync.RSync.Close: len($rsync.OnClose) == 3 && is($rsync.OnClose[0], "*gosync.fileCloser") && is($rsync.OnClose[1], "*gosync.fileCloser") && $rsync.OnClose[0] != nil && $rsync.OnClose[1] != nil && $rsync.OnClose[2] != nil
  hint before gosync.RSync.Close: fcl($rsync.OnClose[0]) != nil && fcl($rsync.OnClose[1]) != nil && fcl($rsync.OnClose[0]).f != nil && fcl($rsync.OnClose[1]).f != nil
  hint before gosync.RSync.Close: samefile(carg(cargs(c), 0), outname(c)) ==> is($rsync.OnClose[2], "*gosync.fileCopyCloser") && fcp($rsync.OnClose[2]) != nil && fcp($rsync.OnClose[2]).to == outname(c) && nodeof(fcp($rsync.OnClose[2]).from) != nodeof(outname(c)) && nodeof(fcp($rsync.OnClose[2]).from).fw == $rsync.Output && allocated(nodeof(fcp($rsync.OnClose[2]).from))
  hint before gosync.RSync.Close: !samefile(carg(cargs(c), 0), outname(c)) ==> is($rsync.OnClose[2], "gosync.nullCloser") && nodeof(outname(c)).fw == $rsync.Output
  # the whole reference was written before anything is closed or copied; an output that is the input is untouched until then
  hint before gosync.RSync.Close: $rsync.Output.wout == reffile(old(fdata(nodeof(carg(cargs(c), 1)))))
  hint before gosync.RSync.Close: samefile(carg(cargs(c), 0), outname(c)) ==> nodeof(outname(c)).fw == old(nodeof(outname(c)).fw)
  hint after gosync.RSync.Close: $err == nil && samefile(carg(cargs(c), 0), outname(c)) ==> pre(fdata(nodeof(fcp($rsync.OnClose[2]).from))) == pre($rsync.Output.wout)
  hint after gosync.RSync.Close: $err == nil && samefile(carg(cargs(c), 0), outname(c)) ==> fdata(nodeof(outname(c))) == pre(fdata(nodeof(fcp($rsync.OnClose[2]).from)))
  hint after gosync.RSync.Close: $err == nil && !samefile(carg(cargs(c), 0), outname(c)) ==> nodeof(outname(c)).fw == $rsync.Output
  hint after gosync.RSync.Close: $err == nil && !samefile(carg(cargs(c), 0), outname(c)) ==> $rsync.Output.wout == pre($rsync.Output.wout)
  hint after gosync.RSync.Close: $err == nil ==> fdata(nodeof(outname(c))) == pre($rsync.Output.wout)
  ensures err == nil ==> vindex(old(fdata(nodeof(carg(cargs(c), 1)))))

  ensures err == nil ==> fdata(nodeof(outname(c))) == reffile(old(fdata(nodeof(carg(cargs(c), 1)))))

prop C18 main.Patch$1 gosync.MakeRSync gosync.RSync.Close gosync.IsSameFile gosync.getOutFile gosync.getTempFile gosync.fileCloser.Close gosync.fileCopyCloser.Close gosync.nullCloser.Close gosync.fileCloser.Close<:gosync.closer.Close gosync.fileCopyCloser.Close<:gosync.closer.Close gosync.nullCloser.Close<:gosync.closer.Close -gosync.RSync.Patch -main.readHeadersAndCheck -main.readIndex -main.checkBlockCount
propinfo C18 explain over a model of files (a name denotes a file; a file's content is what was written through the handle that last created or truncated it) MakeRSync is proved to open the input, to write either the emptied output file or, exactly when it is the input, a new temporary file, leaving the input alone; RSync.Close to close every file and, for a temporary, to replace the output by exactly its content, or to return an error; the command main.Patch to leave in the output file exactly the content of the reference whenever it returns no error, and an output that is the input untouched until closing
propinfo C18 assume os.Open/Create/OpenFile/Stat/SameFile/TempFile/Close and io.Copy as described in the model (truncating opens empty the file; a temporary is a new file; io.Copy copies everything or fails); a name that does not exist denotes none of the existing files; nobody else changes the files; NewHttpBlockSource touches no files
propinfo C18 assume the index describes the reference and the source serves it, as C01; sizes as C01
