package gosync

# ---------------------------------------------------------------- C18: files
# nodeof(name): the file a name denotes; staterr(name): the error of looking it up (nil if it exists)
# fw: the handle through which the file was last created or truncated (nil: none), after which its content is what was written to it
fun nodeof(seq) ref
fun staterr(seq) any
fun notexist(any) bool
fun finode(any) ref
fun fname(any) seq
fun fbase(ref) seq
ghost fw any
ghost fnode ref
defaxiom notexist_nil: forall e any {notexist(e)} :: notexist(e) ==> e != nil
defaxiom newname: forall a seq, b seq {nodeof(a), nodeof(b)} :: staterr(a) == nil && notexist(staterr(b)) ==> nodeof(a) != nodeof(b)
def fdata(n ref) seq = if n.fw == nil then fbase(n) else n.fw.wout

extern os.Stat(name) returns fi, err
  ensures err == staterr(name) && (err == nil ==> fi != nil && finode(fi) == nodeof(name))
extern os.IsNotExist(err) returns b
  ensures b <==> notexist(err)
extern os.SameFile(a, b) returns same
  ensures same <==> finode(a) == finode(b)
extern os.Open(name) returns f, err
  ensures err == nil ==> f != nil && fresh(f) && f.fnode == nodeof(name) && staterr(name) == nil && content(f) == fdata(nodeof(name)) && f.rem == content(f)
extern os.Create(name) returns f, err
  modifies nodeof(name).fw
  ensures err == nil ==> f != nil && fresh(f) && f.fnode == nodeof(name) && f.wout == empty && nodeof(name).fw == f && !f.fclosed
  ensures err != nil ==> nodeof(name).fw == old(nodeof(name).fw)
extern os.OpenFile(name, flag, perm) returns f, err
  modifies (if flag == 0 then nothing else nodeof(name).fw)
  ensures err == nil ==> f != nil && fresh(f) && f.fnode == nodeof(name) && f.wout == empty && !f.fclosed
  # reading only
  ensures flag == 0 ==> nodeof(name).fw == old(nodeof(name).fw)
  ensures flag == 0 && err == nil ==> content(f) == old(fdata(nodeof(name))) && f.rem == content(f)
  # truncated, for writing: flags O_TRUNC|O_WRONLY or O_TRUNC|O_RDWR, with or without O_CREATE
  ensures err == nil && (flag == 513 || flag == 514 || flag == 577 || flag == 578) ==> nodeof(name).fw == f
  ensures err != nil ==> nodeof(name).fw == old(nodeof(name).fw)
extern ioutil.TempFile(dir, pattern) returns f, err
  ensures err == nil ==> f != nil && fresh(f) && f.wout == empty && !f.fclosed && fresh(nodeof(fname(f))) && f.fnode == nodeof(fname(f)) && nodeof(fname(f)).fw == f
extern os.File.Name(f) returns s
  ensures s == fname(f)
extern os.File.Close(f) returns err
  modifies f.fclosed
  ensures err == nil ==> f.fclosed
  ensures err != nil ==> f.fclosed == old(f.fclosed)
extern md5.New() returns h
  ensures h != nil && fresh(ref(h)) && h.hin == empty && hashalg(h) == stdalg()

func gosync.IsSameFile(path1, path2) returns same, err
  ensures err == nil ==> (same <==> staterr(path1) == nil && staterr(path2) == nil && nodeof(path1) == nodeof(path2))
  ensures err == nil ==> (staterr(path1) == nil || notexist(staterr(path1))) && (staterr(path1) == nil ==> staterr(path2) == nil || notexist(staterr(path2)))
  ensures err != nil ==> err == staterr(path1) || err == staterr(path2)

# the output file is emptied (or created), whatever it was before
func gosync.getOutFile(filename) returns f, err
  modifies nodeof(filename).fw
  ensures err == nil ==> f != nil && fresh(ref(f)) && f.fnode == nodeof(filename) && nodeof(filename).fw == f && f.wout == empty && !f.fclosed
  ensures err != nil ==> nodeof(filename).fw == old(nodeof(filename).fw)

func gosync.getTempFile() returns f, filename, err
  ensures err == nil ==> f != nil && fresh(ref(f)) && f.fnode == nodeof(filename) && nodeof(filename).fw == f && f.wout == empty && !f.fclosed && fresh(nodeof(filename))

func gosync.fileCloser.Close(f) returns err
  requires f != nil && f.f != nil
  modifies f.f.fclosed
  ensures err == nil ==> f.f.fclosed
  ensures err != nil ==> f.f.fclosed == old(f.f.fclosed)

func gosync.nullCloser.Close(n) returns err
  ensures err == nil

# copying back: the file gets exactly the content of the other one, and is closed
func gosync.fileCopyCloser.Close(f) returns err
  requires f != nil && nodeof(f.from) != nodeof(f.to) && allocated(nodeof(f.from)) && allocated(nodeof(f.to))
  modifies nodeof(f.to).fw
  ensures err == nil ==> fdata(nodeof(f.to)) == old(fdata(nodeof(f.from))) && nodeof(f.to).fw != nil && nodeof(f.to).fw.fclosed

def fcl(c any) *gosync.fileCloser = as(c, "*gosync.fileCloser")
def fcp(c any) *gosync.fileCopyCloser = as(c, "*gosync.fileCopyCloser")
iface gosync.closer.Close(c) returns err
  requires is(c, "*gosync.fileCloser") ==> fcl(c) != nil && fcl(c).f != nil
  requires is(c, "*gosync.fileCopyCloser") ==> fcp(c) != nil && nodeof(fcp(c).from) != nodeof(fcp(c).to) && allocated(nodeof(fcp(c).from)) && allocated(nodeof(fcp(c).to))
  modifies (if is(c, "*gosync.fileCopyCloser") then nodeof(fcp(c).to).fw else nothing), (if is(c, "*gosync.fileCloser") then fcl(c).f.fclosed else nothing)
  ensures is(c, "*gosync.fileCloser") && err == nil ==> fcl(c).f.fclosed
  ensures is(c, "*gosync.fileCloser") && err != nil ==> fcl(c).f.fclosed == old(fcl(c).f.fclosed)
  ensures is(c, "*gosync.fileCopyCloser") && err == nil ==> fdata(nodeof(fcp(c).to)) == old(fdata(nodeof(fcp(c).from))) && nodeof(fcp(c).to).fw != nil && nodeof(fcp(c).to).fw.fclosed

# closing: each closer in turn; the file that a copier fills is complete when closing reports no error
func gosync.RSync.Close(rsync) returns err
  requires rsync != nil
  requires forall i int {rsync.OnClose[i]} :: 0 <= i && i < len(rsync.OnClose) ==> rsync.OnClose[i] != nil && (is(rsync.OnClose[i], "*gosync.fileCloser") ==> fcl(rsync.OnClose[i]) != nil && fcl(rsync.OnClose[i]).f != nil)
  requires forall i int {rsync.OnClose[i]} :: 0 <= i && i < len(rsync.OnClose) && is(rsync.OnClose[i], "*gosync.fileCopyCloser") ==> i == len(rsync.OnClose) - 1 && fcp(rsync.OnClose[i]) != nil && nodeof(fcp(rsync.OnClose[i]).from) != nodeof(fcp(rsync.OnClose[i]).to) && allocated(nodeof(fcp(rsync.OnClose[i]).from)) && allocated(nodeof(fcp(rsync.OnClose[i]).to))
  modifies anything
  ensures err == nil ==> (forall i int {rsync.OnClose[i]} :: 0 <= i && i < len(rsync.OnClose) && is(rsync.OnClose[i], "*gosync.fileCloser") ==> fcl(rsync.OnClose[i]).f.fclosed)
  ensures err == nil && len(rsync.OnClose) > 0 && is(rsync.OnClose[len(rsync.OnClose)-1], "*gosync.fileCopyCloser") ==> fdata(nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).to)) == old(fdata(nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).from))) && nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).to).fw.fclosed
  ensures !(len(rsync.OnClose) > 0 && is(rsync.OnClose[len(rsync.OnClose)-1], "*gosync.fileCopyCloser")) ==> (forall n ref {n.fw} :: n.fw == old(n.fw))
  ensures rsync.Output == old(rsync.Output) && rsync.OnClose == old(rsync.OnClose) && (forall i int {rsync.OnClose[i]} :: 0 <= i && i < len(rsync.OnClose) ==> rsync.OnClose[i] == old(rsync.OnClose[i]) && (is(rsync.OnClose[i], "*gosync.fileCloser") ==> fcl(rsync.OnClose[i]).f == old(fcl(rsync.OnClose[i]).f)) && (is(rsync.OnClose[i], "*gosync.fileCopyCloser") ==> fcp(rsync.OnClose[i]).from == old(fcp(rsync.OnClose[i]).from) && fcp(rsync.OnClose[i]).to == old(fcp(rsync.OnClose[i]).to)))
  ensures forall o ref {o.wout} :: old(allocated(o)) ==> o.wout == old(o.wout)
  loop 1
    modifies anything
    invariant rsync.Output == old(rsync.Output) && rsync.OnClose == old(rsync.OnClose) && (forall i int {rsync.OnClose[i]} :: 0 <= i && i < len(rsync.OnClose) ==> rsync.OnClose[i] == old(rsync.OnClose[i]) && (is(rsync.OnClose[i], "*gosync.fileCloser") ==> fcl(rsync.OnClose[i]).f == old(fcl(rsync.OnClose[i]).f)) && (is(rsync.OnClose[i], "*gosync.fileCopyCloser") ==> fcp(rsync.OnClose[i]).from == old(fcp(rsync.OnClose[i]).from) && fcp(rsync.OnClose[i]).to == old(fcp(rsync.OnClose[i]).to)))
    invariant forall o ref {o.wout} :: old(allocated(o)) ==> o.wout == old(o.wout)
    invariant forall i int {rsync.OnClose[i]} :: 0 <= i && i <= $rangeindex && is(rsync.OnClose[i], "*gosync.fileCloser") ==> fcl(rsync.OnClose[i]).f.fclosed
    invariant $rangeindex < len(rsync.OnClose) - 1 || !(len(rsync.OnClose) > 0 && is(rsync.OnClose[len(rsync.OnClose)-1], "*gosync.fileCopyCloser")) ==> (forall n ref {n.fw} :: n.fw == old(n.fw))
    invariant $rangeindex == len(rsync.OnClose) - 1 && len(rsync.OnClose) > 0 && is(rsync.OnClose[len(rsync.OnClose)-1], "*gosync.fileCopyCloser") ==> fdata(nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).to)) == old(fdata(nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).from))) && nodeof(fcp(rsync.OnClose[len(rsync.OnClose)-1]).to).fw.fclosed

func blocksources.NewHttpBlockSource(url, concurrentRequests, resolver, verifier) returns s
  requires resolver != nil && 1 <= concurrentRequests && concurrentRequests <= 1048576
  ensures s != nil && fresh(s)
  ensures is(s.Requester, "*blocksources.HttpRequester") && as(s.Requester, "*blocksources.HttpRequester").url == url && as(s.Requester, "*blocksources.HttpRequester").client == http.DefaultClient
  ensures s.BlockSourceResolver == resolver && s.Verifier == verifier && s.ConcurrentRequests == concurrentRequests

def bsb(x any) *blocksources.BlockSourceBase = as(x, "*blocksources.BlockSourceBase")
def hver(x any) *filechecksum.HashVerifier = as(x, "*filechecksum.HashVerifier")
def fres(x any) *blocksources.FixedSizeBlockResolver = as(x, "*blocksources.FixedSizeBlockResolver")
def samefile(a seq, b seq) bool = staterr(a) == nil && staterr(b) == nil && nodeof(a) == nodeof(b)
func gosync.MakeRSync(InputFile, Source, OutFile, Summary) returns r, err
  requires 1 <= gosync.DefaultConcurrency && gosync.DefaultConcurrency <= 1048576
  requires Summary != nil && allocated(nodeof(InputFile)) && allocated(nodeof(OutFile))
  modifies nodeof(OutFile).fw
  # the input is not touched, whatever happens
  ensures nodeof(InputFile).fw == old(nodeof(InputFile).fw)
  ensures err == nil ==> r != nil && fresh(r) && r.Summary == Summary && r.Source != nil && is(r.Input, "*os.File") && r.Input != nil && r.Input.fnode == nodeof(InputFile) && content(r.Input) == old(fdata(nodeof(InputFile)))
  # the source fetches from the given address, by the summary's block size and file size, and verifies against the summary
  ensures err == nil ==> is(r.Source, "*blocksources.BlockSourceBase") && is(bsb(r.Source).Requester, "*blocksources.HttpRequester") && as(bsb(r.Source).Requester, "*blocksources.HttpRequester").url == Source
  ensures err == nil ==> is(bsb(r.Source).BlockSourceResolver, "*blocksources.FixedSizeBlockResolver") && fres(bsb(r.Source).BlockSourceResolver).BlockSize == sumbs(Summary) && fres(bsb(r.Source).BlockSourceResolver).FileSize == sumsize(Summary)
  ensures err == nil ==> is(bsb(r.Source).Verifier, "*filechecksum.HashVerifier") && hver(bsb(r.Source).Verifier).Hash != nil && hver(bsb(r.Source).Verifier).BlockSize == sumbs(Summary) && hver(bsb(r.Source).Verifier).BlockChecksumGetter == Summary
  ensures err == nil ==> r.Output != nil && r.Output != r.Input && r.Source != r.Input && r.Source != r.Output && r.Output.wout == empty && !r.Output.fclosed
  ensures err == nil ==> len(r.OnClose) == 3 && is(r.OnClose[0], "*gosync.fileCloser") && fcl(r.OnClose[0]) != nil && ref(fcl(r.OnClose[0]).f) == ref(r.Input) && is(r.OnClose[1], "*gosync.fileCloser") && fcl(r.OnClose[1]) != nil && ref(fcl(r.OnClose[1]).f) == ref(r.Output)
  ensures err == nil ==> fcl(r.OnClose[0]).f != nil && fcl(r.OnClose[1]).f != nil && r.OnClose[0] != nil && r.OnClose[1] != nil && r.OnClose[2] != nil
  # the output is the input: a temporary file is written, and copied when closing
  ensures err == nil && samefile(InputFile, OutFile) ==> nodeof(OutFile).fw == old(nodeof(OutFile).fw) && is(r.OnClose[2], "*gosync.fileCopyCloser") && fcp(r.OnClose[2]) != nil && fcp(r.OnClose[2]).to == OutFile && nodeof(fcp(r.OnClose[2]).from) != nodeof(OutFile) && nodeof(fcp(r.OnClose[2]).from).fw == r.Output && allocated(nodeof(fcp(r.OnClose[2]).from))
  # otherwise the output file was emptied and is written
  ensures err == nil && !samefile(InputFile, OutFile) ==> nodeof(OutFile).fw == r.Output && is(r.OnClose[2], "gosync.nullCloser")
