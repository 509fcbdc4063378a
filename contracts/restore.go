//go:build verif

// Contracts for the restoration of sources (C11), asttweak.go and file.go.
package contracts

//@ mode int
//@ mode ix
//@ mode wf

//@ # the file system by resolved name: existence, bytes, mode, being a link; HN names the file an open handle is for
//@ ghost FX (Array Str Bool)
//@ ghost FD (Array Str Int)
//@ ghost FM (Array Str Int)
//@ ghost FL (Array Str Bool)
//@ ghost HN (Array Int Str)
//@ smt (declare-fun real (Str) Str)
//@ smt (declare-fun unreach (Str) Bool)
//@ smt (declare-fun modeOf (Iface) Int)
//@ smt (declare-fun nodata () Int)
//@ sig real(string) string
//@ sig unreach(string) bool
//@ sig modeOf(io/fs.FileInfo) int
//@ sig nodata() int
//@ macro sameBut(x) = (forall q string {FX[q]} :: q != x ==> FX[q] == old(FX)[q]) && (forall q string {FD[q]} :: q != x ==> FD[q] == old(FD)[q]) && (forall q string {FM[q]} :: q != x ==> FM[q] == old(FM)[q]) && (forall q string {FL[q]} :: q != x ==> FL[q] == old(FL)[q])
//@ macro same() = FX == old(FX) && FD == old(FD) && FM == old(FM) && FL == old(FL)

//@ extern os.Stat(name) (info, err)
//@ ensures err == nil ==> info != nil && FX[name] && !unreach(name) && (!FL[name] ==> modeOf(info) == FM[name])
//@ extern os.Lstat(name) (info, err)
//@ ensures err == nil ==> info != nil && FX[name] && !unreach(name) && ((modeOf(info) / 134217728) % 2 == 1 <==> FL[name])
//@ ensures err != nil ==> !FX[name] || unreach(name)
//@ extern io/fs.FileInfo.Mode(i) (m)
//@ ensures m == modeOf(i)
//@ extern os.Readlink(name) (t, err)
//@ extern os.Symlink(target, name) (err)
//@ modifies FX, FD, FM, FL
//@ ensures sameBut(name) && (err != nil ==> same()) && (err == nil ==> FX[name]) && (old(FX)[name] || unreach(name) ==> err != nil)
//@ extern os.Open(name) (f, err)
//@ modifies HN
//@ ensures err == nil ==> f != nil && FX[name] && HN == store(old(HN), ref(f), name)
//@ extern os.Create(name) (f, err)
//@ modifies FX, FD, FM, HN
//@ ensures sameBut(name) && (err != nil ==> same())
//@ ensures unreach(name) ==> err != nil
//@ ensures err == nil ==> fresh(f) && FX[name] && FD[name] == nodata() && HN == store(old(HN), ref(f), name)
//@ extern io.Copy(dst, src) (n, err)
//@ requires typeis(dst, "*os.File") && typeis(src, "*os.File")
//@ modifies FD
//@ ensures forall q string {FD[q]} :: q != HN[ref(unbox(dst, "*os.File"))] ==> FD[q] == old(FD)[q]
//@ ensures err == nil && old(FD)[HN[ref(unbox(dst, "*os.File"))]] == nodata() ==> FD[HN[ref(unbox(dst, "*os.File"))]] == old(FD)[HN[ref(unbox(src, "*os.File"))]]
//@ extern (*os.File).Close(f) (err)
//@ extern (*os.File).Sync(f) (err)
//@ extern os.Chmod(name, mode) (err)
//@ modifies FM
//@ ensures forall q string {FM[q]} :: q != name ==> FM[q] == old(FM)[q]
//@ ensures err == nil ==> FM[name] == mode
//@ extern os.Remove(name) (err)
//@ modifies FX
//@ ensures err == nil ==> FX == store(old(FX), name, false)
//@ ensures err != nil ==> FX == old(FX)
//@ ensures notExist(err) ==> !FX[name]
//@ smt (declare-fun notExist (Iface) Bool)
//@ sig notExist(error) bool
//@ extern os.RemoveAll(name) (err)
//@ modifies FX
//@ ensures forall q string {FX[q]} :: q != name ==> FX[q] == old(FX)[q]
//@ ensures unreach(name) ==> FX == old(FX)
//@ extern os.Rename(a, b) (err)
//@ modifies FX, FD, FM, FL
//@ ensures err != nil ==> same()
//@ ensures err == nil ==> old(FX)[a] && moved(a, b)
//@ macro moved(a, b) = FX == store(store(old(FX), a, false), b, true) && FD == store(old(FD), b, old(FD)[a]) && FM == store(old(FM), b, old(FM)[a]) && FL == store(old(FL), b, old(FL)[a])
//@ extern path/filepath.EvalSymlinks(p) (r, err)
//@ ensures err == nil ==> r == real(p) && FX[r] && !FL[r]
//@ extern strconv.Itoa(i) (s)
//@ extern errors.Join(errs) (err)
//@ ensures forall i int {errs[i]} :: 0 <= i && i < len(errs) && errs[i] != nil ==> err != nil
//@ extern fmt.Errorf(f, a) (err)
//@ ensures err != nil

//@ func CopyFile(src, dst) (err)
//@ requires src != dst
//@ modifies FX, FD, FM, FL, HN
//@ nopanic
//@ ensures sameBut(dst)
//@ ensures err == nil && !old(FL)[src] ==> old(FX)[src] && FX[dst] && FD[dst] == old(FD)[src]
//@ ensures unreach(dst) ==> err != nil && same()

//@ func replaceFile(source, destination) (err)
//@ requires source != destination
//@ modifies FX, FD, FM, FL
//@ nopanic
//@ # the destination becomes the source, whole; nothing else changes, and the source is there until then
//@ ensures err == nil ==> old(FX)[source] && moved(source, destination)
//@ ensures err != nil ==> sameBut(destination)

//@ func backupFile(path) (r, err)
//@ requires !FL[path]
//@ modifies FX, FD, FM, FL, HN
//@ nopanic
//@ # the backup is a new file with the bytes and the mode of the original
//@ ensures err == nil ==> old(FX)[path] && !old(FX)[r] && FX[r] && r != path
//@ ensures err == nil ==> FD[r] == old(FD)[path] && FM[r] == old(FM)[path]
//@ ensures err == nil ==> sameBut(r)
//@ # no file that was there is touched, also on failure (an earlier backup least of all)
//@ ensures forall q string {FX[q]} :: old(FX)[q] ==> FX[q] && FD[q] == old(FD)[q] && FM[q] == old(FM)[q] && FL[q] == old(FL)[q]
//@ loopinv same()

//@ # what a cleanup action does when it is called: kind 1 puts the backup bk over org, kind 2 removes ra and rb
//@ smt (declare-fun kind (Int) Int)
//@ smt (declare-fun bk (Int) Str)
//@ smt (declare-fun org (Int) Str)
//@ smt (declare-fun ra (Int) Str)
//@ smt (declare-fun rb (Int) Str)
//@ sig kind(int) int
//@ sig bk(int) string
//@ sig org(int) string
//@ sig ra(int) string
//@ sig rb(int) string
//@ closure (*ASTModifier).backupOrigFile$1(bkpFile, origFile) (f)
//@ ensures kind(f) == 1 && bk(f) == bkpFile && org(f) == origFile
//@ macro act1(err, b, o) = (err == nil ==> moved(b, o)) && (err != nil ==> sameBut(o))
//@ func (*ASTModifier).backupOrigFile$1(bkpFile, origFile) (err)
//@ requires bkpFile != origFile
//@ modifies FX, FD, FM, FL
//@ nopanic
//@ ensures act1(err, bkpFile, origFile)
//@ macro act2(err, a, b) = FD == old(FD) && FM == old(FM) && FL == old(FL) && (forall q string {FX[q]} :: q != a && q != b ==> FX[q] == old(FX)[q]) && (err == nil ==> !FX[a] && !FX[b])
//@ callback "func() error"(f) (err)
//@ self
//@ requires kind(f) == 1 ==> bk(f) != org(f)
//@ modifies FX, FD, FM, FL
//@ ensures kind(f) == 1 ==> act1(err, bk(f), org(f))
//@ ensures kind(f) == 2 ==> act2(err, ra(f), rb(f))

//@ # OX, OD, OM: the files as they were before the modifier was used. inv: a file which was there is unchanged unless the
//@ # modifier has a backup of it; every backup is a file that was not there and holds the original
//@ smt (declare-fun OX (Str) Bool)
//@ smt (declare-fun OD (Str) Int)
//@ smt (declare-fun OM (Str) Int)
//@ sig OX(string) bool
//@ sig OD(string) int
//@ sig OM(string) int
//@ macro whole(o) = FX[o] && FD[o] == OD(o) && FM[o] == OM(o)
//@ macro action(m, f) = (kind(f) == 1 && has(m.backups, org(f)) && OX(org(f)) && !OX(bk(f)) && FD[bk(f)] == OD(org(f)) && FM[bk(f)] == OM(org(f))) || (kind(f) == 2 && !OX(ra(f)) && !OX(rb(f)))
//@ macro unsaved(m) = forall o string {OX(o)} :: OX(o) && !has(m.backups, o) ==> whole(o)
//@ macro saved(m) = forall o string {has(m.backups, o)} :: has(m.backups, o) ==> m.backups[o] && (exists i int {m.cleanupActions[i]} :: 0 <= i && i < len(m.cleanupActions) && kind(m.cleanupActions[i]) == 1 && org(m.cleanupActions[i]) == o)
//@ macro actions(m) = forall i int {m.cleanupActions[i]} :: 0 <= i && i < len(m.cleanupActions) ==> action(m, m.cleanupActions[i]) && (kind(m.cleanupActions[i]) == 1 ==> FX[bk(m.cleanupActions[i])])
//@ # every file that was not there is a backup or a client file, which an action accounts for
//@ macro takes(f, o) = (kind(f) == 1 && bk(f) == o) || (kind(f) == 2 && (ra(f) == o || rb(f) == o))
//@ macro added(m) = forall o string {FX[o]} :: FX[o] && !OX(o) ==> (exists i int {m.cleanupActions[i]} :: 0 <= i && i < len(m.cleanupActions) && takes(m.cleanupActions[i], o))

//@ func (*ASTModifier).backupOrigFile(m, path) (err)
//@ requires m != nil && unsaved(m) && saved(m) && actions(m)
//@ requires OX(real(path))
//@ requires forall o string {OX(o)} :: OX(o) ==> FX[o]
//@ modifies FX, FD, FM, FL, HN, *m, m.backups[*], m.cleanupActions[*]
//@ nopanic
//@ ensures err == nil ==> has(m.backups, real(path))
//@ ensures unsaved(m)
//@ ensures saved(m)
//@ ensures actions(m)
//@ ensures forall q string {FX[q]} :: old(FX)[q] ==> FX[q] && FD[q] == old(FD)[q] && FM[q] == old(FM)[q]
//@ ensures old(added(m)) && err == nil ==> added(m)

//@ extern (*sync.Mutex).Lock(m) ()
//@ extern (*sync.Mutex).Unlock(m) ()
//@ assume goCacheClean(env) (err)
//@ func (*ASTModifier).Restore(m, env) (result)
//@ requires m != nil && unsaved(m) && saved(m) && actions(m)
//@ modifies FX, FD, FM, FL, *m
//@ nopanic
//@ # when no failure is reported every file that was there is whole again
//@ ensures len(result) == 0 ==> (forall o string {OX(o)} :: OX(o) ==> whole(o))
//@ ensures len(m.cleanupActions) == 0
//@ # and every file that was added is gone
//@ ensures old(added(m)) && len(result) == 0 ==> (forall o string {FX[o]} :: FX[o] ==> OX(o))
//@ loopinv unsaved(m)
//@ loopinv (i index) :: forall j int {m.cleanupActions[j]} :: 0 <= j && j < len(m.cleanupActions) ==> action(m, m.cleanupActions[j])
//@ loopinv (i index, r loop []error) :: forall j int {m.cleanupActions[j]} :: 0 <= j && j < i && kind(m.cleanupActions[j]) == 1 && len(r) == 0 ==> whole(org(m.cleanupActions[j]))
//@ loopinv (i index, r loop []error) :: old(added(m)) && len(r) == 0 ==> (forall o string {FX[o]} :: FX[o] && !OX(o) ==> (exists j int {m.cleanupActions[j]} :: i <= j && j < len(m.cleanupActions) && takes(m.cleanupActions[j], o)))

//@ # writing through the modifier: the bytes of a file which was there change only once it is backed up
//@ macro inv(m) = unsaved(m) && saved(m) && actions(m) && (forall o string {OX(o)} :: OX(o) ==> FX[o])
//@ extern os.WriteFile(name, data, perm) (err)
//@ modifies FX, FD, FM, FL
//@ ensures sameBut(real(name)) && (old(FX)[real(name)] ==> FX[real(name)])
//@ extern go/format.Node(w, fset, n) (err)
//@ extern (*bytes.Buffer).Reset(b) ()
//@ extern (*bytes.Buffer).Bytes(b) (r)
//@ func (*ASTModifier).loadParsedFileNode$1(filepath, fset, fileNode, m, buf) (err)
//@ requires m != nil && buf != nil && inv(m) && OX(real(filepath))
//@ modifies FX, FD, FM, FL, HN, *m, m.backups[*], m.cleanupActions[*]
//@ nopanic
//@ ensures unsaved(m)
//@ ensures saved(m)
//@ ensures actions(m)
//@ ensures forall o string {OX(o)} :: OX(o) ==> FX[o]

//@ ensures old(added(m)) && err == nil ==> added(m)

//@ func (*ASTModifier).addCleanupAction(m, f) ()
//@ requires m != nil
//@ modifies *m, m.cleanupActions[*]
//@ nopanic
//@ ensures len(m.cleanupActions) == old(len(m.cleanupActions)) + 1 && m.cleanupActions[old(len(m.cleanupActions))] == f
//@ ensures forall i int {m.cleanupActions[i]} :: 0 <= i && i < old(len(m.cleanupActions)) ==> m.cleanupActions[i] == old(m.cleanupActions[i])
//@ ensures m.backups == old(m.backups)

//@ closure (*ASTModifier).InjectASTClient$1(clientFile, apiFile) (f)
//@ ensures kind(f) == 2 && ra(f) == clientFile && rb(f) == apiFile
//@ extern errors.Is(err, target) (b)
//@ ensures err == nil ==> !b
//@ ensures b ==> notExist(err)
//@ func (*ASTModifier).InjectASTClient$1(clientFile, apiFile) (err)
//@ modifies FX
//@ nopanic
//@ ensures act2(err, clientFile, apiFile)
//@ loopinv forall q string {FX[q]} :: q != clientFile && q != apiFile ==> FX[q] == old(FX)[q]
//@ loopinv (i index, r loop error) :: r == nil && i >= 1 ==> !FX[clientFile]
//@ loopinv (i index, r loop error) :: r == nil && i >= 2 ==> !FX[apiFile]

//@ smt (declare-fun join2 (Str Str) Str)
//@ sig join2(string; string) string
//@ extern path/filepath.Join(p) (r)
//@ ensures len(p) == 2 ==> r == join2(p[0], p[1])
//@ # no match: neither file is there (assumes a directory name without pattern characters)
//@ extern path/filepath.Glob(p) (r, err)
//@ ensures forall d string {join2(d, "xx_lens_client_gen.go")} :: p == join2(d, "xx_lens_*_gen.go") && len(r) == 0 ==> !FX[join2(d, "xx_lens_client_gen.go")] && !FX[join2(d, "xx_lens_api_gen.go")]
//@ extern (embed.FS).ReadFile(f, n) (r, err)
//@ extern strconv.Itoa(i) (r)
//@ assume detectPackageName(d) (n, err)
//@ assume rewriteAstClientTemplate(b, s, p, c) (r, err)
//@ macro clientOf(d) = join2(d, "xx_lens_client_gen.go")
//@ macro apiOf(d) = join2(d, "xx_lens_api_gen.go")
//@ func (*ASTModifier).InjectASTClient(m, pkgDir, srvPort, rec, length) (err)
//@ requires m != nil && inv(m) && added(m)
//@ requires real(clientOf(pkgDir)) == clientOf(pkgDir) && real(apiOf(pkgDir)) == apiOf(pkgDir)
//@ modifies FX, FD, FM, FL, *m, m.cleanupActions[*]
//@ nopanic
//@ ensures unsaved(m)
//@ ensures saved(m)
//@ ensures actions(m)
//@ ensures forall o string {OX(o)} :: OX(o) ==> FX[o]
//@ ensures added(m)
