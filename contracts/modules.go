//go:build verif

// Contracts for module file reading and comparison (C07), module.go.
package contracts

//@ mode int
//@ mode joins
//@ mode wf
//@ transparent golang.org/x/mod/modfile.File
//@ transparent golang.org/x/mod/modfile.Require
//@ transparent golang.org/x/mod/modfile.Go
//@ transparent golang.org/x/mod/module.Version
//@ # content of the module file at a path: its requirements in order, and its go directive
//@ smt (declare-fun src (Int) Str)
//@ smt (declare-fun reqN (Str) Int)
//@ smt (declare-fun reqPath (Str Int) Str)
//@ smt (declare-fun reqVer (Str Int) Str)
//@ smt (declare-fun reqInd (Str Int) Bool)
//@ smt (declare-fun goDir (Str) Str)
//@ sig src(int) string
//@ sig reqN(string) int
//@ sig reqPath(string; int) string
//@ sig reqVer(string; int) string
//@ sig reqInd(string; int) Bool
//@ sig goDir(string) string
//@ # HasR/VerR(f, n, p): module p is required among the first n requirements, and at which version (the last one counts)
//@ smt (declare-fun HasR (Str Int Str) Bool)
//@ smt (declare-fun VerR (Str Int Str) Str)
//@ sig HasR(string; int; string) Bool
//@ sig VerR(string; int; string) string
//@ axiom forall f string, p string {HasR(f, 0, p)} :: !HasR(f, 0, p)
//@ axiom forall f string, n int, m int, p string {HasR(f, m, p), reqPath(f, n)} :: 0 <= n && m == n+1 ==> (HasR(f, m, p) <==> HasR(f, n, p) || reqPath(f, n) == p)
//@ axiom forall f string, n int, m int, p string {VerR(f, m, p), reqPath(f, n)} :: 0 <= n && m == n+1 ==> VerR(f, m, p) == ite(reqPath(f, n) == p, reqVer(f, n), VerR(f, n, p))
//@ # Chg(o, n, i): requirement i of file n names a module that file o requires at another version. Cnt: how many of the first i do
//@ macro Chg(o, n, i) = HasR(o, reqN(o), reqPath(n, i)) && VerR(o, reqN(o), reqPath(n, i)) != reqVer(n, i)
//@ smt (declare-fun Cnt (Str Str Int) Int)
//@ sig Cnt(string; string; int) int
//@ axiom forall o string, n string {Cnt(o, n, 0)} :: Cnt(o, n, 0) == 0
//@ axiom forall o string, n string, i int, m int {Cnt(o, n, m), reqPath(n, i)} :: 0 <= i && m == i+1 ==> Cnt(o, n, m) == Cnt(o, n, i) + ite(Chg(o, n, i), 1, 0)

//@ extern os.ReadFile(name) (data, err)
//@ ensures err == nil ==> fresh(ref(data)) && src(ref(data)) == name
//@ extern golang.org/x/mod/modfile.Parse(file, data, fix) (f, err)
//@ allocs
//@ ensures err == nil ==> f != nil && len(f.Require) == reqN(src(ref(data))) && ref(f.Require) < alloc
//@ ensures err == nil ==> (forall i int {f.Require[i]} {reqPath(src(ref(data)), i)} :: 0 <= i && i < len(f.Require) ==> f.Require[i] != nil && ref(f.Require[i]) < alloc && f.Require[i].Mod.Path == reqPath(src(ref(data)), i) && f.Require[i].Mod.Version == reqVer(src(ref(data)), i) && f.Require[i].Indirect == reqInd(src(ref(data)), i))
//@ ensures err == nil ==> (f.Go != nil ==> ref(f.Go) < alloc && f.Go.Version == goDir(src(ref(data)))) && (f.Go == nil ==> goDir(src(ref(data))) == "")
//@ extern fmt.Errorf(f, a) (err)
//@ ensures err != nil

//@ func FindModuleVersionInGoMod(goModFile, modName) (ver, ind, err)
//@ nopanic
//@ loopinv (n index) :: 0 <= n && n <= reqN(goModFile) && len(reqPath(goModFile, n)) >= 0
//@ loopinv (n index) :: 0 <= n && (forall i int {reqPath(goModFile, i)} :: 0 <= i && i < n ==> reqPath(goModFile, i) != modName)
//@ # the first requirement naming the module, or nothing when none does
//@ ensures err == nil ==> (forall i int {reqPath(goModFile, i)} :: 0 <= i && i < reqN(goModFile) && reqPath(goModFile, i) == modName && (forall j int {reqPath(goModFile, j)} :: 0 <= j && j < i ==> reqPath(goModFile, j) != modName) ==> ver == reqVer(goModFile, i) && ind == reqInd(goModFile, i))
//@ ensures err == nil && (forall i int {reqPath(goModFile, i)} :: 0 <= i && i < reqN(goModFile) ==> reqPath(goModFile, i) != modName) ==> ver == "" && !ind

//@ func parseGoMod(gomodPath) (deps, goVersion, err)
//@ nopanic
//@ loopinv (d map[string]string, n index) :: fresh(d) && 0 <= n && n <= reqN(gomodPath) && (forall p string {has(d, p)} :: (has(d, p) <==> HasR(gomodPath, n, p)) && (has(d, p) ==> d[p] == VerR(gomodPath, n, p)))
//@ ensures err == nil ==> deps != nil && goVersion == goDir(gomodPath)
//@ ensures err == nil ==> (forall p string :: (has(deps, p) <==> HasR(gomodPath, reqN(gomodPath), p)) && (has(deps, p) ==> deps[p] == VerR(gomodPath, reqN(gomodPath), p)))

//@ func DiffModulesFromGoModFiles(o, n) (ch, err)
//@ nopanic
//@ loopinv (d map[string]string, i index) :: fresh(d) && 0 <= i && i <= reqN(o) && (forall p string {has(d, p)} :: (has(d, p) <==> HasR(o, i, p)) && (has(d, p) ==> d[p] == VerR(o, i, p)))
//@ loopinv (c []*ModuleChange, k index) :: 0 <= k && k <= reqN(n) && len(c) == Cnt(o, n, k)
//@ loopinv (c []*ModuleChange) :: forall j int {c[j]} :: 0 <= j && j < len(c) ==> c[j] != nil && fresh(c[j]) && ref(c[j]) < alloc
//@ loopinv (c []*ModuleChange, k index) :: forall i int {reqPath(n, i)} :: 0 <= i && i < k && Chg(o, n, i) ==> 0 <= Cnt(o, n, i) && Cnt(o, n, i) < len(c) && c[Cnt(o, n, i)].Name == reqPath(n, i) && c[Cnt(o, n, i)].NewVersion == reqVer(n, i) && c[Cnt(o, n, i)].PriorVersion == VerR(o, reqN(o), reqPath(n, i)) && c[Cnt(o, n, i)].Indirect == reqInd(n, i)
//@ # as many entries as changed requirements, and each changed requirement has its entry, in order
//@ ensures err == nil ==> len(ch) == Cnt(o, n, reqN(n))
//@ ensures err == nil ==> (forall i int {reqPath(n, i)} :: 0 <= i && i < reqN(n) && Chg(o, n, i) ==> 0 <= Cnt(o, n, i) && Cnt(o, n, i) < len(ch) && ch[Cnt(o, n, i)] != nil && ch[Cnt(o, n, i)].Name == reqPath(n, i) && ch[Cnt(o, n, i)].NewVersion == reqVer(n, i) && ch[Cnt(o, n, i)].PriorVersion == VerR(o, reqN(o), reqPath(n, i)) && ch[Cnt(o, n, i)].Indirect == reqInd(n, i))
