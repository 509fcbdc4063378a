//go:build verif

// Contracts for path containment and relocation (C13), file.go, astexec.go, engine.go.
package contracts

//@ mode int
//@ mode wf
//@ # absOf(p): p made absolute and clean; inside(f, d): the components of d are a prefix of those of f; relOf: filepath.Rel
//@ smt (declare-fun absOf (Str) Str)
//@ smt (declare-fun inside (Str Str) Bool)
//@ smt (declare-fun relOf (Str Str) Str)
//@ smt (declare-fun pfx (Str Str) Bool)
//@ sig absOf(string) string
//@ sig inside(string; string) bool
//@ sig relOf(string; string) string
//@ sig pfx(string; string) bool
//@ axiom forall s string, n string {pfx(s, n)} :: pfx(s, n) ==> len(s) >= len(n)
//@ axiom forall a string, b string {strcat(a, b)} :: pfx(strcat(a, b), a)
//@ axiom forall s string {pfx(s, "./")} :: pfx(s, "./") <==> len(s) >= 2 && s[0] == 46 && s[1] == 47
//@ axiom forall s string {absOf(absOf(s))} :: absOf(absOf(s)) == absOf(s)
//@ smt (declare-fun absOk (Str) Bool)
//@ smt (declare-fun relOk (Str Str) Bool)
//@ smt (declare-fun join2 (Str Str) Str)
//@ sig absOk(string) bool
//@ sig relOk(string; string) bool
//@ sig join2(string; string) string
//@ extern path/filepath.Abs(p) (a, err)
//@ ensures err == nil <==> absOk(p)
//@ ensures err == nil ==> a == absOf(p)
//@ extern path/filepath.Clean(p) (c)
//@ ensures forall q string {absOf(q)} :: p == absOf(q) ==> c == p
//@ extern path/filepath.ToSlash(p) (c)
//@ ensures c == p
//@ # filepath.Rel: relative to d, f is reached without a parent reference exactly when d contains it
//@ extern path/filepath.Rel(d, f) (r, err)
//@ ensures err == nil <==> relOk(d, f)
//@ ensures err == nil ==> r == relOf(d, f)
//@ ensures err == nil ==> (inside(absOf(f), absOf(d)) <==> !(r == ".." || pfx(r, "../")))
//@ extern path/filepath.Join(p) (r)
//@ ensures len(p) == 2 ==> r == join2(p[0], p[1])
//@ extern strings.HasPrefix(s, p) (b)
//@ ensures b <==> pfx(s, p)
//@ extern strings.HasSuffix(s, p) (b)
//@ extern strings.Index(s, sub) (i)
//@ ensures -1 <= i && (i >= 0 ==> i + len(sub) <= len(s))
//@ extern log.Printf(f, a) ()

//@ macro known(f, d) = absOk(f) && absOk(d) && relOk(absOf(d), absOf(f))
//@ func fileWithinDir(filePath, dirPath) (ok, err)
//@ nopanic
//@ ensures err == nil <==> known(filePath, dirPath)
//@ ensures err == nil ==> (ok <==> inside(absOf(filePath), absOf(dirPath)))
//@ ensures err != nil ==> !ok

//@ func trimStackFile(projectDir, goroot, file) (r)
//@ nopanic
//@ # a name starting with ./ is given only to files the project directory contains
//@ ensures pfx(r, "./") ==> projectDir != "" && inside(absOf(file), absOf(projectDir)) && r == strcat("./", relOf(projectDir, file))
//@ ensures projectDir != "" && known(file, projectDir) && inside(absOf(file), absOf(projectDir)) && relOk(projectDir, file) ==> r == strcat("./", relOf(projectDir, file))

//@ # copies: what each directory of the temporary environment was copied from; tmpRoot: that environment; removed: the last tree removed
//@ ghost copies (Array Str Str)
//@ ghost tmpRoot Str
//@ ghost removed Str
//@ ghost made Bool
//@ axiom forall t string {join2(t, "project"), join2(t, "gopath")} :: join2(t, "project") != join2(t, "gopath") && join2(t, "gopath") != join2(t, "gomodcache") && join2(t, "project") != join2(t, "gomodcache")
//@ extern os.MkdirTemp(dir, pattern) (d, err)
//@ modifies tmpRoot, made
//@ ensures (err == nil) == made
//@ ensures err == nil ==> d == tmpRoot && d != ""
//@ extern os.RemoveAll(p) (err)
//@ modifies removed
//@ ensures removed == p
//@ assume WriteChmod(ctx, root) (err)
//@ extern fmt.Printf(f, a) (n, err)
//@ extern fmt.Println(a) (n, err)
//@ extern fmt.Errorf(f, a) (err)
//@ ensures err != nil
//@ extern context.Background() (c)
//@ assume CopyDir(ctx, src, dst, notify) (err)
//@ modifies copies
//@ ensures err == nil ==> copies == store(old(copies), dst, src)

//@ func (*AnalysisEngine).setupTempEnvironment(e) (cleanup, err)
//@ requires e != nil && e.Config != nil
//@ modifies *e.Config, tmpRoot, made, removed, copies
//@ nopanic
//@ # on success each directory of the configuration is its copy inside the new temporary directory; the module cache keeps its place inside GOPATH
//@ ensures err == nil ==> e.Config.AbsProjDir == join2(tmpRoot, "project") && copies[e.Config.AbsProjDir] == old(e.Config.AbsProjDir)
//@ ensures err == nil ==> e.Config.Gopath == join2(tmpRoot, "gopath") && copies[e.Config.Gopath] == old(e.Config.Gopath)
//@ ensures err == nil ==> (copies[e.Config.Gomodcache] == old(e.Config.Gomodcache) && e.Config.Gomodcache == join2(tmpRoot, "gomodcache")) ||
//@     (inside(absOf(old(e.Config.Gomodcache)), absOf(old(e.Config.Gopath))) && e.Config.Gomodcache == join2(e.Config.Gopath, relOf(old(e.Config.Gopath), old(e.Config.Gomodcache))))
//@ # on failure nothing of the configuration changes and the temporary directory is removed
//@ ensures err != nil ==> e.Config.AbsProjDir == old(e.Config.AbsProjDir) && e.Config.Gopath == old(e.Config.Gopath) && e.Config.Gomodcache == old(e.Config.Gomodcache)
//@ ensures err != nil && made ==> removed == tmpRoot
