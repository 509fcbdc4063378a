//go:build verif

// Contracts for accepting a configuration (C12), engine.go.
package contracts

//@ mode int
//@ mode wf
//@ mode ix
//@ smt (declare-fun sub (Str Str) Bool)
//@ smt (declare-fun modName (Str) Str)
//@ smt (declare-fun modVer (Str) Str)
//@ smt (declare-fun items (Str) Int)
//@ smt (declare-fun item (Str Int) Str)
//@ smt (declare-fun trim (Str) Str)
//@ smt (declare-fun absOf (Str) Str)
//@ smt (declare-fun absOk (Str) Bool)
//@ smt (declare-fun dirOf (Str) Str)
//@ smt (declare-fun readable (Str) Bool)
//@ smt (declare-fun writable (Str) Bool)
//@ sig sub(string; string) bool
//@ sig modName(string) string
//@ sig modVer(string) string
//@ sig items(string) int
//@ sig item(string; int) string
//@ sig trim(string) string
//@ sig absOf(string) string
//@ sig absOk(string) bool
//@ sig readable(string) bool
//@ sig writable(string) bool
//@ extern strings.SplitN(s, sep, n) (p)
//@ ensures fresh(p) && len(p) >= 1
//@ ensures sep == "@" && n == 2 ==> len(p) == ite(sub(s, "@"), 2, 1)
//@ ensures sep == "@" && n == 2 && sub(s, "@") ==> p[0] == modName(s) && p[1] == modVer(s)
//@ extern strings.Split(s, sep) (p)
//@ ensures fresh(p) && len(p) >= 1
//@ ensures sep == "," ==> len(p) == items(s) && (forall i int {p[i]} :: 0 <= i && i < len(p) ==> p[i] == item(s, i))
//@ extern strings.TrimSpace(s) (t)
//@ ensures t == trim(s)
//@ extern strings.Contains(s, t) (b)
//@ ensures b <==> sub(s, t)
//@ extern errors.New(m) (e)
//@ ensures e != nil
//@ extern fmt.Errorf(f, a) (err)
//@ ensures err != nil
//@ extern path/filepath.Abs(p) (a, err)
//@ ensures err == nil <==> absOk(p)
//@ ensures err == nil ==> a == absOf(p)
//@ extern slices.Clone(s) (c)
//@ ensures len(c) == len(s) && (forall i int {c[i]} :: 0 <= i && i < len(s) ==> c[i] == s[i])
//@ ensures ite(len(c) == 0, cap(c) == 0, fresh(c))

//@ macro goodMod(m) = sub(m, "@") && modName(m) != "" && modVer(m) != "" && (sub(modName(m), "/") || sub(modName(m), "."))
//@ func parseTargetModule(m) (t, err)
//@ nopanic
//@ ensures err == nil <==> goodMod(m)
//@ ensures err == nil ==> t.Name == modName(m) && t.Version == modVer(m)

//@ # readable and writable name the outcome of these two checks of the file system
//@ assume (*Config).validateFilePath(c, path, kind) (err)
//@ ensures err == nil <==> readable(path)
//@ assume (*Config).validateOutputPath(c, path) (err)
//@ ensures err == nil <==> writable(path)

//@ macro given(c) = c.ProjectDir != "" && (c.ModuleVersionFlag != "" || c.ModulesVersionFlag != "" || c.UpdatedGoModFile != "" || c.UpdatedGoWorkFile != "") && !(c.UpdatedGoModFile != "" && c.UpdatedGoWorkFile != "")
//@ macro mods(c) = (c.ModuleVersionFlag == "" || goodMod(c.ModuleVersionFlag)) && (c.ModulesVersionFlag == "" ||
//@     (forall i int {item(c.ModulesVersionFlag, i)} :: 0 <= i && i < items(c.ModulesVersionFlag) ==> trim(item(c.ModulesVersionFlag, i)) != "" && goodMod(trim(item(c.ModulesVersionFlag, i)))))
//@ macro files(c) = (c.UpdatedGoModFile == "" || readable(c.UpdatedGoModFile)) && (c.UpdatedGoWorkFile == "" || readable(c.UpdatedGoWorkFile)) &&
//@     (c.ReportJsonFile == "" || writable(c.ReportJsonFile)) && (c.ReportChartsFile == "" || writable(c.ReportChartsFile))
//@ macro nums(c) = 1024 <= c.AstMonitorPort && c.AstMonitorPort <= 65535 && 1 <= c.MaxFieldRecurse && c.MaxFieldRecurse <= 100 && 1 <= c.MaxFieldLen && c.MaxFieldLen <= 1048576 &&
//@     1 <= c.CacheMB && c.CacheMB <= 10240 && 1 <= c.TimeMultiplier && c.TimeMultiplier <= 100
//@ macro enums(c) = (c.MutationScope == "function" || c.MutationScope == "line" || c.MutationScope == "area" || c.MutationScope == "none") &&
//@     (c.MutationMode == "full" || c.MutationMode == "fast") && (c.MutationTests == "full" || c.MutationTests == "targeted")
//@ macro one(c) = ite(c.ModuleVersionFlag != "", 1, 0)
//@ func (*Config).Prepare(c) (err)
//@ requires c != nil
//@ modifies *c
//@ nopanic
//@ loopinv (s loop []TargetModule, i index) :: len(s) == len(old(c.TargetModules)) + one(c) + i
//@ loopinv (i index) :: forall j int {item(c.ModulesVersionFlag, j)} :: 0 <= j && j < i ==> trim(item(c.ModulesVersionFlag, j)) != "" && goodMod(trim(item(c.ModulesVersionFlag, j)))
//@ loopinv (s loop []TargetModule, i index) :: forall j int {s[j]} :: 0 <= j && j < len(old(c.TargetModules)) ==> s[j] == old(c.TargetModules[j])
//@ loopinv (s loop []TargetModule) :: c.ModuleVersionFlag != "" ==> s[len(old(c.TargetModules))].Name == modName(c.ModuleVersionFlag) && s[len(old(c.TargetModules))].Version == modVer(c.ModuleVersionFlag)
//@ loopinv (s loop []TargetModule) :: fresh(s) || cap(s) == 0
//@ loopinv (s loop []TargetModule, i index) :: forall j int {item(c.ModulesVersionFlag, j)} :: 0 <= j && j < i ==> s[len(old(c.TargetModules)) + one(c) + j].Name == modName(trim(item(c.ModulesVersionFlag, j))) && s[len(old(c.TargetModules)) + one(c) + j].Version == modVer(trim(item(c.ModulesVersionFlag, j)))
//@ # accepted exactly when every condition holds
//@ ensures err == nil ==> !old(c.prepared)
//@ ensures err == nil ==> old(given(c))
//@ ensures err == nil ==> absOk(old(c.ProjectDir))
//@ ensures err == nil ==> old(mods(c))
//@ ensures err == nil ==> old(files(c))
//@ ensures err == nil ==> old(nums(c))
//@ ensures err == nil ==> old(enums(c))
//@ ensures (!old(c.prepared) && old(given(c)) && absOk(old(c.ProjectDir)) && old(mods(c)) && old(files(c)) && old(nums(c)) && old(enums(c))) ==> err == nil
//@ ensures err == nil ==> c.prepared && c.AbsProjDir == absOf(c.ProjectDir)
//@ ensures err == nil ==> len(c.TargetModules) == len(old(c.TargetModules)) + one(c) + ite(c.ModulesVersionFlag != "", items(c.ModulesVersionFlag), 0)
//@ ensures err == nil ==> (forall j int {c.TargetModules[j]} :: 0 <= j && j < len(old(c.TargetModules)) ==> c.TargetModules[j] == old(c.TargetModules[j]))
//@ ensures err == nil && c.ModuleVersionFlag != "" ==> c.TargetModules[len(old(c.TargetModules))].Name == modName(c.ModuleVersionFlag) && c.TargetModules[len(old(c.TargetModules))].Version == modVer(c.ModuleVersionFlag)
//@ ensures err == nil && c.ModulesVersionFlag != "" ==> (forall j int {item(c.ModulesVersionFlag, j)} :: 0 <= j && j < items(c.ModulesVersionFlag) ==> c.TargetModules[len(old(c.TargetModules)) + one(c) + j].Name == modName(trim(item(c.ModulesVersionFlag, j))) && c.TargetModules[len(old(c.TargetModules)) + one(c) + j].Version == modVer(trim(item(c.ModulesVersionFlag, j))))
//@ # nothing the user set is changed
//@ ensures c.ProjectDir == old(c.ProjectDir) && c.ModuleVersionFlag == old(c.ModuleVersionFlag) && c.ModulesVersionFlag == old(c.ModulesVersionFlag) && c.UpdatedGoModFile == old(c.UpdatedGoModFile) && c.UpdatedGoWorkFile == old(c.UpdatedGoWorkFile)
//@ ensures c.AstMonitorPort == old(c.AstMonitorPort) && c.MaxFieldRecurse == old(c.MaxFieldRecurse) && c.MaxFieldLen == old(c.MaxFieldLen) && c.CacheMB == old(c.CacheMB) && c.TimeMultiplier == old(c.TimeMultiplier)
//@ ensures c.ReportJsonFile == old(c.ReportJsonFile) && c.ReportChartsFile == old(c.ReportChartsFile) && c.MutationScope == old(c.MutationScope) && c.MutationMode == old(c.MutationMode) && c.MutationTests == old(c.MutationTests) && c.TmpCopy == old(c.TmpCopy)
//@ # a rejected configuration is not half accepted
//@ ensures err != nil ==> c.prepared == old(c.prepared) && c.TargetModules == old(c.TargetModules)
