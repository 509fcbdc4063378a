//go:build verif

// Contracts for the report (C15), report.go.
package contracts

//@ mode int
//@ mode ix
//@ mode local
//@ mode wf

//@ macro direct(i) = !changedModules[i].Indirect
//@ func rootModule(changedModules) (r)
//@ requires forall i int {changedModules[i]} :: 0 <= i && i < len(changedModules) ==> changedModules[i] != nil && changedModules[i].Name != ""
//@ nopanic
//@ loopinv (d loop ModuleChange, n index) :: d.Name == "" ==> (forall i int {changedModules[i]} :: 0 <= i && i < n ==> !direct(i))
//@ loopinv (d loop ModuleChange, n index) :: d.Name != "" ==> (exists i int {changedModules[i]} :: 0 <= i && i < n && direct(i) && d == *changedModules[i] && (forall j int {changedModules[j]} :: 0 <= j && j < n && j != i ==> !direct(j)))
//@ ensures len(changedModules) == 1 ==> r == *changedModules[0]
//@ ensures len(changedModules) > 1 ==> (forall i int {changedModules[i]} :: 0 <= i && i < len(changedModules) && direct(i) && (forall j int {changedModules[j]} :: 0 <= j && j < len(changedModules) && j != i ==> !direct(j)) ==> r == *changedModules[i])
//@ ensures len(changedModules) > 1 ==> (forall i int, j int {changedModules[i], changedModules[j]} :: 0 <= i && i < j && j < len(changedModules) && direct(i) && direct(j) ==> r.Name == "")
//@ ensures len(changedModules) != 1 ==> (forall i int {changedModules[i]} :: 0 <= i && i < len(changedModules) ==> !direct(i)) ==> r.Name == ""

//@ ghost marshalled Iface
//@ extern encoding/json.Marshal(v) (b, err)
//@ modifies marshalled
//@ ensures marshalled == v
//@ extern encoding/json.Unmarshal(b, v) (err)
//@ modifies all
//@ ensures marshalled == old(marshalled)
//@ extern fmt.Errorf(f, v) (err)
//@ ensures err != nil
//@ extern time.Since(t) (d)
//@ macro rep() = unbox(marshalled, "ReportMetrics")

//@ func BuildReportMap(startTime, analysisDuration, testDiscoveryDuration, fieldCheckDuration, mutationDuration, moduleName, startVersion, changeVersion, checkedModules, moduleChangeFuncCount, moduleChangesReachedInTesting, untrackedModuleFuncs, reachable, relevant, projectFieldChecks, tests, same, diff, synthetic, globalMutations, performanceChanges, testDetails) (m, err)
//@ nopanic
//@ modifies all
//@ ensures err == nil ==> typeis(marshalled, "ReportMetrics")
//@ ensures err == nil ==> rep().Module.ChangedModules == checkedModules && rep().Module.ChangedModuleCount == len(checkedModules)
//@ ensures err == nil ==> rep().Module.ReachableChangedFunctions == reachable && rep().Module.ReachableChangedFuncCount == len(reachable)
//@ ensures err == nil ==> rep().Validation.RelevantProjectFunctions == relevant && rep().Validation.RelevantProjectFuncCount == len(relevant)
//@ ensures err == nil ==> rep().Validation.RelevantTestFunctions == tests && rep().Validation.RelevantTestFuncCount == len(tests)
//@ ensures err == nil ==> rep().Module.RootModuleName == moduleName && rep().Module.RootModuleStartVersion == startVersion && rep().Module.RootModuleUpdateVersion == changeVersion
//@ ensures err == nil ==> rep().Module.ChangeFuncCount == moduleChangeFuncCount && rep().Module.UntrackedModuleFuncCount == untrackedModuleFuncs
//@ ensures err == nil ==> rep().Validation.ModuleChangeHitInTestCount == moduleChangesReachedInTesting && rep().Validation.ProjectFieldCheckPoints == projectFieldChecks
//@ ensures err == nil ==> rep().Validation.TestFieldMatchCount == same && rep().Validation.TestFieldDiffCount == diff && rep().Validation.GeneratedTestFuncCount == synthetic
//@ ensures err == nil ==> rep().Validation.MutationCount == globalMutations.MutationCount && rep().Validation.MutationsSquashed == globalMutations.SquashedCount
//@ ensures err == nil ==> rep().Validation.PerformanceChanges == performanceChanges && rep().Validation.TestDetails == testDetails

//@ # the last sort: the element now at i was at PM[i], the one that was at j is now at QM[j]
//@ ghost PM (Array Int Int)
//@ ghost QM (Array Int Int)
//@ macro permuted(s) = (forall i int {s[i]} :: 0 <= i && i < len(s) ==> 0 <= PM[i] && PM[i] < len(s) && QM[PM[i]] == i) && (forall j int {old(s[j])} {QM[j]} :: 0 <= j && j < len(s) ==> 0 <= QM[j] && QM[j] < len(s) && PM[QM[j]] == j && s[QM[j]] == old(s[j]))
//@ extern slices.Sort(s) ()
//@ modifies s[*], PM, QM
//@ ensures permuted(s)
//@ extern slices.SortFunc(s, cmp) ()
//@ modifies s[*], PM, QM
//@ ensures permuted(s)
//@ extern github.com/go-analyze/bulk.MapKeysSlice(m) (s)
//@ ensures fresh(s) && off(s) == 0
//@ ensures forall i int {s[i]} :: 0 <= i && i < len(s) ==> has(m, s[i])
//@ ensures forall k string {has(m, k)} :: has(m, k) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == k)
//@ ensures forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j]
//@ smt (declare-fun trim (Str) Str)
//@ smt (declare-fun pref (Str Str) Bool)
//@ sig trim(string) string
//@ sig pref(string; string) Bool
//@ axiom forall s string {trim(trim(s))} :: trim(trim(s)) == trim(s)
//@ extern strings.TrimSpace(s) (r)
//@ ensures r == trim(s)
//@ extern strings.HasPrefix(s, p) (b)
//@ ensures b == pref(s, p)
//@ smt (declare-fun msOf (Int) Int)
//@ sig msOf(int) int
//@ extern (time.Duration).Milliseconds(d) (n)
//@ ensures n == msOf(d)
//@ ghost keys (Array Str Bool)
//@ extern maps.Keys(m) (it)
//@ modifies keys
//@ ensures forall k string {keys[k]} :: keys[k] <==> has(m, k)
//@ extern slices.Sorted(it) (s)
//@ ensures fresh(s) || cap(s) == 0
//@ ensures forall i int {s[i]} :: 0 <= i && i < len(s) ==> keys[s[i]]
//@ ensures forall k string {keys[k]} :: keys[k] ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == k)

//@ macro ident(a, b) = callers[a].ChangeFunctions[b].Function.FunctionIdent
//@ macro inside(a, b) = 0 <= b && b < len(callers[a].ChangeFunctions)
//@ # R1, R2: any predicates true of every identifier the sources name, so what is shown of them holds of the least ones
//@ smt (declare-fun R1 (Str) Bool)
//@ smt (declare-fun R2 (Str) Bool)
//@ sig R1(string) Bool
//@ sig R2(string) Bool
//@ # NG: how many of the first n relevant tests are generated ones
//@ smt (declare-fun NG (Int) Int)
//@ sig NG(int) int
//@ macro rid(i) = results[i].OriginalResult.TestFunction.FunctionIdent
//@ macro detailOf(d, i) = d.TestFunctionIdent == rid(i) && d.TestFunctionName == results[i].OriginalResult.TestFunction.FunctionName && d.BaselineFailure == results[i].OriginalResult.TestFailure && (d.PassRegression <==> !results[i].OriginalResult.TestFailure && results[i].PostUpdateResult.TestFailure) && d.DiffFieldCount == results[i].DiffFieldCount && d.ModuleChangeHitCount == results[i].OriginalResult.ModuleChangesHit && d.FieldChanges == results[i].CallerFieldChanges
//@ macro perfOf(p, i) = p.TestFunctionIdent == rid(i) && p.TestFunctionName == results[i].OriginalResult.TestFunction.FunctionName && has(results[i].CallerTimeChanges, p.CallerIdent) && p.PreTimeMs == results[i].CallerTimeChanges[p.CallerIdent].PreTimeMs && p.PostTimeMs == results[i].CallerTimeChanges[p.CallerIdent].PostTimeMs && p.TimeDiffMs == msOf(results[i].CallerTimeChanges[p.CallerIdent].TimeDiff)

//@ func PrepareReportData(changedModules, callers, tests, results, n) (reach, proj, testIdents, perf, details, root, synth)
//@ requires forall i int {changedModules[i]} :: 0 <= i && i < len(changedModules) ==> changedModules[i] != nil && changedModules[i].Name != ""
//@ requires forall a int {callers[a]} :: 0 <= a && a < len(callers) ==> callers[a] != nil
//@ requires forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < len(callers) && inside(a, b) ==> callers[a].ChangeFunctions[b] != nil
//@ requires forall a int {tests[a]} :: 0 <= a && a < len(tests) ==> tests[a] != nil
//@ requires forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < len(callers) && inside(a, b) ==> R1(ident(a, b))
//@ requires forall a int {callers[a]} :: 0 <= a && a < len(callers) ==> R2(callers[a].Function.FunctionIdent)
//@ requires NG(0) == 0 && (forall k int, m int {NG(m), tests[k]} :: 0 <= k && k < len(tests) && m == k + 1 ==> NG(m) == NG(k) + ite(pref(tests[k].Function.FunctionName, "TestGen_"), 1, 0))
//@ modifies results[*], heap(map[string]string), PM, QM, keys
//@ nopanic
//@ loopinv (m local map[string]bool) :: forall k string {has(m, k)} :: has(m, k) ==> R1(k)
//@ loopinv (m local map[string]bool, n index over []*CallerFunction) :: forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < n && inside(a, b) ==> has(m, ident(a, b))
//@ loopinv (m local map[string]bool, n outer index over []*CallerFunction, j index over []*ModuleFunction) :: forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && (a < n || a == n && b < j) && inside(a, b) ==> has(m, ident(a, b))
//@ loopinv (m local map[string]bool) :: forall k string {has(m, k)} :: has(m, k) ==> R2(k)
//@ loopinv (m local map[string]bool, n index over []*CallerFunction) :: forall a int {callers[a]} :: 0 <= a && a < n ==> has(m, callers[a].Function.FunctionIdent)
//@ loopinv (m local map[string]bool, n outer index over []*CallerFunction) :: forall a int {callers[a]} :: 0 <= a && a < n ==> has(m, callers[a].Function.FunctionIdent)
//@ # lists of identifiers: each one named by its source, each of them there, none twice
//@ ensures forall i int {reach[i]} :: 0 <= i && i < len(reach) ==> R1(reach[i])
//@ ensures forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < len(callers) && inside(a, b) ==> (exists i int {reach[i]} :: 0 <= i && i < len(reach) && ident(a, b) == reach[i])
//@ ensures forall i int, j int {reach[i], reach[j]} :: 0 <= i && i < j && j < len(reach) ==> reach[i] != reach[j]
//@ ensures forall i int {proj[i]} :: 0 <= i && i < len(proj) ==> R2(proj[i])
//@ ensures forall a int {callers[a]} :: 0 <= a && a < len(callers) ==> (exists i int {proj[i]} :: 0 <= i && i < len(proj) && callers[a].Function.FunctionIdent == proj[i])
//@ ensures forall i int, j int {proj[i], proj[j]} :: 0 <= i && i < j && j < len(proj) ==> proj[i] != proj[j]
//@ loopinv (s local []string, c loop int, n index over []*TestFunction) :: len(s) == len(tests) && c == NG(n) && (forall i int {s[i]} {tests[i]} :: 0 <= i && i < n ==> s[i] == tests[i].Function.FunctionIdent)
//@ ensures len(testIdents) == len(tests) && synth == NG(len(tests))
//@ ensures forall a int {tests[a]} :: 0 <= a && a < len(tests) ==> (exists i int {testIdents[i]} :: 0 <= i && i < len(tests) && tests[a].Function.FunctionIdent == testIdents[i])
//@ # one detail per result, with its figures; one performance change per recorded time change
//@ loopinv (d local []TestDetail, n index over []TestReport) :: forall i int {d[i]} :: 0 <= i && i < n ==> detailOf(d[i], i)
//@ loopinv (d local []TestDetail, n outer index over []TestReport) :: forall i int {d[i]} :: 0 <= i && i < n ==> detailOf(d[i], i)
//@ ensures len(details) == len(results)
//@ ensures forall i int {details[i]} :: 0 <= i && i < len(results) ==> detailOf(details[i], i)
//@ loopinv (p loop []PerformanceChange, n index over []TestReport) :: forall q int {p[q]} :: 0 <= q && q < len(p) ==> (exists i int {results[i]} :: 0 <= i && i < n && perfOf(p[q], i))
//@ loopinv (p loop []PerformanceChange, n outer index over []TestReport) :: forall q int {p[q]} :: 0 <= q && q < len(p) ==> (exists i int {results[i]} :: 0 <= i && i <= n && perfOf(p[q], i))
//@ ensures forall q int {perf[q]} :: 0 <= q && q < len(perf) ==> (exists i int {results[i]} :: 0 <= i && i < len(results) && perfOf(perf[q], i))
