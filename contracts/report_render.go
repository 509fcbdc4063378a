//go:build verif

// Contracts for rendering a saved report (C15), report.go and engine.go.
package contracts

//@ import report.go
//@ transparent github.com/go-analyze/charts.PainterOptions

//@ # what the charts were last rendered from
//@ ghost rTotal Int
//@ ghost rReach Int
//@ ghost rHit Int
//@ ghost rUntracked Int
//@ ghost rSame Int
//@ ghost rDiff Int
//@ ghost rMut Int
//@ ghost rSquashed Int
//@ ghost rName Str
//@ ghost rFrom Str
//@ ghost rTo Str
//@ ghost tCount Int
//@ ghost tIdent (Array Int Str)
//@ ghost tName (Array Int Str)
//@ ghost tBase (Array Int Bool)
//@ ghost tRegr (Array Int Bool)
//@ ghost tDiff (Array Int Int)
//@ ghost tFields (Array Int Int)
//@ assume renderReportCharts(opt, name, from, to, total, reachable, hit, untracked, same, diff, results, mut) (b, err)
//@ modifies rTotal, rReach, rHit, rUntracked, rSame, rDiff, rMut, rSquashed, rName, rFrom, rTo, tCount, tIdent, tName, tBase, tRegr, tDiff, tFields
//@ ensures rTotal == total && rReach == reachable && rHit == hit && rUntracked == untracked
//@ ensures rSame == same && rDiff == diff && rMut == mut.MutationCount && rSquashed == mut.SquashedCount
//@ ensures rName == name && rFrom == from && rTo == to
//@ # a row of the table and its figures: the name, whether only the update made it fail, the changed fields
//@ ensures tCount == len(results)
//@ ensures forall i int {tName[i]} :: 0 <= i && i < len(results) ==> tIdent[i] == rid(i) && tName[i] == results[i].OriginalResult.TestFunction.FunctionName && (tBase[i] <==> results[i].OriginalResult.TestFailure) && (tRegr[i] <==> !results[i].OriginalResult.TestFailure && results[i].PostUpdateResult.TestFailure) && tDiff[i] == results[i].DiffFieldCount && tFields[i] == ref(results[i].CallerFieldChanges)
//@ extern os.WriteFile(p, b, m) (err)
//@ extern strings.HasSuffix(s, p) (b)
//@ assume (ReportMap).WriteToFile(m, path) (err)

//@ macro figures(name, from, to, total, reachable, hit, untracked, same, diff, mut, squashed) = rName == name && rFrom == from && rTo == to && rTotal == total && rReach == reachable && rHit == hit && rUntracked == untracked && rSame == same && rDiff == diff && rMut == mut && rSquashed == squashed

//@ macro shown(t, d) = t.OriginalResult.TestFunction.FunctionIdent == d.TestFunctionIdent && t.OriginalResult.TestFunction.FunctionName == d.TestFunctionName && (t.OriginalResult.TestFailure <==> d.BaselineFailure) && (t.PostUpdateResult.TestFailure <==> d.PassRegression) && t.DiffFieldCount == d.DiffFieldCount && t.CallerFieldChanges == d.FieldChanges
//@ macro row(i, d) = tIdent[i] == d.TestFunctionIdent && tName[i] == d.TestFunctionName && (tBase[i] <==> d.BaselineFailure) && (tRegr[i] <==> d.PassRegression) && tDiff[i] == d.DiffFieldCount && tFields[i] == ref(d.FieldChanges)
//@ func writeReportCharts(path, name, from, to, total, reachable, hit, untracked, same, diff, results, mut) (err)
//@ nopanic
//@ modifies rTotal, rReach, rHit, rUntracked, rSame, rDiff, rMut, rSquashed, rName, rFrom, rTo, tCount, tIdent, tName, tBase, tRegr, tDiff, tFields
//@ ensures err == nil ==> figures(name, from, to, total, reachable, hit, untracked, same, diff, mut.MutationCount, mut.SquashedCount)
//@ func RenderReportChartsFromJson(report) (b, err)
//@ nopanic
//@ modifies rTotal, rReach, rHit, rUntracked, rSame, rDiff, rMut, rSquashed, rName, rFrom, rTo, tCount, tIdent, tName, tBase, tRegr, tDiff, tFields, PM, QM
//@ ensures err == nil ==> figures(report.Module.RootModuleName, report.Module.RootModuleStartVersion, report.Module.RootModuleUpdateVersion, report.Module.ChangeFuncCount, report.Module.ReachableChangedFuncCount, report.Validation.ModuleChangeHitInTestCount, report.Module.UntrackedModuleFuncCount, report.Validation.TestFieldMatchCount, report.Validation.TestFieldDiffCount, report.Validation.MutationCount, report.Validation.MutationsSquashed)
//@ loopinv (s local []TestReport, n index over []TestDetail) :: forall i int {s[i]} :: 0 <= i && i < n ==> shown(s[i], report.Validation.TestDetails[i])
//@ loopinv (s local []TestReport, n outer index over []TestDetail) :: forall i int {s[i]} :: 0 <= i && i < n ==> shown(s[i], report.Validation.TestDetails[i])
//@ # every test detail is a row of the table, with its figures
//@ requires forall i int {report.Validation.TestDetails[i]} :: 0 <= i && i < len(report.Validation.TestDetails) ==> !(report.Validation.TestDetails[i].BaselineFailure && report.Validation.TestDetails[i].PassRegression)
//@ ensures err == nil ==> tCount == len(report.Validation.TestDetails)
//@ ensures err == nil ==> (forall i int {tName[i]} :: 0 <= i && i < tCount ==> 0 <= PM[i] && PM[i] < tCount && QM[PM[i]] == i)
//@ ensures err == nil ==> (forall i int {tName[i]} :: 0 <= i && i < tCount ==> row(i, report.Validation.TestDetails[PM[i]]))

//@ # the saved report and the charts written with it show the same figures
//@ func writeReportJSON(path, startTime, analysisDuration, testDiscoveryDuration, fieldCheckDuration, mutationDuration, moduleName, startVersion, changeVersion, checkedModules, moduleChangeFuncCount, moduleChangesReachedInTesting, untrackedModuleFuncs, reachable, relevant, projectFieldChecks, tests, same, diff, synthetic, globalMutations, performanceChanges, testDetails) (err)
//@ nopanic
//@ modifies all
//@ ensures err == nil ==> rep().Module.ReachableChangedFuncCount == len(reachable)
//@ ensures err == nil ==> rep().Module.RootModuleName == moduleName && rep().Module.RootModuleStartVersion == startVersion && rep().Module.RootModuleUpdateVersion == changeVersion
//@ ensures err == nil ==> rep().Module.ChangeFuncCount == moduleChangeFuncCount && rep().Module.UntrackedModuleFuncCount == untrackedModuleFuncs
//@ ensures err == nil ==> rep().Validation.ModuleChangeHitInTestCount == moduleChangesReachedInTesting
//@ ensures err == nil ==> rep().Validation.TestFieldMatchCount == same && rep().Validation.TestFieldDiffCount == diff
//@ ensures err == nil ==> rep().Validation.MutationCount == globalMutations.MutationCount && rep().Validation.MutationsSquashed == globalMutations.SquashedCount

//@ func (*DefaultReportWriter).WriteReportFiles(d, jsonPath, chartPath, startTime, a, b, c, e, changedModules, checkedModules, total, hit, untracked, points, callers, tests, same, diff, results, mut) (err)
//@ requires forall i int {changedModules[i]} :: 0 <= i && i < len(changedModules) ==> changedModules[i] != nil && changedModules[i].Name != ""
//@ requires forall a int {callers[a]} :: 0 <= a && a < len(callers) ==> callers[a] != nil
//@ requires forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < len(callers) && inside(a, b) ==> callers[a].ChangeFunctions[b] != nil
//@ requires forall a int {tests[a]} :: 0 <= a && a < len(tests) ==> tests[a] != nil
//@ requires forall a int, b int {callers[a].ChangeFunctions[b]} :: 0 <= a && a < len(callers) && inside(a, b) ==> R1(ident(a, b))
//@ requires forall a int {callers[a]} :: 0 <= a && a < len(callers) ==> R2(callers[a].Function.FunctionIdent)
//@ requires NG(0) == 0 && (forall k int, m int {NG(m), tests[k]} :: 0 <= k && k < len(tests) && m == k + 1 ==> NG(m) == NG(k) + ite(pref(tests[k].Function.FunctionName, "TestGen_"), 1, 0))
//@ nopanic
//@ modifies all
//@ ensures err == nil ==> figures(rep().Module.RootModuleName, rep().Module.RootModuleStartVersion, rep().Module.RootModuleUpdateVersion, rep().Module.ChangeFuncCount, rep().Module.ReachableChangedFuncCount, rep().Validation.ModuleChangeHitInTestCount, rep().Module.UntrackedModuleFuncCount, rep().Validation.TestFieldMatchCount, rep().Validation.TestFieldDiffCount, rep().Validation.MutationCount, rep().Validation.MutationsSquashed)
//@ ensures err == nil ==> rTotal == total && rHit == hit && rUntracked == untracked && rSame == same && rDiff == diff && rMut == mut.MutationCount && rSquashed == mut.SquashedCount
