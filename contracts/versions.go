//go:build verif

// Contracts for Go version ordering and filtering (C14), module.go, asttweak.go, astexec.go.
package contracts

//@ mode int
//@ mode wf
//@ mode card
//@ # toSem(v): the semver form goVersionSemver gives a Go version; scmp: semver.Compare, a total preorder with results -1, 0, 1
//@ smt (declare-fun toSem (Str) Str)
//@ smt (declare-fun scmp (Str Str) Int)
//@ sig toSem(string) string
//@ sig scmp(string; string) int
//@ axiom forall a string, b string {scmp(a, b)} :: -1 <= scmp(a, b) && scmp(a, b) <= 1 && scmp(a, b) == -scmp(b, a)
//@ axiom forall a string {scmp(a, a)} :: scmp(a, a) == 0
//@ axiom forall a string, b string, c string {scmp(a, b), scmp(b, c)} :: scmp(a, b) <= 0 && scmp(b, c) <= 0 ==> scmp(a, c) <= 0
//@ axiom forall a string, b string, c string {scmp(a, b), scmp(b, c)} :: scmp(a, b) < 0 && scmp(b, c) <= 0 ==> scmp(a, c) < 0
//@ macro vcmp(a, b) = scmp(toSem(a), toSem(b))
//@ macro below(v) = v != "" && vcmp(v, "1.13") < 0

//@ extern golang.org/x/mod/semver.Compare(a, b) (r)
//@ ensures r == scmp(a, b)
//@ extern strings.IndexAny(s, chars) (i)
//@ ensures -1 <= i && i < len(s)
//@ extern strings.ContainsAny(s, chars) (b)
//@ extern strings.Count(s, sub) (n)
//@ ensures n >= 0
//@ extern strings.TrimRight(s, cut) (t)
//@ ensures len(t) <= len(s)
//@ extern log.Printf(f, a) ()

//@ func goVersionSemver(v) (s)
//@ nopanic
//@ assumes s == toSem(v)

//@ func compareGoVersions(a, b) (r)
//@ nopanic
//@ ensures r == vcmp(a, b)

//@ # comparing is a total preorder: reflexive, antisymmetric in sign, transitive
//@ theorem cmp_refl (a string) :: vcmp(a, a) == 0
//@ theorem cmp_sign (a string, b string) :: vcmp(a, b) == -vcmp(b, a)
//@ theorem cmp_trans (a string, b string, c string) :: vcmp(a, b) <= 0 && vcmp(b, c) <= 0 ==> vcmp(a, c) <= 0

//@ func olderGoVersion(a, b) (r)
//@ nopanic
//@ ensures r == a || r == b
//@ ensures a == "" ==> r == b
//@ ensures b == "" ==> r == a
//@ ensures a != "" && b != "" ==> vcmp(r, a) <= 0 && vcmp(r, b) <= 0

//@ func IsGoVersionBelowMinimum(v) (r)
//@ nopanic
//@ ensures r <==> below(v)

//@ macro drop(mf) = mf.Module != nil && below(mf.Module.GoVersion)
//@ func FilterModulesByGoVersion(m) (f, skipped)
//@ requires forall k string {m[k]} :: has(m, k) ==> m[k] != nil
//@ nopanic
//@ loopinv (s []*ModuleFunction, v visited) :: forall k string {v[k]} :: v[k] && !drop(m[k]) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == m[k])
//@ loopinv (s []*ModuleFunction) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil && !drop(s[i])
//@ loopinv (s []*ModuleFunction, v visited) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> (exists k string {v[k]} :: v[k] && m[k] == s[i])
//@ loopinv (s []*ModuleFunction, n loop int, v visited) :: len(s) + n == card(v) && n >= 0
//@ # every function of a module that is new enough is kept, no other is, and the rest are counted
//@ ensures forall k string {has(m, k)} :: has(m, k) && !drop(m[k]) ==> (exists i int {f[i]} :: 0 <= i && i < len(f) && f[i] == m[k])
//@ ensures forall i int {f[i]} :: 0 <= i && i < len(f) ==> !drop(f[i]) && (exists k string {has(m, k)} :: has(m, k) && m[k] == f[i])
//@ ensures len(f) + skipped == len(m)
