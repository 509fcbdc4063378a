//go:build verif

// Contracts for the environment of child processes (C17), exec.go.
package contracts

//@ mode int
//@ mode wf
//@ mode joins
//@ # envKey(e): the text of an entry before its first "="; osLen/osVar: the inherited environment
//@ smt (declare-fun envKey (Str) Str)
//@ smt (declare-fun pfx (Str Str) Bool)
//@ smt (declare-fun osLen () Int)
//@ smt (declare-fun osVar (Int) Str)
//@ sig envKey(string) string
//@ sig pfx(string; string) bool
//@ sig osLen() int
//@ sig osVar(int) string
//@ extern strings.SplitN(s, sep, n) (p)
//@ ensures len(p) >= 1 && fresh(p)
//@ ensures sep == "=" && n == 2 ==> p[0] == envKey(s)
//@ extern strings.HasPrefix(s, p) (b)
//@ ensures b <==> pfx(s, p)
//@ extern slices.Contains(s, v) (b)
//@ ensures b <==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == v)
//@ extern os.Environ() (s)
//@ ensures fresh(s) && len(s) == osLen() && len(s) >= 0
//@ ensures forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] == osVar(i)

//@ func GoEnv(gopath, gomodcache) (env)
//@ nopanic
//@ ensures len(env) == ite(gopath != "", 1, 0) + ite(gomodcache != "", 1, 0)
//@ ensures gopath != "" ==> env[0] == strcat("GOPATH=", gopath)
//@ ensures gomodcache != "" ==> env[len(env)-1] == strcat("GOMODCACHE=", gomodcache)

//@ # keepE(env, j): the j-th inherited entry is passed on; at(j): how many of the first j inherited entries are
//@ smt (declare-fun keepE (Int) Bool)
//@ smt (declare-fun at (Int) Int)
//@ sig keepE(int) bool
//@ sig at(int) int
//@ axiom at(0) == 0
//@ smt (declare-fun step (Int) Bool)
//@ sig step(int) bool
//@ axiom forall k int {step(k)} :: step(k)
//@ axiom forall j int, k int {at(j), step(k)} :: j == k + 1 && k >= 0 ==> at(j) == at(k) + ite(keepE(k), 1, 0)
//@ macro over(k) = (exists i int {env[i]} :: 0 <= i && i < len(env) && envKey(env[i]) == k)
//@ macro keep(e) = e != "" && e != "=" && !pfx(e, "LD_") && !over(envKey(e))
//@ func mergeSafeEnv(env) (r)
//@ # definition of keepE for this call: not empty, not a dynamic linker variable, not set by the caller
//@ requires forall j int {osVar(j)} :: keepE(j) <==> keep(osVar(j))
//@ nopanic
//@ loopinv (s local []string, i index) :: len(s) == len(env) && (forall j int {s[j]} :: 0 <= j && j < i ==> s[j] == envKey(old(env[j])))
//@ loopinv (s local []string, i index) :: len(s) == len(env) && (forall j int {old(env[j])} :: 0 <= j && j < i ==> s[j] == envKey(old(env[j])))
//@ loopinv (i index, n loop int) :: 0 <= n && n <= i
//@ loopinv (i index, n loop int) :: n == at(i) && step(i)
//@ loopinv (s local []string, i index) :: len(s) == osLen() && (forall j int {s[j]} :: i <= j && j < len(s) ==> s[j] == osVar(j))
//@ loopinv (s local []string, i index, n loop int) :: forall j int {at(j)} :: 0 <= j && j < i && keepE(j) ==> s[at(j)] == osVar(j) && at(j) < n && 0 <= at(j)
//@ # every given entry follows the inherited ones, in order
//@ ensures len(r) == at(osLen()) + len(env)
//@ ensures forall i int {env[i]} :: 0 <= i && i < len(env) ==> r[len(r)-len(env)+i] == env[i]
//@ ensures forall j int {at(j)} :: 0 <= j && j < osLen() && keepE(j) ==> r[at(j)] == osVar(j) && at(j) < len(r) - len(env)
