//go:build verif

// Contracts for point ids (C10), asttweak.go.
package contracts

//@ mode int
//@ mode local
//@ mode ix

//@ # the counter: only ever moved upwards, by any goroutine; lo, hi: the ids taken by this caller's successful exchange
//@ ghost cur Int
//@ ghost lo Int
//@ ghost hi Int
//@ ghost wins Int

//@ extern (*sync/atomic.Uint32).Load(c) (v)
//@ modifies cur
//@ ensures cur >= old(cur) && v == cur && cur <= 4294967295
//@ extern (*sync/atomic.Uint32).CompareAndSwap(c, o, n) (ok)
//@ requires n > o
//@ modifies cur, lo, hi, wins
//@ ensures ok ==> old(cur) <= o && lo == o && hi == n && cur >= n && cur <= 4294967295 && wins == old(wins) + 1
//@ ensures !ok ==> cur >= old(cur) && lo == old(lo) && hi == old(hi) && wins == old(wins) && cur <= 4294967295

//@ extern errors.New(s) (e)
//@ ensures e != nil

//@ func (*ASTModifier).nextPointId(m) (id, err)
//@ requires m != nil
//@ requires 0 <= cur && cur <= 4294967295
//@ nopanic
//@ overflow
//@ modifies cur, lo, hi, wins
//@ loopinv wins == old(wins) && cur >= old(cur) && cur <= 4294967295
//@ ensures cur >= old(cur)
//@ ensures err == nil ==> wins == old(wins) + 1
//@ ensures err == nil ==> id >= 1 && lo <= id && id < hi && hi <= 4294967295
//@ ensures err == nil ==> id >= old(cur)
//@ ensures err != nil ==> id == 0 && wins == old(wins)
//@ ensures err != nil ==> cur == 4294967295

//@ # sort.Slice on return infos: SL, SC name the lines and call counts it leaves; what it leaves is a reordering of
//@ # what it got, by line. That its less argument compares lines is left to the harness.
//@ macro sl(x) = unbox(x, "[]FunctionReturn")
//@ ghost SL (Array Int Int)
//@ ghost SC (Array Int Int)
//@ smt (declare-fun U ((Array Int Int) Int) Int)
//@ smt (declare-fun T ((Array Int Int) (Array Int Int) Int Int) Int)
//@ sig U((Array Int Int); Int) Int
//@ sig T((Array Int Int); (Array Int Int); Int; Int) Int
//@ # U: distinct lines among the first k; T: the calls on a line among the first k, as uint32
//@ axiom forall a (Array Int Int) {U(a, 0)} :: U(a, 0) == 0
//@ axiom forall a (Array Int Int), k int, m int {U(a, m), a[k]} :: 0 <= k && m == k+1 ==> U(a, m) == U(a, k) + ite(k == 0 || a[k] != a[k-1], 1, 0)
//@ axiom forall a (Array Int Int), b (Array Int Int), l int {T(a, b, 0, l)} :: T(a, b, 0, l) == 0
//@ axiom forall a (Array Int Int), b (Array Int Int), k int, m int, l int {T(a, b, m, l), a[k]} :: 0 <= k && m == k+1 ==> T(a, b, m, l) == ite(a[k] != l, T(a, b, k, l), ite(T(a, b, k, l) + b[k] < 4294967296, T(a, b, k, l) + b[k], T(a, b, k, l) + b[k] - 4294967296))
//@ extern sort.Slice(x, less) ()
//@ requires typeis(x, "[]FunctionReturn")
//@ modifies sl(x)[*], SL, SC
//@ ensures forall i int {sl(x)[i]} :: 0 <= i && i < len(sl(x)) ==> sl(x)[i].Line == SL[i] && sl(x)[i].CallCount == SC[i]
//@ ensures forall i int {SL[i]} :: 0 <= i && i < len(sl(x)) ==> 0 <= SL[i] && SL[i] < 4294967296 && 0 <= SC[i] && SC[i] < 4294967296
//@ ensures forall i int, j int {SL[i], SL[j]} :: 0 <= i && i < j && j < len(sl(x)) ==> SL[i] <= SL[j]

//@ func mergeReturnInfos(infos) (out)
//@ nopanic
//@ modifies infos[*], SL, SC
//@ loopinv (u loop []FunctionReturn, i index) :: len(u) == U(SL, i) && len(u) <= i && ref(u) == ref(infos) && off(u) == off(infos) && cap(u) == cap(infos) && i <= len(infos)
//@ loopinv (i index) :: forall j int {infos[j]} :: i <= j && j < len(infos) ==> infos[j].Line == SL[j] && infos[j].CallCount == SC[j]
//@ loopinv (i index) :: i > 0 && infos[i-1].Line == SL[i-1] || i == 0
//@ loopinv (u loop []FunctionReturn, i index) :: i > 0 && len(u) > 0 && u[len(u)-1].Line == SL[i-1] || i == 0
//@ loopinv (u loop []FunctionReturn) :: forall i int, j int {u[i], u[j]} :: 0 <= i && i < j && j < len(u) ==> u[i].Line < u[j].Line
//@ ensures len(out) == U(SL, len(infos))
//@ ensures forall i int, j int :: 0 <= i && i < j && j < len(out) ==> out[i].Line < out[j].Line
//@ loopinv (i index) :: forall l int {T(SL, SC, i, l)} :: (i == 0 || l > SL[i-1]) ==> T(SL, SC, i, l) == 0
//@ loopinv (u loop []FunctionReturn, i index) :: forall k int {u[k]} :: 0 <= k && k < len(u) ==> u[k].CallCount == T(SL, SC, i, u[k].Line)
//@ loopinv (u loop []FunctionReturn, i index) :: forall j int {SL[j]} :: 0 <= j && j < i ==> 1 <= U(SL, j+1) && U(SL, j+1) <= len(u) && u[U(SL, j+1)-1].Line == SL[j]
//@ ensures forall k int :: 0 <= k && k < len(out) ==> out[k].CallCount == T(SL, SC, len(infos), out[k].Line)
//@ ensures forall j int :: 0 <= j && j < len(infos) ==> 1 <= U(SL, j+1) && U(SL, j+1) <= len(out) && out[U(SL, j+1)-1].Line == SL[j]
