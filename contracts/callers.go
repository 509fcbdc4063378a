//go:build verif

// Contracts for the reverse search over the call graph (C09), static.go.
package contracts

//@ mode int
//@ mode ix
//@ mode local
//@ mode wf
//@ transparent golang.org/x/tools/go/callgraph.Node
//@ transparent golang.org/x/tools/go/callgraph.Edge

//@ # done: the nodes handed to the visitor so far. Reach: any predicate closed under the rules of the search, so
//@ # what is proved of it holds of the least one, the nodes with a path to start that does not pass through a root
//@ ghost done (Array Int Bool)
//@ ghost failed Bool
//@ smt (declare-fun Reach (Int) Bool)
//@ sig Reach(Int) Bool
//@ macro at(c) = ref(c[len(c)-1])

//@ callback reverseDFS.visitFunc(chain) (err)
//@ requires len(chain) > 0
//@ requires !done[at(chain)]
//@ requires !failed
//@ modifies done, failed
//@ ensures done == store(old(done), at(chain), true)
//@ ensures failed <==> err != nil

//@ assume logStackChain(chain) ()

//@ macro root(n) = has(rootNodes, n) && rootNodes[n]
//@ # the rules of Reach
//@ macro rules() = Reach(ref(start)) && (forall n *callgraph.Node, i int {n.In[i]} :: n != nil && 0 <= i && i < len(n.In) && Reach(ref(n)) && !root(n) && n.In[i].Caller != nil ==> Reach(ref(n.In[i].Caller)))

//@ func reverseDFS(start, rootNodes, visitFunc) (err)
//@ requires start != nil && visitFunc != nil
//@ requires forall n *callgraph.Node, i int {n.In[i]} :: n != nil && 0 <= i && i < len(n.In) ==> n.In[i] != nil
//@ requires forall n int {done[n]} :: !done[n]
//@ requires rules()
//@ requires !failed
//@ nopanic
//@ modifies done, failed
//@ loopinv !failed
//@ loopinv (v map[*callgraph.Node]struct{}) :: fresh(v) && v != nil
//@ loopinv (v map[*callgraph.Node]struct{}) :: forall n *callgraph.Node {has(v, n)} :: has(v, n) ==> n != nil && Reach(ref(n))
//@ loopinv (v map[*callgraph.Node]struct{}) :: forall n *callgraph.Node {done[ref(n)]} :: done[ref(n)] ==> has(v, n)
//@ loopinv (s loop []frame) :: fresh(s) || cap(s) == 0
//@ loopinv (s loop []frame) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i].node != nil && !done[ref(s[i].node)]
//@ loopinv (s loop []frame, v map[*callgraph.Node]struct{}) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> has(v, s[i].node)
//@ loopinv (s loop []frame) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> len(s[i].chain) > 0 && fresh(s[i].chain) && ref(s[i].chain) < alloc && s[i].chain[len(s[i].chain)-1] == s[i].node
//@ loopinv (s loop []frame) :: forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i].node != s[j].node
//@ loopinv (s loop []frame, v map[*callgraph.Node]struct{}) :: forall n *callgraph.Node {has(v, n)} :: has(v, n) && !done[ref(n)] ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i].node == n)
//@ loopinv (v map[*callgraph.Node]struct{}) :: forall n *callgraph.Node, i int {n.In[i]} :: done[ref(n)] && !root(n) && 0 <= i && i < len(n.In) && n.In[i].Caller != nil ==> has(v, n.In[i].Caller)
//@ loopinv (v map[*callgraph.Node]struct{}, c local *callgraph.Node, k index) :: forall n *callgraph.Node, i int {n.In[i]} :: done[ref(n)] && !root(n) && 0 <= i && i < len(n.In) && (n != c || i < k) && n.In[i].Caller != nil ==> has(v, n.In[i].Caller)
//@ loopinv (c local *callgraph.Node) :: c != nil && Reach(ref(c)) && !root(c)
//@ loopinv (v map[*callgraph.Node]struct{}) :: has(v, start)
//@ ensures err != nil <==> failed
//@ ensures err == nil ==> done[ref(start)]
//@ ensures err == nil ==> (forall n *callgraph.Node, i int :: done[ref(n)] && !root(n) && 0 <= i && i < len(n.In) && n.In[i].Caller != nil ==> done[ref(n.In[i].Caller)])
//@ ensures forall n *callgraph.Node {done[ref(n)]} :: done[ref(n)] ==> Reach(ref(n))

//@ # a set with the first two properties above holds the end of every path of callers from start through no root
//@ smt (declare-fun P (Int) Int)
//@ smt (declare-fun D (Int) Bool)
//@ smt (declare-fun E (Int Int) Bool)
//@ smt (declare-fun Rt (Int) Bool)
//@ sig P(Int) Int
//@ sig D(Int) Bool
//@ sig E(Int; Int) Bool
//@ sig Rt(Int) Bool
//@ theorem complete (n int) induction n :: n >= 0 && D(P(0)) && (forall a int, b int {E(a, b)} :: D(a) && !Rt(a) && E(a, b) ==> D(b)) && (forall k int {P(k)} :: 0 <= k && k < n ==> !Rt(P(k)) && E(P(k), P(k+1))) ==> D(P(n))
