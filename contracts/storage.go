//go:build verif

// Contracts for storage (C06), storage.go.
package contracts

//@ mode int
//@ # string facts: hasPre(s, p) is "s begins with p", rest(s, p) what follows
//@ smt (declare-fun hasPre (Str Str) Bool)
//@ smt (declare-fun rest (Str Str) Str)
//@ sig hasPre(string; string) Bool
//@ sig rest(string; string) string
//@ axiom forall p string, k string {strcat(p, k)} :: hasPre(strcat(p, k), p) && rest(strcat(p, k), p) == k
//@ axiom forall s string, p string {hasPre(s, p)} :: hasPre(s, p) ==> s == strcat(p, rest(s, p))
//@ axiom forall s string {hasPre(s, "")} :: hasPre(s, "")

//@ extern strings.HasPrefix(s, p) (b)
//@ ensures b == hasPre(s, p)
//@ extern (*sync.Mutex).Lock(m) ()
//@ extern (*sync.Mutex).Unlock(m) ()

//@ macro sameBytes(a, b) = len(a) == len(b) && (forall i int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == b[i])

//@ func (*memStorage).SaveState(m, key, blob) (err)
//@ requires m != nil && m.data != nil
//@ nopanic
//@ modifies m.data[*]
//@ ensures err == nil
//@ ensures has(m.data, key) && sameBytes(m.data[key], blob)
//@ # the stored copy is not the caller's slice
//@ ensures len(blob) > 0 ==> fresh(ref(m.data[key]))
//@ ensures forall k string :: k != key ==> (has(m.data, k) <==> old(has(m.data, k))) && m.data[k] == old(m.data[k])

//@ func (*memStorage).LoadState(m, key) (blob, ok, err)
//@ requires m != nil
//@ nopanic
//@ ensures err == nil && (ok <==> has(m.data, key))
//@ ensures ok ==> sameBytes(blob, m.data[key])
//@ ensures len(blob) > 0 ==> fresh(ref(blob))

//@ func (*memStorage).DeleteState(m, key) (err)
//@ requires m != nil
//@ nopanic
//@ modifies m.data[*]
//@ ensures err == nil && !has(m.data, key)
//@ ensures forall k string :: k != key ==> (has(m.data, k) <==> old(has(m.data, k))) && m.data[k] == old(m.data[k])

//@ func (*memStorage).Clear(m) (err)
//@ requires m != nil
//@ nopanic
//@ modifies m.data[*]
//@ ensures err == nil && (forall k string :: !has(m.data, k))

//@ func (*memStorage).ListKeysPrefix(m, prefix) (keys, err)
//@ requires m != nil
//@ nopanic
//@ loopinv (s []string) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> has(m.data, s[i]) && hasPre(s[i], prefix)
//@ loopinv (s []string, v visited) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> v[s[i]]
//@ loopinv (s []string) :: forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j]
//@ loopinv (s []string, v visited) :: forall k string {v[k]} :: v[k] && hasPre(k, prefix) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == k)
//@ ensures err == nil
//@ ensures forall i int :: 0 <= i && i < len(keys) ==> has(m.data, keys[i]) && hasPre(keys[i], prefix)
//@ ensures forall k string :: has(m.data, k) && hasPre(k, prefix) ==> (exists i int {keys[i]} :: 0 <= i && i < len(keys) && keys[i] == k)
//@ ensures forall i int, j int :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]

//@ func (*memStorage).ListKeys(m) (keys, err)
//@ requires m != nil
//@ nopanic
//@ ensures err == nil
//@ ensures forall i int :: 0 <= i && i < len(keys) ==> has(m.data, keys[i])
//@ ensures forall k string :: has(m.data, k) ==> (exists i int {keys[i]} :: 0 <= i && i < len(keys) && keys[i] == k)

//@ # An abstract store: what any Storage holds. Its operations are assumed to be those of a map (proved above for the
//@ # in-memory store); a prefixed view of it is then proved to be the map of the keys under its prefix.
//@ ghost kvHas (Array Iface (Array Str Bool))
//@ ghost kvLen (Array Iface (Array Str Int))
//@ ghost kvArr (Array Iface (Array Str (Array Int Int)))
//@ macro holds(s, k, b) = kvHas[s][k] && kvLen[s][k] == len(b) && (forall i int {b[i]} :: 0 <= i && i < len(b) ==> kvArr[s][k][i] == b[i])
//@ macro sameKey(s, k) = (kvHas[s][k] <==> old(kvHas)[s][k]) && kvLen[s][k] == old(kvLen)[s][k] && kvArr[s][k] == old(kvArr)[s][k]
//@ macro othersKept(s) = forall t Iface {kvHas[t]} :: t != s ==> kvHas[t] == old(kvHas)[t]

//@ assume Storage.SaveState(s, key, blob) (err)
//@ modifies kvHas, kvLen, kvArr
//@ ensures err == nil ==> holds(s, key, blob)
//@ ensures forall k string {kvHas[s][k]} :: err != nil || k != key ==> sameKey(s, k)
//@ assume Storage.LoadState(s, key) (blob, ok, err)
//@ ensures err == nil ==> (ok <==> kvHas[s][key])
//@ ensures err == nil && ok ==> holds(s, key, blob)
//@ assume Storage.DeleteState(s, key) (err)
//@ modifies kvHas, kvLen, kvArr
//@ ensures err == nil ==> !kvHas[s][key]
//@ ensures forall k string {kvHas[s][k]} :: err != nil || k != key ==> sameKey(s, k)
//@ assume Storage.ListKeysPrefix(s, prefix) (keys, err)
//@ ensures err == nil ==> (forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> kvHas[s][keys[i]] && hasPre(keys[i], prefix))
//@ ensures err == nil ==> (forall k string {kvHas[s][k]} :: kvHas[s][k] && hasPre(k, prefix) ==> (exists i int {keys[i]} :: 0 <= i && i < len(keys) && keys[i] == k))
//@ extern strings.TrimPrefix(s, p) (r)
//@ ensures hasPre(s, p) ==> r == rest(s, p)
//@ ensures !hasPre(s, p) ==> r == s
//@ axiom forall p string, q string, s string {hasPre(s, strcat(p, q))} :: hasPre(s, strcat(p, q)) ==> hasPre(s, p) && hasPre(rest(s, p), q)
//@ axiom forall p string, q string, k string {strcat(p, q), strcat(p, k)} :: hasPre(k, q) ==> hasPre(strcat(p, k), strcat(p, q))

//@ func KeyPrefixStorage(s, prefix) (r)
//@ ensures prefix == "" ==> r == s
//@ ensures prefix != "" ==> typeis(r, "*prefixStorage") && unbox(r, "*prefixStorage").store == s && unbox(r, "*prefixStorage").prefix == strcat(prefix, ";")

//@ func (*prefixStorage).SaveState(p, key, blob) (err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ modifies kvHas, kvLen, kvArr
//@ ensures err == nil ==> holds(p.store, strcat(p.prefix, key), blob)
//@ ensures forall k string :: err != nil || k != strcat(p.prefix, key) ==> sameKey(p.store, k)

//@ func (*prefixStorage).LoadState(p, key) (blob, ok, err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ ensures err == nil ==> (ok <==> kvHas[p.store][strcat(p.prefix, key)])
//@ ensures err == nil && ok ==> holds(p.store, strcat(p.prefix, key), blob)

//@ func (*prefixStorage).DeleteState(p, key) (err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ modifies kvHas, kvLen, kvArr
//@ ensures err == nil ==> !kvHas[p.store][strcat(p.prefix, key)]
//@ ensures forall k string {kvHas[p.store][k]} :: err != nil || k != strcat(p.prefix, key) ==> sameKey(p.store, k)

//@ func (*prefixStorage).ListKeysPrefix(p, prefix) (keys, err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ loopinv (s []string, u []string, n index) :: len(s) == len(u) && fresh(ref(s)) && ref(s) != ref(u) && (forall i int {s[i]} {u[i]} :: 0 <= i && i < n ==> s[i] == rest(u[i], p.prefix))
//@ ensures err == nil ==> (forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> kvHas[p.store][strcat(p.prefix, keys[i])] && hasPre(keys[i], prefix))
//@ ensures err == nil ==> (forall k string {strcat(p.prefix, k)} :: kvHas[p.store][strcat(p.prefix, k)] && hasPre(k, prefix) ==> (exists i int {keys[i]} :: 0 <= i && i < len(keys) && keys[i] == k))

//@ func (*prefixStorage).ListKeys(p) (keys, err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ ensures err == nil ==> (forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> kvHas[p.store][strcat(p.prefix, keys[i])])
//@ ensures err == nil ==> (forall k string {strcat(p.prefix, k)} :: kvHas[p.store][strcat(p.prefix, k)] ==> (exists i int {keys[i]} :: 0 <= i && i < len(keys) && keys[i] == k))

//@ func (*prefixStorage).Clear(p) (err)
//@ requires p != nil && p.store != nil
//@ nopanic
//@ modifies kvHas, kvLen, kvArr
//@ loopinv (ks []string, n index) :: forall i int {ks[i]} :: 0 <= i && i < n ==> !kvHas[p.store][strcat(p.prefix, ks[i])]
//@ loopinv forall k string {kvHas[p.store][k]} :: kvHas[p.store][k] ==> old(kvHas)[p.store][k]
//@ loopinv forall k string {kvHas[p.store][k]} :: !hasPre(k, p.prefix) ==> sameKey(p.store, k)
//@ # exactly the keys of the view are gone, every other key of the store is as it was
//@ ensures err == nil ==> (forall k string :: !kvHas[p.store][strcat(p.prefix, k)])
//@ ensures forall k string {kvHas[p.store][k]} :: !hasPre(k, p.prefix) ==> sameKey(p.store, k)
