//go:build verif

// Contracts for stable filtering (C03), astexec.go.
package contracts

//@ mode int
//@ mode wf
//@ # Stable(o, a, b): a call stableFieldValues(a, b) returned o. Full(a, b): it returned a non-empty map.
//@ smt (declare-fun Stable (Int Int Int) Bool)
//@ smt (declare-fun Full (Int Int) Bool)
//@ sig Stable(FieldValues; FieldValues; FieldValues) Bool
//@ sig Full(FieldValues; FieldValues) Bool
//@ macro noNil() = forall m FieldValues, k string {m[k]} :: has(m, k) ==> m[k] != nil
//@ macro leaf(v) = len(v.Children) == 0

//@ func stableFieldValues(f1, f2) (out)
//@ requires noNil()
//@ nopanic
//@ loopinv noNil()
//@ loopinv (o FieldValues) :: fresh(o) && (forall k string {has(o, k)} :: has(o, k) ==> has(f1, k) && has(f2, k))
//@ loopinv (o FieldValues, v visited) :: fresh(o) && (forall k string {has(o, k)} :: has(o, k) ==> v[k])
//@ loopinv (o FieldValues, v visited) :: fresh(o) && (forall k string {has(o, k)} {v[k]} :: v[k] && has(f1, k) && has(f2, k) && leaf(f1[k]) && leaf(f2[k]) ==> (has(o, k) <==> f1[k].Value == f2[k].Value))
//@ loopinv (o FieldValues) :: fresh(o) && (forall k string {has(o, k)} :: has(o, k) && leaf(f1[k]) ==> leaf(f2[k]) && leaf(o[k]) && o[k].Value == f1[k].Value)
//@ loopinv (o FieldValues, v visited) :: fresh(o) && (forall k string {has(o, k)} {v[k]} :: v[k] && has(f1, k) && has(f2, k) && !leaf(f1[k]) && !leaf(f2[k]) ==> (has(o, k) <==> Full(f1[k].Children, f2[k].Children)))
//@ loopinv (o FieldValues) :: fresh(o) && (forall k string {has(o, k)} :: has(o, k) && !leaf(f1[k]) ==> !leaf(f2[k]) && !leaf(o[k]) && Stable(o[k].Children, f1[k].Children, f2[k].Children))
//@ loopinv (o FieldValues) :: fresh(o) && (forall k string {has(o, k)} :: has(o, k) ==> fresh(o[k]) && ref(o[k]) < alloc && ref(o[k].Children) < alloc && ref(o[k].Children) != ref(o))
//@ assumes Stable(out, f1, f2) && (len(out) > 0 <==> Full(f1, f2))
//@ ensures noNil()
//@ ensures out != nil && fresh(out)
//@ # nothing is kept that is not in both
//@ ensures forall k string :: has(out, k) ==> has(f1, k) && has(f2, k)
//@ # two leaves are kept exactly when equal, with their value
//@ ensures forall k string :: has(f1, k) && has(f2, k) && leaf(f1[k]) && leaf(f2[k]) ==> (has(out, k) <==> f1[k].Value == f2[k].Value)
//@ ensures forall k string :: has(out, k) && leaf(f1[k]) ==> leaf(f2[k]) && leaf(out[k]) && out[k].Value == f1[k].Value
//@ # two containers are kept exactly when something inside them is, holding exactly that
//@ ensures forall k string :: has(f1, k) && has(f2, k) && !leaf(f1[k]) && !leaf(f2[k]) ==> (has(out, k) <==> Full(f1[k].Children, f2[k].Children))
//@ ensures forall k string :: has(out, k) && !leaf(f1[k]) ==> !leaf(f2[k]) && !leaf(out[k]) && Stable(out[k].Children, f1[k].Children, f2[k].Children)
