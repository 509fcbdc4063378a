//go:build verif

// Contracts for the changed-line bitmap (C08), module.go.
package contracts

//@ mode int
//@ mode joins
//@ transparent github.com/pmezard/go-difflib/difflib.OpCode
//@ # the edit script of the two line lists, as computed by difflib
//@ smt (declare-fun nLines (Str) Int)
//@ smt (declare-fun nOps () Int)
//@ smt (declare-fun opTag (Int) Int)
//@ smt (declare-fun opI1 (Int) Int)
//@ smt (declare-fun opI2 (Int) Int)
//@ smt (declare-fun opJ1 (Int) Int)
//@ smt (declare-fun opJ2 (Int) Int)
//@ sig nLines(string) int
//@ sig nOps() int
//@ sig opTag(int) int
//@ sig opI1(int) int
//@ sig opI2(int) int
//@ sig opJ1(int) int
//@ sig opJ2(int) int
//@ # lo/hi: the lines edit i marks, by definition; Mk(newFunc, rad, n, j): line j is marked by one of the first n edits
//@ smt (define-fun radOf ((r Int)) Int (ite (< r 0) 0 r))
//@ smt (define-fun lo ((nf Bool) (r Int) (i Int)) Int (ite nf (ite (= (opTag i) 105) (- (opJ1 i) (radOf r)) (opJ1 i)) (ite (= (opTag i) 105) (- (opI1 i) (radOf r)) (opI1 i))))
//@ smt (define-fun hi ((nf Bool) (r Int) (i Int)) Int (ite nf (ite (= (opTag i) 105) (ite (< (opJ1 i) (opJ2 i)) (+ (opJ2 i) (radOf r)) (- (opJ1 i) (radOf r))) (opJ2 i)) (ite (= (opTag i) 105) (+ (opI1 i) (radOf r)) (opI2 i))))
//@ smt (declare-fun Mk (Bool Int Int Int) Bool)
//@ smt (assert (forall ((nf Bool) (r Int) (j Int)) (! (not (Mk nf r 0 j)) :pattern ((Mk nf r 0 j)))))
//@ smt (assert (forall ((nf Bool) (r Int) (n Int) (m Int) (j Int)) (! (=> (and (<= 0 n) (= m (+ n 1))) (= (Mk nf r m j) (or (Mk nf r n j) (and (not (= (opTag n) 101)) (<= (lo nf r n) j) (< j (hi nf r n)))))) :pattern ((Mk nf r m j) (opTag n)))))
//@ sig Mk(bool; int; int; int) Bool
//@ # cur: what edit n has marked when its inner loop stands at p
//@ smt (define-fun cur ((nf Bool) (r Int) (n Int) (p Int) (j Int)) Bool (ite nf (ite (= (opTag n) 105) (and (< (opJ1 n) p) (<= (- (opJ1 n) (radOf r)) j) (< j (+ p (radOf r)))) (and (<= (opJ1 n) j) (< j p))) (ite (= (opTag n) 105) (and (<= (- (opI1 n) p) j) (< j (+ (opI1 n) p))) (and (<= (opI1 n) j) (< j p)))))
//@ sig radOf(int) int
//@ sig cur(bool; int; int; int; int) Bool
//@ sig lo(bool; int; int) int
//@ sig hi(bool; int; int) int

//@ extern strings.Split(s, sep) (r)
//@ ensures len(r) == nLines(s) && len(r) >= 1
//@ extern github.com/pmezard/go-difflib/difflib.NewMatcher(a, b) (m)
//@ ensures m != nil
//@ extern (*github.com/pmezard/go-difflib/difflib.SequenceMatcher).GetOpCodes(m) (ops)
//@ ensures len(ops) == nOps()
//@ ensures forall i int {ops[i]} :: 0 <= i && i < len(ops) ==> ops[i].Tag == opTag(i) && ops[i].I1 == opI1(i) && ops[i].I2 == opI2(i) && ops[i].J1 == opJ1(i) && ops[i].J2 == opJ2(i) && opI1(i) <= opI2(i) && opJ1(i) <= opJ2(i)

//@ func computeChangeLineBitmap(oldDef, newDef, newFunc, neighbourRadius) (bm)
//@ nopanic
//@ loopinv (n index) :: 0 <= n && n <= nOps()
//@ loopinv (b []bool, n index) :: forall j int {b[j]} :: 0 <= j && j < len(b) ==> (b[j] <==> Mk(newFunc, neighbourRadius, n, j))
//@ loopinv (b []bool, n outer index, p loop int) :: forall j int {b[j]} :: 0 <= j && j < len(b) ==> (b[j] <==> Mk(newFunc, neighbourRadius, n, j) || cur(newFunc, neighbourRadius, n, p, j))
//@ loopinv (b []bool, n outer index, p outer int, r loop int) :: forall j int {b[j]} :: 0 <= j && j < len(b) ==> (b[j] <==> Mk(newFunc, neighbourRadius, n, j) || cur(newFunc, neighbourRadius, n, p, j) || (p-r < j && j < p+r))
//@ loopinv (r loop int) :: 1 <= r && r <= radOf(neighbourRadius)+1
//@ loopinv (r loop int) :: 0 <= r && r <= radOf(neighbourRadius)
//@ loopinv (n outer index, p loop int) :: opJ1(n) <= p && p <= opJ2(n)
//@ loopinv (n outer index, p loop int) :: opI1(n) <= p && p <= opI2(n)
//@ ensures len(bm) == ite(newFunc, nLines(newDef), nLines(oldDef))
//@ ensures forall j int :: 0 <= j && j < len(bm) ==> (bm[j] <==> Mk(newFunc, neighbourRadius, nOps(), j))
