//go:build verif

// Contracts for captured output (C19), util_io.go, util.go.
package contracts

//@ mode int
//@ mode joins
//@ # content of a bytes.Buffer: its length and bytes
//@ ghost BL (Array Int Int)
//@ ghost BA (Array Int (Array Int Int))
//@ extern (*bytes.Buffer).Write(b, p) (n, err)
//@ modifies BL, BA
//@ ensures n == len(p) && err == nil
//@ ensures BL == store(old(BL), b, old(BL)[b] + len(p))
//@ ensures forall c int {BA[c]} :: c != ref(b) ==> BA[c] == old(BA)[c]
//@ ensures forall i int {BA[b][i]} :: 0 <= i && i < old(BL)[b] ==> BA[b][i] == old(BA)[b][i]
//@ ensures forall i int {BA[b][i]} :: old(BL)[b] <= i && i < old(BL)[b] + len(p) ==> BA[b][i] == p[i-old(BL)[b]]
//@ extern (*bytes.Buffer).WriteString(b, s) (n, err)
//@ modifies BL, BA
//@ ensures n == len(s) && err == nil
//@ ensures BL == store(old(BL), b, old(BL)[b] + len(s))
//@ ensures forall c int {BA[c]} :: c != ref(b) ==> BA[c] == old(BA)[c]
//@ ensures forall i int {BA[b][i]} :: 0 <= i && i < old(BL)[b] ==> BA[b][i] == old(BA)[b][i]
//@ ensures forall i int {BA[b][i]} :: old(BL)[b] <= i && i < old(BL)[b] + len(s) ==> BA[b][i] == s[i-old(BL)[b]]
//@ extern (*bytes.Buffer).Reset(b) ()
//@ modifies BL
//@ ensures BL == store(old(BL), b, 0)
//@ extern (*bytes.Buffer).Len(b) (n)
//@ ensures n == BL[b] && n >= 0
//@ extern (*bytes.Buffer).Bytes(b) (r)
//@ ensures len(r) == BL[b]
//@ ensures forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == BA[b][i]

//@ # T: what was in the buffer followed by what is written
//@ macro oldLen() = old(BL[lb.buf])
//@ macro total() = old(BL[lb.buf]) + len(p)
//@ macro at(i) = ite(i < old(BL[lb.buf]), old(BA[lb.buf])[i], p[i-old(BL[lb.buf])])
//@ func (*limitedRollingBuffer).Write(lb, p) (n, err)
//@ requires lb != nil && lb.buf != nil && lb.maxBytes >= 0 && BL[lb.buf] >= 0
//@ nopanic
//@ modifies BL, BA
//@ ensures n == len(p) && err == nil
//@ # below the limit everything is kept, otherwise a marker and the last half of the limit
//@ ensures total() <= lb.maxBytes ==> BL[lb.buf] == total() && (forall i int {BA[lb.buf][i]} :: 0 <= i && i < total() ==> BA[lb.buf][i] == at(i))
//@ ensures total() > lb.maxBytes ==> BL[lb.buf] == 3 + lb.maxBytes/2 && (forall i int {BA[lb.buf][i]} :: 0 <= i && i < lb.maxBytes/2 ==> BA[lb.buf][3+i] == at(total()-lb.maxBytes/2+i))
//@ ensures forall c int :: c != ref(lb.buf) ==> BL[c] == old(BL[c]) && BA[c] == old(BA[c])

//@ # what each writer received: how many writes, and the last slice
//@ ghost WN (Array Iface Int)
//@ ghost WP (Array Iface Slice)
//@ assume io.Writer.Write(w, p) (n, err)
//@ modifies WN, WP
//@ ensures WN == store(old(WN), w, old(WN)[w] + 1) && WP == store(old(WP), w, p)
//@ extern errors.Join(e) (err)
//@ extern fmt.Errorf(f, a) (err)
//@ ensures err != nil
//@ func (*teeWriter).Write(w, p) (n, err)
//@ requires w != nil && w.one != nil && w.two != nil
//@ nopanic
//@ modifies WN, WP
//@ # both destinations get the whole slice once
//@ ensures w.one != w.two ==> WN[w.one] == old(WN[w.one]) + 1 && WN[w.two] == old(WN[w.two]) + 1
//@ ensures WP[w.one] == p && WP[w.two] == p

//@ smt (declare-fun nLines (Str) Int)
//@ smt (declare-fun lineOf (Str Int) Str)
//@ sig nLines(string) int
//@ sig lineOf(string; int) string
//@ extern strings.Split(s, sep) (r)
//@ ensures len(r) == nLines(s) && len(r) >= 1
//@ ensures forall i int {r[i]} {lineOf(s, i)} :: 0 <= i && i < len(r) ==> r[i] == lineOf(s, i)
//@ extern strings.Join(e, sep) (r)
//@ ensures len(e) >= 1 ==> nLines(r) == len(e)
//@ ensures forall i int {lineOf(r, i)} :: 0 <= i && i < len(e) ==> lineOf(r, i) == e[i]
//@ func limitStringLines(s, count, head) (r)
//@ requires count >= 1
//@ nopanic
//@ ensures nLines(s) <= count ==> r == s
//@ ensures nLines(s) > count ==> nLines(r) == count && (forall i int {lineOf(r, i)} :: 0 <= i && i < count ==> lineOf(r, i) == lineOf(s, ite(head, i, nLines(s)-count+i)))
