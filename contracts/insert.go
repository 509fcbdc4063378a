//go:build verif

// Contracts for line insertion (C18), asttweak.go.
package contracts

//@ mode int
//@ mode ix
//@ mode local
//@ transparent go/token.Position
//@ transparent go/ast.FuncDecl
//@ transparent go/ast.BlockStmt

//@ # the file: its lines, and the line a position is on
//@ smt (declare-fun NL () Int)
//@ smt (declare-fun Lines (Int) Str)
//@ smt (declare-fun phys (Int) Int)
//@ smt (declare-fun startPos () Int)
//@ smt (declare-fun indent (Str) Str)
//@ sig NL() int
//@ sig Lines(int) string
//@ sig phys(int) int
//@ sig startPos() int
//@ sig indent(string) string
//@ sig strsub(string; int; int) string
//@ axiom NL() >= 1
//@ # what the visitor was asked and answered: CNT[j] texts were inserted above the first j lines, TXT holds them,
//@ # TOP lines are behind the last one it was asked about
//@ ghost CNT (Array Int Int)
//@ ghost TXT (Array Int Str)
//@ ghost TOP Int
//@ ghost stopped Bool
//@ ghost open Int
//@ ghost close Int
//@ ghost written Int

//@ callback (*ASTModifier).InsertFuncLines.cb(i, line) (insertText, keepGoing)
//@ requires !stopped
//@ requires i + phys(startPos()) - 1 >= TOP
//@ requires 0 < i + phys(startPos()) && i + phys(startPos()) <= NL()
//@ requires line == Lines(i + phys(startPos()) - 1)
//@ modifies CNT, TXT, TOP, stopped
//@ ensures stopped <==> !keepGoing
//@ ensures TOP == i + phys(startPos())
//@ ensures forall j int {CNT[j]} :: j <= old(TOP) ==> CNT[j] == old(CNT)[j]
//@ ensures forall j int {CNT[j]} :: old(TOP) < j && j < TOP ==> CNT[j] == old(CNT)[old(TOP)]
//@ ensures CNT[TOP] == old(CNT)[old(TOP)] + ite(insertText != "", 1, 0)
//@ ensures TXT == store(old(TXT), TOP - 1, insertText)

//@ # every line in its place, every text right above its line
//@ macro woven(s) = (forall j int {Lines(j)} :: 0 <= j && j < TOP ==> s[j + CNT[j+1]] == Lines(j)) && (forall j int {Lines(j)} :: TOP <= j && j < NL() ==> s[j + CNT[TOP]] == Lines(j))
//@ extern strings.Join(elems, sep) (r)
//@ requires len(elems) == NL() + CNT[TOP]
//@ requires forall j int {Lines(j)} :: 0 <= j && j < TOP ==> elems[j + CNT[j+1]] == Lines(j)
//@ requires forall j int {Lines(j)} :: TOP <= j && j < NL() ==> elems[j + CNT[TOP]] == Lines(j)
//@ requires forall j int {Lines(j)} :: 0 <= j && j < TOP && CNT[j+1] != CNT[j] ==> elems[j + CNT[j]] == strcat(indent(Lines(j)), TXT[j])
//@ extern strings.Split(s, sep) (r)
//@ ensures fresh(r) && len(r) == NL() && cap(r) == NL()
//@ ensures forall j int {r[j]} :: 0 <= j && j < NL() ==> r[j] == Lines(j)
//@ extern strings.Count(s, sep) (n)
//@ ensures n >= 0
//@ extern strings.Contains(s, t) (b)
//@ extern strings.IndexFunc(s, f) (n)
//@ ensures -1 <= n && n < len(s) + 1 && (n >= 0 ==> n < len(s))
//@ ensures indent(s) == ite(n <= 0, "", strsub(s, 0, n))
//@ extern os.ReadFile(p) (b, err)
//@ extern os.WriteFile(p, b, m) (err)
//@ modifies written
//@ ensures written == old(written) + 1
//@ extern fmt.Errorf(f, a) (e)
//@ ensures e != nil
//@ extern go/token.NewFileSet() (f)
//@ ensures f != nil
//@ extern go/parser.ParseFile(f, n, d, m) (a, err)
//@ ensures err == nil ==> a != nil
//@ extern (*go/token.FileSet).PositionFor(f, p, adj) (r)
//@ ensures !adj ==> r.Line == phys(p) && 1 <= r.Line && r.Line <= NL()
//@ extern (*go/token.FileSet).Position(f, p) (r)
//@ extern (*go/token.FileSet).File(f, p) (r)
//@ extern (*go/ast.FuncDecl).Pos(d) (p)
//@ ensures p == startPos()
//@ extern (*go/ast.BlockStmt).Pos(d) (p)
//@ extern (*go/scanner.Scanner).Init(s, f, d, e, m) ()
//@ extern (*go/scanner.Scanner).Scan(s) (pos, tok, lit)
//@ assume findFuncDecl(f, pkg, ident) (d)
//@ ensures d != nil && d.Body != nil ==> phys(startPos()) <= phys(d.Body.Lbrace) && phys(d.Body.Lbrace) <= phys(d.Body.Rbrace)
//@ assume (*stripedMutex).Lock(m, key) (l)
//@ ensures l != nil
//@ extern (*sync.Mutex).Unlock(m) ()
//@ assume (*ASTModifier).commitFileInternal(m, f) (err)
//@ assume (*ASTModifier).backupOrigFile(m, f) (err)

//@ func (*ASTModifier).InsertFuncLines(m, fn, cb) (err)
//@ requires m != nil && fn != nil && cb != nil && TOP == 0 && CNT[0] == 0 && !stopped
//@ nopanic
//@ modifies CNT, TXT, TOP, stopped, written
//@ loopinv (l loop int) :: TOP <= l - 1 && 1 <= l && l <= NL() + 1
//@ loopinv (a loop int, l loop int, o local int) :: a == l - o
//@ loopinv TOP >= 0 && CNT[0] == 0
//@ loopinv !stopped
//@ loopinv written == old(written)
//@ loopinv forall j int {CNT[j]} :: 0 <= j && j <= TOP ==> 0 <= CNT[j] && CNT[j] <= CNT[TOP]
//@ loopinv (s loop []string, l loop int) :: len(s) == l - 1 + CNT[TOP]
//@ loopinv (s loop []string) :: forall j int {Lines(j)} :: 0 <= j && j < TOP ==> s[j + CNT[j+1]] == Lines(j)
//@ loopinv (s loop []string, l loop int) :: forall j int {Lines(j)} :: TOP <= j && j < l - 1 ==> s[j + CNT[TOP]] == Lines(j)
//@ loopinv (s loop []string) :: forall j int {Lines(j)} :: 0 <= j && j < TOP && CNT[j+1] != CNT[j] ==> s[j + CNT[j]] == strcat(indent(Lines(j)), TXT[j])
//@ loopinv (s loop []string) :: fresh(s)
//@ ensures written <= old(written) + 1
