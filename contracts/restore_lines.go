//go:build verif

// InsertFuncLines keeps the invariant of the modifier (C11), asttweak.go.
package contracts

//@ import restore.go
//@ callback (*ASTModifier).InsertFuncLines.cb(i, line) (t, k)
//@ # runs a commit action made by loadParsedFileNode (its contract is in restore.go)
//@ assume (*ASTModifier).commitFileInternal(m, f) (err)
//@ requires m != nil && inv(m) && OX(real(f))
//@ modifies FX, FD, FM, FL, HN, *m, m.backups[*], m.cleanupActions[*]
//@ ensures inv(m) && (old(added(m)) && err == nil ==> added(m))
//@ assume findFuncDecl(f, pkg, ident) (d)
//@ assume (*stripedMutex).Lock(m, key) (l)
//@ extern os.ReadFile(p) (b, err)
//@ transparent go/ast.FuncDecl
//@ transparent go/ast.BlockStmt
//@ transparent go/token.Position
//@ pure strings.* go/parser.* go/token.* go/ast.* go/scanner.* (*go/token.* (*go/ast.* (*go/scanner.*
//@ func (*ASTModifier).InsertFuncLines(m, fn, cb) (err)
//@ requires m != nil && inv(m) && OX(real(fn.FilePath))
//@ modifies all
//@ noauto
//@ ensures unsaved(m)
//@ ensures saved(m)
//@ ensures actions(m)
//@ ensures forall o string {OX(o)} :: OX(o) ==> FX[o]
