//go:build verif

// Contracts for the monitor ledger (C16), astexec.go.
package contracts

//@ mode int
//@ mode ix
//@ mode local
//@ mode spawn
//@ mode wf

//@ ghost waiting Int
//@ ghost checks Int

//@ extern (*sync.Mutex).Lock(m) ()
//@ extern (*sync.Mutex).Unlock(m) ()
//@ extern (*sync.WaitGroup).Add(w, n) ()
//@ modifies waiting
//@ ensures waiting == old(waiting) + n
//@ extern (*sync.WaitGroup).Done(w) ()
//@ modifies waiting
//@ ensures waiting == old(waiting) - 1
//@ extern (*sync/atomic.Uint32).Add(c, n) (r)
//@ modifies checks
//@ ensures checks == old(checks) + n
//@ extern log.Printf(f, v) ()
//@ assume (*stripedMutex).Lock(m, key) (l)
//@ ensures l != nil

//@ # one ledger: no two of its slices share memory
//@ macro apart(m) = forall a string, b string {m[a], m[b]} :: has(m, a) && has(m, b) && a != b && cap(m[a]) > 0 ==> ref(m[a]) != ref(m[b])
//@ macro apart2(m, n) = forall a string, b string {m[a], n[b]} :: has(m, a) && has(n, b) && cap(m[a]) > 0 ==> ref(m[a]) != ref(n[b])
//@ macro count(m, k) = ite(has(m, k), len(m[k]), 0)
//@ macro kept(m) = (forall k string {m[k]} :: (has(m, k) <==> old(has(m, k))) && m[k] == old(m[k])) && (forall k string, i int {m[k][i]} :: has(m, k) && 0 <= i && i < len(m[k]) ==> m[k][i] == old(m[k][i]))
//@ macro grewLen(m, id) = forall k string {m[k]} :: count(m, k) == old(count(m, k)) + ite(k == id, 1, 0)
//@ macro grewHas(m, id) = forall k string {has(m, k)} :: (has(m, k) <==> k == id || old(has(m, k)))
//@ macro grewOld(m, id) = forall k string, i int {m[k][i]} :: 0 <= i && i < old(count(m, k)) ==> m[k][i] == old(m[k][i])

//@ func (*testMonitor).HandleFuncPointPanic(t, msg) ()
//@ requires t != nil && t.projectPanics != nil && t.modulePanics != nil && t.projectPanics != t.modulePanics
//@ requires forall p uint32 :: has(t.projectPanicPointIdToIdent, p) ==> t.projectPanicPointIdToIdent[p] != nil
//@ requires forall p uint32 :: has(t.modulePanicPointIdToIdent, p) ==> t.modulePanicPointIdToIdent[p] != nil
//@ requires apart(t.projectPanics) && apart(t.modulePanics) && apart2(t.projectPanics, t.modulePanics)
//@ nopanic
//@ modifies t.projectPanics[*], t.modulePanics[*], heap(string)
//@ ensures apart(t.projectPanics)
//@ ensures apart(t.modulePanics)
//@ ensures apart2(t.projectPanics, t.modulePanics)
//@ ensures has(t.projectPanicPointIdToIdent, msg.PointID) ==> kept(t.modulePanics)
//@ ensures has(t.projectPanicPointIdToIdent, msg.PointID) ==> grewLen(t.projectPanics, *t.projectPanicPointIdToIdent[msg.PointID])
//@ ensures has(t.projectPanicPointIdToIdent, msg.PointID) ==> grewHas(t.projectPanics, *t.projectPanicPointIdToIdent[msg.PointID])
//@ ensures has(t.projectPanicPointIdToIdent, msg.PointID) ==> grewOld(t.projectPanics, *t.projectPanicPointIdToIdent[msg.PointID])
//@ ensures has(t.projectPanicPointIdToIdent, msg.PointID) ==> t.projectPanics[*t.projectPanicPointIdToIdent[msg.PointID]][len(t.projectPanics[*t.projectPanicPointIdToIdent[msg.PointID]]) - 1] == msg.Message
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && has(t.modulePanicPointIdToIdent, msg.PointID) ==> kept(t.projectPanics)
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && has(t.modulePanicPointIdToIdent, msg.PointID) ==> grewLen(t.modulePanics, *t.modulePanicPointIdToIdent[msg.PointID])
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && has(t.modulePanicPointIdToIdent, msg.PointID) ==> grewHas(t.modulePanics, *t.modulePanicPointIdToIdent[msg.PointID])
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && has(t.modulePanicPointIdToIdent, msg.PointID) ==> grewOld(t.modulePanics, *t.modulePanicPointIdToIdent[msg.PointID])
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && has(t.modulePanicPointIdToIdent, msg.PointID) ==> t.modulePanics[*t.modulePanicPointIdToIdent[msg.PointID]][len(t.modulePanics[*t.modulePanicPointIdToIdent[msg.PointID]]) - 1] == msg.Message
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && !has(t.modulePanicPointIdToIdent, msg.PointID) ==> kept(t.projectPanics)
//@ ensures !has(t.projectPanicPointIdToIdent, msg.PointID) && !has(t.modulePanicPointIdToIdent, msg.PointID) ==> kept(t.modulePanics)

//@ macro captured(name, typ, parent) = !(parent == "reflect.Value" && (name == "typ_" || name == "flag" || name == "ptr")) && typ != "reflect.rtype" && typ != "reflect.flag"

//@ func shouldCaptureField(name, typ, parent) (ok)
//@ nopanic
//@ ensures ok <==> captured(name, typ, parent)

//@ smt (declare-fun textOf (Iface) Str)
//@ smt (declare-fun hasSuf (Str Str) Bool)
//@ sig hasSuf(string; string) Bool
//@ sig textOf(Iface) string
//@ extern fmt.Sprint(v) (s)
//@ ensures len(v) == 1 ==> s == textOf(v[0])
//@ extern crypto/sha1.Sum(b) (r)
//@ extern (*github.com/mtraver/base91.Encoding).EncodeToString(e, b) (s)
//@ extern strings.HasSuffix(s, p) (b)
//@ ensures b == hasSuf(s, p)

//@ func collectFields(dst, key, val, typ, children, parent) ()
//@ requires dst != nil
//@ nopanic
//@ modifies dst[*]
//@ loopinv (m FieldValues) :: fresh(m) && m != nil
//@ loopinv (m FieldValues, n index) :: forall k string {has(m, k)} :: (has(m, k) <==> (exists j int {children[j]} :: 0 <= j && j < n && children[j].Name == k && captured(k, children[j].Type, typ)))
//@ # a dropped field leaves no trace, a captured one is entered under its name, others stay
//@ ensures forall k string {has(dst, k)} :: k != key || !captured(key, typ, parent) ==> (has(dst, k) <==> old(has(dst, k))) && dst[k] == old(dst[k])
//@ ensures captured(key, typ, parent) ==> has(dst, key) && dst[key] != nil && fresh(dst[key])
//@ ensures captured(key, typ, parent) && len(children) == 0 ==> dst[key].Children == nil && (hasSuf(typ, "string") || len(textOf(val)) <= 128 ==> dst[key].Value == textOf(val))
//@ ensures captured(key, typ, parent) && len(children) > 0 ==> dst[key].Children != nil && dst[key].Value == "" && (forall k string {has(dst[key].Children, k)} :: (has(dst[key].Children, k) <==> (exists j int {children[j]} :: 0 <= j && j < len(children) && children[j].Name == k && captured(k, children[j].Type, typ))))

//@ smt (declare-fun trimmed (Str Str Str) Str)
//@ sig trimmed(string; string; string) string
//@ assume trimStackFile(projectDir, goroot, file) (s)
//@ ensures s == trimmed(projectDir, goroot, file)
//@ assume ProjectFrames(frames) (r)
//@ assume StackFramesKey(bb, frames) (s)

//@ macro lastOf(s) = s[len(s) - 1]
//@ macro stackOf(s, m) = len(s) == len(m) && (forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i].File == trimmed(t.projectDir, t.goroot, m[i].File) && s[i].Function == m[i].Function)
//@ macro known(m) = has(m, msg.PointID)
//@ macro extId() = *t.extensionStatePointIdToIdent[msg.PointID]
//@ macro callId() = *t.projectStatePointIdToIdent[msg.PointID]
//@ macro isExt() = has(t.extensionStatePointIdToIdent, msg.PointID)
//@ macro isCall() = !has(t.extensionStatePointIdToIdent, msg.PointID) && has(t.projectStatePointIdToIdent, msg.PointID)

//@ func (*testMonitor).HandleFuncPointState(t, msg) ()
//@ requires t != nil && t.callerFrames != nil && t.extensionFrames != nil && t.callerFrames != t.extensionFrames && t.pointLocks != nil
//@ requires forall p uint32 :: has(t.projectStatePointIdToIdent, p) ==> t.projectStatePointIdToIdent[p] != nil
//@ requires forall p uint32 :: has(t.extensionStatePointIdToIdent, p) ==> t.extensionStatePointIdToIdent[p] != nil
//@ requires apart(t.callerFrames) && apart(t.extensionFrames) && apart2(t.callerFrames, t.extensionFrames)
//@ nopanic
//@ modifies t.callerFrames[*], t.extensionFrames[*], heap(CallFrame), waiting, checks
//@ loopinv (s local []StackFrame, n index) :: fresh(s) && len(s) == len(msg.Stack) && (forall i int {s[i]} :: 0 <= i && i < n ==> s[i].File == trimmed(t.projectDir, t.goroot, msg.Stack[i].File) && s[i].Function == msg.Stack[i].Function)
//@ loopinv (m FieldValues) :: fresh(m) && m != nil
//@ loopinv (m local FieldValues, n index) :: forall k string {has(m, k)} :: (has(m, k) <==> (exists j int {msg.Fields[j]} :: 0 <= j && j < n && msg.Fields[j].Name == k && captured(k, msg.Fields[j].Type, "")))
//@ loopinv (m FieldValues) :: forall k string {has(m, k)} :: has(m, k) ==> (exists j int {msg.Fields[j]} :: 0 <= j && j < len(msg.Fields) && msg.Fields[j].Name == k && captured(k, msg.Fields[j].Type, ""))
//@ # every message that starts waiting finishes it: building the result is never held up
//@ ensures waiting == old(waiting)
//@ ensures checks == old(checks) + ite(isExt() || isCall(), 1, 0)
//@ ensures apart(t.callerFrames)
//@ ensures apart(t.extensionFrames)
//@ ensures apart2(t.callerFrames, t.extensionFrames)
//@ ensures !isExt() ==> kept(t.extensionFrames)
//@ ensures !isCall() ==> kept(t.callerFrames)
//@ ensures isExt() ==> grewLen(t.extensionFrames, extId())
//@ ensures isExt() ==> grewHas(t.extensionFrames, extId())
//@ ensures isExt() ==> grewOld(t.extensionFrames, extId())
//@ ensures isExt() ==> stackOf(lastOf(t.extensionFrames[extId()]).Stack, msg.Stack)
//@ ensures isExt() ==> (forall k string {has(lastOf(t.extensionFrames[extId()]).FieldValues, k)} :: (has(lastOf(t.extensionFrames[extId()]).FieldValues, k) <==> (exists j int {msg.Fields[j]} :: 0 <= j && j < len(msg.Fields) && msg.Fields[j].Name == k && captured(k, msg.Fields[j].Type, ""))))
//@ ensures isCall() ==> grewLen(t.callerFrames, callId())
//@ ensures isCall() ==> grewHas(t.callerFrames, callId())
//@ ensures isCall() ==> grewOld(t.callerFrames, callId())
//@ ensures isCall() ==> stackOf(lastOf(t.callerFrames[callId()]).Stack, msg.Stack)
//@ ensures isCall() && t.stableResults == nil ==> (forall k string {has(lastOf(t.callerFrames[callId()]).FieldValues, k)} :: (has(lastOf(t.callerFrames[callId()]).FieldValues, k) <==> (exists j int {msg.Fields[j]} :: 0 <= j && j < len(msg.Fields) && msg.Fields[j].Name == k && captured(k, msg.Fields[j].Type, ""))))
//@ ensures isCall() ==> (forall k string {has(lastOf(t.callerFrames[callId()]).FieldValues, k)} :: has(lastOf(t.callerFrames[callId()]).FieldValues, k) ==> (exists j int {msg.Fields[j]} :: 0 <= j && j < len(msg.Fields) && msg.Fields[j].Name == k && captured(k, msg.Fields[j].Type, "")))
