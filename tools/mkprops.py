#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Captured messages survive the wire unchanged",
 "Every message the instrumented process emits (point hit, state snapshot, panic, error) is decoded by the collector to the same point id, time, text, stack frames and field tree, and is never rejected. Only the documented limits change a value: strings, byte strings, slices and maps are cut at the configured length, nesting at the configured depth, and a reference already visited in the same snapshot is reported as a cycle. Encoding terminates for every value, including self-referential ones.",
 ["inputs"], "for every id, time, stack and every Go value a program can hold",
 "tests encode a handful of values; the number, string and framing code must be inverse on all of them",
 ["lens/astclient.go", "lens/astsrv.go"],
 [("variable-length and zigzag integer coding, fixed-width and float coding", "lens/astclient.go write*, lens/astsrv.go read*"),
  ("stack frames with a string table", "writeStackFrames / readStackFrames"),
  ("value streaming by kind tag", "streamField, streamValueSlice / readValue")])
prop("C02", "The collector survives arbitrary message bytes",
 "For every byte sequence sent to a collector endpoint, decoding returns either a message or an error: it never panics, exhausts the stack or reserves memory out of proportion to the input actually received (at most the configured maximum field length, or a fixed small cap, ahead of it). A truncated message, or one with an unknown value kind, a slice or container longer than the configured maximum, or an out-of-range stack table index, is reported as an error and nothing is delivered to the point handler.",
 ["inputs"], "for every byte string and every point at which it ends",
 "the input space is all byte strings; a single unchecked length crashes the collector or exhausts memory",
 ["lens/astsrv.go"],
 [("length and count checks before allocation", "lensReader.readString/readBytes/read*Slice/readStackFrames/readFields/readValue")])
prop("C03", "Stable values are exactly those every baseline run agreed on",
 "When the baseline is run several times, a captured field value, call frame, or panic is kept as stable only if every repetition observed it identically; anything on which two repetitions disagree is dropped, and nothing on which all agree is dropped. The result does not depend on the order of repetitions or of map iteration.",
 ["inputs", "histories"], "for every set of repeated results",
 "needs all combinations of agreeing and disagreeing repetitions, nested at any depth",
 ["lens/engine.go", "lens/types.go"],
 [("pairwise intersection of field trees", "stableFieldValues"), ("result intersection", "testResultStableFields, computeStableFrames, intersectPanics")])
prop("C04", "The before/after comparison reports every difference and nothing else",
 "Comparing the results of a test before and after the update counts every field captured before exactly once, as same or as different, against the call with the same project call stack and the same occurrence number after the update; identical results give no difference. Panics are reported exactly when their message multisets differ, a test that passed before and fails after is flagged as a regression, a changed call time is reported exactly when the interval moved by more than the configured factor, totals are the sums over the tests, and a report entry exists exactly for the tests that ran on both sides. (Field names are identifiers or indexes, without dots.)",
 ["inputs"], "for every pair of recorded results",
 "a missed or invented difference shows only for particular shapes of results",
 ["lens/engine.go", "lens/types.go"],
 [("result comparison", "CompareTestResults and its helpers"), ("field diff", "DiffValues, FlattenFieldValues"), ("frame pairing", "StackFramesKey, ProjectFrames")])
prop("C05", "Stored test results load back unchanged",
 "Serialising a test result and loading it again yields the same test identity, caller and extension frames (field trees, stacks, times), panics, counters and failure flag, whatever repeated content the encoder shares between them. Two different field trees never receive the same content key, so sharing never replaces one value by another.",
 ["inputs"], "for every test result",
 "the deduplicating encoder goes wrong only for particular repetitions and key collisions",
 ["lens/types.go"],
 [("deduplicating encoder and decoder", "TestResult.MarshalMsgpack / UnmarshalMsgpack"), ("content keys", "FieldValue.ID, FieldValues.ID")])
prop("C06", "Storage behaves as one map from key to bytes",
 "For every sequence of save, load, delete and list operations on any storage (in memory, on disk, or a key-prefixed view of either), a load returns exactly the bytes last saved under that key (including empty and very large values) or reports the key missing, listing returns exactly the live keys, and operations on one key never affect another. Callers can modify a slice they saved or loaded without changing what is stored.",
 ["histories", "inputs"], "for every operation sequence, key and value",
 "depends on operation history, value size thresholds and key/value content",
 ["lens/storage.go"],
 [("in-memory storage", "memStorage"), ("on-disk storage with split values", "badgerStorage"), ("prefixed view", "KeyPrefixStorage")])
prop("C07", "Module updates are selected from the go.mod/go.work files exactly",
 "The module changes between two go.mod files are exactly the modules required in both with different versions, each with its true old and new version and the indirect mark of the new file; for two workspaces they are the changes of each member module present in both. Unchanged, added and removed modules are never reported and no changed module is lost. A version lookup returns the version the file requires for that module or reports it missing, and the member modules of a workspace are exactly those its use entries name (recursive entries expanded).",
 ["inputs"], "for every pair of module files",
 "every combination of added, removed and changed requirements, in every position and with every name shape, has to be right",
 ["lens/module.go"],
 [("module file diff", "DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles"), ("version lookup", "FindModuleVersionInGoMod"), ("dependency parsing", "parseProjectDeps")])
prop("C08", "Changed lines are marked exactly",
 "For every pair of old and new function bodies, the change bitmap has one entry per line of the described version, equal bodies give no marked line, and the unmarked lines are exactly those the line diff keeps in common, except that lines within the given radius of a pure insertion are marked in addition. The lines of one version left unmarked with radius zero always appear, in order, in the other version. A function of a module is reported as changed exactly when it exists in both versions and its code (comments aside) differs.",
 ["inputs"], "for every pair of texts and every radius",
 "off-by-one errors at the first and last line or at adjacent changes show only on particular texts",
 ["lens/module.go"],
 [("line diff to bitmap", "computeChangeLineBitmap"), ("changed functions", "analyzeModuleChangesInternal, extractFunctions, FindModulePathInCache")])
prop("C09", "Callers of a change are found exactly along the call graph",
 "The search upwards from a function visits exactly the nodes with a path of calls to it that passes through no root (main, init or test function) on the way, each exactly once, for every graph shape including cycles; an error of the visitor ends it and is returned. A project function is reported as caller of a changed module function, once and with exactly the changes it can reach, when it has such a path, lies in the project and is neither a root nor in a generated file; a test is reported for a function exactly when go test would run it and it has such a path.",
 ["inputs"], "for every call graph and every set of targets",
 "tests use small acyclic graphs; correctness is about all paths and cycles",
 ["lens/static.go"],
 [("reverse depth-first search", "reverseDFS"), ("callers of changes and tests of callers", "CallerStaticAnalysis, TestStaticAnalysis, isGoTestFunction")])
prop("C10", "Instrumentation point ids are unique and never wrap",
 "Every instrumentation point inserted through one modifier gets an id that no other point of that modifier has and that is never zero, whatever goroutines insert points at the same time and up to the largest id; when ids are exhausted an error is returned instead of a reused id. Every return statement of an instrumented function that is not inside a function literal (the end of the body when it has none), however deeply nested in other statements, gets exactly one state point directly before it; the ids reported are exactly those written into the source, asking for the same function again adds nothing, and the instrumented source still compiles. Merging return information keeps every distinct return line exactly once, in order, with the sum of its call counts.",
 ["inputs", "histories"], "for every sequence of insertions, up to the numeric limit",
 "exhaustion and wrap-around happen after four billion insertions",
 ["lens/asttweak.go", "lens/static.go"],
 [("id allocation", "ASTModifier.nextPointId"), ("return instrumentation", "ASTModifier.InjectFuncPointReturnStates, injectPoint"), ("return info merge", "mergeReturnInfos")])
prop("C11", "Modified files are restored byte for byte",
"For every sequence of source modifications made through a modifier (points, inserted lines, injected clients, commits, in any order, repeated or concurrent on different files, also when some of them fail), restoring without a reported failure puts every file that was there back to its original bytes and mode, through symbolic links too, and removes every file the modifier added; a failure to restore, or to clean the build cache, is reported. Until a file is restored its original bytes are kept beside it, and a backup left by an interrupted run is neither changed nor mistaken for the original. An update analysis leaves every go.mod, go.sum, go.work and go.work.sum of the project as it was, whether it succeeds or fails.",
["histories", "inputs"], "for every sequence of modify, commit and restore",
"depends on the history of modifications, on failures in between and on files left by earlier runs",
["lens/asttweak.go", "lens/file.go", "lens/astexec.go"],
[("backup, commit and restore", "ASTModifier backupOrigFile / loadParsedFileNode / InsertFuncLines / InjectASTClient / Restore"), ("file copy", "CopyFile, backupFile, replaceFile, backupFiles"), ("module files", "RunModuleUpdateAnalysis")])
prop("C12", "Only a consistent configuration is accepted",
 "A configuration is accepted exactly when the project directory and at least one update source (module, module list, go.mod or go.work, never both files) are given, every module argument has a non-empty name (with a dot or slash) and version, the named files are readable, every number lies in its documented range, every mutation setting is one of the documented values and every report path given is writable; preparing an accepted configuration again is an error. An accepted configuration has the absolute project directory and the target modules in the given order, split at the first @. A rejected one reports an error and is left so that correcting it gives the same result as a fresh one. Preparing changes no value the user set and no file of the user.",
 ["inputs"], "for every combination of settings",
 "the settings form a large product space; tests cover a few points of it",
 ["lens/engine.go"],
 [("validation and defaulting", "Config.Prepare"), ("module argument parsing", "parseTargetModule")])
prop("C13", "Paths are contained, and trimmed, by whole components",
 "A file is treated as inside a directory exactly when its cleaned path lies under it component by component, never because of a shared name prefix and never through a parent reference. Stack file names are shortened only by removing a directory that really contains them, and the temporary module and build environment holds a copy of each original directory, the module cache at its own place inside GOPATH when it is contained there; it is removed afterwards, also when copying fails.",
 ["inputs"], "for every pair of paths",
 "sibling names, trailing separators and dot segments are the cases that break prefix tests",
 ["lens/file.go", "lens/astexec.go", "lens/engine.go"],
 [("containment test", "fileWithinDir"), ("stack file trimming", "trimStackFile"), ("temporary environment", "setupTempEnvironment")])
prop("C14", "Go versions are ordered as Go orders them",
 "Comparing Go versions and choosing the older of two agree with Go's own version order for every valid version string: releases, patch releases, release candidates and betas, numeric parts compared as numbers, a pre-release before its release (a version without patch counts as patch zero, an empty version as no constraint). A module counts as too old exactly when its version is below the minimum, and filtering partitions the functions: each is either kept or counted as skipped, never both or neither. The version of a project is the oldest over its module files.",
 ["inputs"], "for every pair of version strings and every module list",
 "version strings with pre-release parts and unequal lengths break naive comparisons",
 ["lens/module.go", "lens/engine.go"],
 [("version comparison", "compareGoVersions and its callers")])
prop("C15", "Report figures agree with the recorded results",
 "Every count, percentage and list in a report (tests, callers, changed fields, panics, regressions) is the value computed from the underlying results, a test is reported as regressed exactly when it failed only after the update, the same results always give the same report, and rendering from the saved report gives the same figures as rendering directly.",
 ["inputs"], "for every set of results",
 "aggregation mistakes show only for particular mixtures of results",
 ["lens/report.go", "lens/engine.go"],
 [("report aggregation", "PrepareReportData, BuildReportMap, rootModule"), ("charts", "writeReportCharts, RenderReportChartsFromJson, renderChartsToPainter")])
prop("C16", "The monitor records every delivered event exactly once",
 "For every sequence of point, state and panic messages delivered during a test, each message for a known point is recorded exactly once under the function it belongs to, messages for unknown points are ignored without effect, and building the test result afterwards always completes and contains exactly the recorded events.",
 ["histories", "schedules"], "for every sequence of messages",
 "the outcome depends on message order and on unexpected ids arriving late",
 ["lens/astexec.go"],
 [("event ledger", "HandleFuncPoint, HandleFuncPointState, HandleFuncPointPanic, makeTestResult"), ("field capture", "collectFields, shouldCaptureField")])
prop("C17", "Child processes get exactly the intended environment",
 "The environment given to a child process has, for every explicitly passed variable, exactly the passed value, whatever was inherited; every other inherited variable is passed on unaltered, except that dynamic-linker variables (LD_*) are removed. GOPATH and GOMODCACHE are passed exactly when they were given.",
 ["inputs"], "for every inherited environment and every override list",
 "duplicates, empty values and malformed entries appear only in particular environments",
 ["lens/exec.go", "lens/engine.go"],
 [("environment merge", "mergeSafeEnv, GoEnv")])
prop("C18", "Text insertion into a function adds lines and changes nothing else",
 "Inserting text into a source function offers the visitor the code lines of the body in order, each with its own text and its line offset from the start of the function, until it says stop; puts each text the visitor returns, with the indentation of the line, on a line of its own directly above that line, and leaves every original line of the file in place and in order. A line that starts inside a string or comment is never offered, so inserting comments never changes the program, whatever line directives or line endings the file has. An error is reported, and the file left as it was, when the function or its body does not exist.",
 ["inputs"], "for every source file and every insertion point",
 "positions at the first or last line and functions sharing a name prefix break insertion",
 ["lens/asttweak.go"],
 [("line insertion", "InsertFuncLines")])
prop("C19", "Captured output keeps exactly the most recent text",
 "For every sequence of writes, a rolling output buffer holds everything written while that fits its limit, and otherwise a marker followed by exactly the most recent bytes (half the limit right after a cut, growing again with later writes), without keeping the caller's slice; a writer copying to several destinations delivers every byte to each of them in order, reports a failing or short destination and closes each once; limiting text to a number of lines keeps exactly the first or last lines, whole.",
 ["inputs", "histories"], "for every sequence of writes and every capacity",
 "wrap-around depends on the exact history of write sizes",
 ["lens/util_io.go", "lens/util.go"],
 [("rolling buffer", "util_io.go"), ("line limiting", "limitStringLines")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
