------------------------------- MODULE T_Store -------------------------------
(* Sessions over stored artefacts (C34): each file is absent, holds an      *)
(* artefact whole, or holds part of one.  Public inputs are plain bytes:    *)
(* what is in the file is what is read.                                     *)
EXTENDS TraceBase
Raw(t) == t.kind = "public"
None == [k |-> "none", o |-> 0, b |-> <<>>]
MyStart(t) == [f |-> None, g |-> None]
Content(t, o) == IF Raw(t) THEN t.bytes[o] ELSE <<>>
Get(t, c, e) ==
  IF c.k = "none" THEN e.res = "err"
  ELSE IF Raw(t) THEN e.res = "ok" /\ e.out = c.b
  ELSE IF c.k = "part" THEN e.res = "err"
  ELSE e.res = "ok" /\ e.o = c.o
MyPost(t, st0, e) ==
  CASE e.op = "put" -> Ok(e.res = "ok", [st0 EXCEPT ![e.f] = [k |-> "whole", o |-> e.o, b |-> Content(t, e.o)]])
    \* the file cannot be created, or the device is full
    [] e.op = "badput" -> Ok(e.res = "err", st0)
    [] e.op = "cut" -> Ok(TRUE, [st0 EXCEPT ![e.f] = [k |-> "part", o |-> @.o, b |-> IF Raw(t) THEN SubSeq(@.b, 1, e.n) ELSE <<>>]])
    [] e.op = "rm" -> Ok(TRUE, [st0 EXCEPT ![e.f] = None])
    [] e.op = "get" -> Ok(Get(t, st0[e.f], e), st0)
    \* every proper prefix of the artefact: how many, and how many were reported as errors
    [] e.op = "sweep" -> Ok(e.errs = e.cuts, st0)
    \* the artefacts read back prove and verify
    [] e.op = "use" -> Ok(e.out = 1, st0)
    \* opening a file: one that is missing is created empty, one that exists keeps its bytes
    [] e.op = "open" -> Ok(IF e.dir = 1 THEN e.res = "err" ELSE e.res = "ok" /\ e.out = e.before /\ e.after = e.before, st0)
    [] OTHER -> {}
MyExpect(t, st0, e) == [state |-> st0]
=============================================================================
