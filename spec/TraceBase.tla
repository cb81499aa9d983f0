----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of recorded sessions of the real code against a              *)
(* specification.  A trace file has one session per line; a session is a   *)
(* sequence of events.  Every session is a behaviour of its own: it starts *)
(* in Start(session) and each event must be allowed by Post, which gives   *)
(* the set of specification states that the event may lead to (a           *)
(* deterministic specification gives at most one).  An event no action of  *)
(* the specification allows puts the session in "reject".                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Post(_, _, _), Expect(_, _, _)

Trace == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES s, l, st, verdict
tvars == <<s, l, st, verdict>>

TInit == /\ s \in 1..Len(Trace)
         /\ l = 1
         /\ st = Start(Trace[s])
         /\ verdict = "run"
TNext ==
  /\ verdict = "run" /\ l <= Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l]
         ps == TLCEval(Post(Trace[s], st, e))
     IN IF ps # {}
        THEN \E n \in ps : st' = n /\ l' = l + 1 /\ UNCHANGED <<s, verdict>>
        ELSE /\ verdict' = "reject"
             /\ PrintT(<<"REJECT", Trace[s].id, l, ToJson(Expect(Trace[s], st, e))>>)
             /\ UNCHANGED <<s, l, st>>

\* the common shape: an event whose recorded output must equal an expected one
Ok(c, n) == IF c THEN {n} ELSE {}
=============================================================================
