--------------------------- MODULE WeedleSession ---------------------------
(***************************************************************************)
(* Histories of calls.  The library is modelled as what its callers may    *)
(* assume: there is a function from calls (entry point, text) to outcomes, *)
(* fixed once and for all, and every call returns that function's value,   *)
(* from whichever thread and buffer, after whatever other calls.           *)
(*                                                                         *)
(* The recorded history is consumed step by step; the hidden function is   *)
(* learnt from its first records, which were made one by one in fresh      *)
(* processes (c = 0), and every further outcome has to agree with it.      *)
(* A record stands for c >= 1 consecutive equal outcomes of a call.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES vpos, vknown

Trace == ndJsonDeserialize(IOEnv.WEEDLE_TRACE)

Init == vpos = 0 /\ vknown = <<>>
Result(r) == [k |-> r.k, p |-> r.p, a |-> r.a, l |-> r.l]
Fresh(r) == r.c = 0
Next ==
  /\ vpos < Len(Trace)
  /\ \E r \in {Trace[vpos + 1]} :
       IF r.id \in DOMAIN vknown
       THEN /\ IF vknown[r.id] = Result(r) THEN TRUE
               ELSE PrintT(ToJson([bad |-> vpos + 1, want |-> vknown[r.id]]))
            /\ UNCHANGED vknown
       ELSE \* only a fresh process may define an outcome
            /\ Assert(Fresh(r), "call without a fresh outcome")
            /\ vknown' = (r.id :> Result(r)) @@ vknown
  /\ vpos' = vpos + 1
  /\ IF vpos' = Len(Trace) THEN PrintT(ToJson([consumed |-> vpos'])) ELSE TRUE
View == vpos
=============================================================================
