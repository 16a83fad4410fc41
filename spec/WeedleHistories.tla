-------------------------- MODULE WeedleHistories --------------------------
(***************************************************************************)
(* The environment's side of WeedleSession: sequences of operations of     *)
(* several threads.  Each thread owns reusable buffers; an operation puts  *)
(* a text into a buffer (0: a new one), in place of what was there, and    *)
(* calls the library n times.  Buffers carry their history, so that the    *)
(* actions can aim at the situations in which state could leak: the same   *)
(* address with another text of the same length, the same text at another  *)
(* address, a repeated failure, a call after a failure, another thread,    *)
(* a text in the middle of a larger one (places 100, 101, ...: at which    *)
(* offset, and before what).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cfg     == JsonDeserialize(IOEnv.WEEDLE_PLAN)
\* per call: its class (twins: same entry point and same length, other text)
Calls   == Len(Cfg.twin)
Threads == Cfg.threads
Buffers == Cfg.buffers
MaxOps  == Cfg.ops
Places  == 100..(99 + Cfg.places)

VARIABLES vhist, vbuf, vlast
Init == /\ vhist = <<>>
        /\ vbuf = [t \in 0..(Threads - 1) |-> [b \in 1..Buffers |-> 0]]
        /\ vlast = 0
Do(t, b, n, c) ==
  /\ Len(vhist) < MaxOps
  /\ vhist' = Append(vhist, <<t, b, n, c>>)
  /\ vbuf' = IF b \notin 1..Buffers THEN vbuf ELSE [vbuf EXCEPT ![t][b] = c]
  /\ vlast' = c
Thr == 0..(Threads - 1)
AnyCall   == \E t \in Thr, b \in 0..Buffers, c \in 1..Calls : Do(t, b, 1, c)
Again     == vlast # 0 /\ \E t \in Thr, b \in 0..Buffers, n \in {1, 2, 5} : Do(t, b, n, vlast)
SamePlace == \E t \in Thr, b \in 1..Buffers :
               vbuf[t][b] # 0 /\ \E c \in {Cfg.twin[vbuf[t][b]]} : Do(t, b, 1, c)
Burst     == \E t \in Thr, c \in 1..Calls, n \in {17, 70} : Do(t, 0, n, c)
Placed    == \E t \in Thr, p \in Places, c \in 1..Calls : Do(t, p, 1, c)
PlaceLast == vlast # 0 /\ \E t \in Thr, p \in Places : Do(t, p, 1, vlast)
Emit == /\ Len(vhist) = MaxOps
        /\ PrintT(ToJson([h |-> vhist]))
        /\ vhist' = Append(vhist, <<>>) /\ UNCHANGED <<vbuf, vlast>>
Next == AnyCall \/ Again \/ SamePlace \/ Burst \/ Placed \/ PlaceLast \/ Emit
=============================================================================
