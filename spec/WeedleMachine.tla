---------------------------- MODULE WeedleMachine ----------------------------
(***************************************************************************)
(* Small-step semantics: the parser as a state machine.                    *)
(*                                                                         *)
(* One transition per decision of the parser: enter a construct, match a   *)
(* token, return to the enclosing construct, or fail back to the nearest   *)
(* construct that has another way to go on.  The state is                  *)
(*   vpos    the position in the input,                                    *)
(*   vtree   the tree written so far, as one tape (and vleaf, its texts),  *)
(*   vstack  what is still to be done, with the position and the tape      *)
(*           lengths to go back to,                                        *)
(*   vmode   "call" vnode, "ret"urn or "fail".                             *)
(* There is no look-ahead and no memory of what was tried; undoing is      *)
(* cutting the tape back.                                                  *)
(*                                                                         *)
(* Checked on every word of the planned blocks:                            *)
(*   Refines      the final state is the outcome WeedlePeg!Eval defines    *)
(*                (which skips impossible alternatives and builds trees    *)
(*                bottom-up);                                              *)
(*   TapeIsImage  a successful tape reads as the consumed text             *)
(*                (WeedleTokens), so losslessness is a theorem of the      *)
(*                machine, not an assumption of the judge;                 *)
(*   Saved        every saved position lies before the current one, in the *)
(*                order of the stack, and every saved tape length inside   *)
(*                the tape: undoing never reaches into what an enclosing   *)
(*                construct has committed;                                 *)
(*   Termination  every run ends, in success or in the recoverable error   *)
(*                (there is no third kind of final state).                 *)
(***************************************************************************)
EXTENDS WeedleTokens, Json, IOUtils

MPlan == JsonDeserialize(IOEnv.WEEDLE_PLAN)
\* MPlan[j] = [n |-> root, pre, post, sym (each a byte sequence), len]

VARIABLES vroot, vtext, vpos, vtree, vleaf, vstack, vmode, vnode
mvars == <<vroot, vtext, vpos, vtree, vleaf, vstack, vmode, vnode>>

Frame(k, x, j) == [k |-> k, x |-> x, j |-> j, p |-> vpos, a |-> Len(vtree), l |-> Len(vleaf)]
Top  == vstack[Len(vstack)]
Pop  == SubSeq(vstack, 1, Len(vstack) - 1)
Push(f) == Append(vstack, f)
Swap(f) == Append(Pop, f)
\* the tape with everything written since frame f was made cut off, and then w
CutA(f, w) == SubSeq(vtree, 1, f.a) \o w
CutL(f)    == SubSeq(vleaf, 1, f.l)

\* abbreviations of successor states (position, tree, leaves, stack)
GoCall(x, p, a, l, st) == vmode' = "call" /\ vnode' = x /\ vpos' = p /\ vtree' = a /\ vleaf' = l /\ vstack' = st
GoRet(p, a, l, st)     == vmode' = "ret" /\ vnode' = 0 /\ vpos' = p /\ vtree' = a /\ vleaf' = l /\ vstack' = st
GoFail(st)             == vmode' = "fail" /\ vnode' = 0 /\ UNCHANGED <<vpos, vtree, vleaf>> /\ vstack' = st
Same == UNCHANGED <<vroot, vtext>>

Init == /\ \E j \in 1..Len(MPlan) :
             /\ vroot = MPlan[j].n
             /\ \E i \in 0..(Pow[Len(MPlan[j].sym), MPlan[j].len] - 1) : vtext = Word(MPlan[j], i)
        /\ vpos = 1 /\ vtree = <<>> /\ vleaf = <<>> /\ vstack = <<>>
        /\ vmode = "call" /\ vnode = Node0(vroot)

\* ---- entering a construct ----------------------------------------------------
Op == NT[vnode].op
Calling(o) == vmode = "call" /\ Op = o
Token ==
  /\ vmode = "call" /\ Op \in {"term", "lex"}
  /\ \E r \in {IF Op = "term" THEN EvalTerm(vtext, NT[vnode], vpos) ELSE EvalLex(vtext, NT[vnode].n, vpos)} :
       IF r.p = 0 THEN GoFail(vstack) ELSE GoRet(r.p, vtree \o r.a, vleaf \o r.l, vstack)
  /\ Same
EnterRef == /\ Calling("ref") /\ GoCall(Root[NT[vnode].ix], vpos, vtree, vleaf, vstack) /\ Same
EnterNode ==
  /\ Calling("node")
  /\ GoCall(NT[vnode].f[1], vpos, vtree \o NT[vnode].nn, vleaf, Push(Frame("seq", vnode, 1)))
  /\ Same
EnterOpt == /\ Calling("opt") /\ GoCall(NT[vnode].e, vpos, vtree, vleaf, Push(Frame("opt", vnode, 0))) /\ Same
EnterAlt ==
  /\ Calling("alt")
  /\ GoCall(NT[vnode].v[1], vpos, Append(vtree, NT[vnode].t[1]), vleaf, Push(Frame("alt", vnode, 1)))
  /\ Same
\* the frames of lists are saved after their opening mark
EnterMany ==
  /\ Calling("many")
  /\ GoCall(NT[vnode].e, vpos, Append(vtree, "["), vleaf,
            Push([Frame("many", vnode, 0) EXCEPT !.a = Len(vtree) + 1]))
  /\ Same
EnterSep ==
  /\ Calling("sep")
  /\ GoCall(NT[vnode].e, vpos, vtree \o <<NT[vnode].n, "[">>, vleaf,
            Push([Frame("first", vnode, 0) EXCEPT !.a = Len(vtree) + 2]))
  /\ Same
EnterGuard == /\ Calling("guard") /\ GoCall(NT[vnode].o, vpos, vtree, vleaf, Push(Frame("mark", vnode, 0))) /\ Same

\* ---- returning into a construct ------------------------------------------------
Ret(k) == vmode = "ret" /\ vstack # <<>> /\ Top.k = k
E == NT[Top.x]
NextField ==
  /\ Ret("seq")
  /\ IF Top.j < Len(E.f)
     THEN GoCall(E.f[Top.j + 1], vpos, vtree, vleaf, Swap([Top EXCEPT !.j = Top.j + 1]))
     ELSE GoRet(vpos, vtree, vleaf, Pop)
  /\ Same
Commit == /\ (Ret("opt") \/ Ret("alt") \/ Ret("default")) /\ GoRet(vpos, vtree, vleaf, Pop) /\ Same
NextItem ==   \* an item that consumed nothing can be repeated for ever: an error
  /\ Ret("many")
  /\ IF vpos = Top.p THEN GoFail(Pop)
     ELSE GoCall(E.e, vpos, vtree, vleaf, Swap(Frame("many", Top.x, 0)))
  /\ Same
TrySeparator ==
  /\ (Ret("first") \/ Ret("item"))
  /\ IF Top.k = "first" /\ vpos = Top.p THEN GoFail(Pop)
     ELSE GoCall(E.s, vpos, vtree, vleaf, Swap(Frame("sep", Top.x, 0)))
  /\ Same
AfterSeparator ==   \* separators are not part of the tree
  /\ Ret("sep")
  /\ GoCall(E.e, vpos, CutA(Top, <<>>), CutL(Top), Swap([Top EXCEPT !.k = "item"]))
  /\ Same
TrailingSeparator ==
  /\ Ret("trail") /\ GoRet(vpos, CutA(Top, <<"]", E.sn>>), CutL(Top), Pop) /\ Same
Marked ==
  /\ Ret("mark")
  /\ GoCall(E.m[1], vpos, vtree, vleaf, Swap([Frame("guarded", Top.x, 1) EXCEPT !.p = Top.p]))
  /\ Same
NextGuarded ==
  /\ (Ret("guarded") \/ Ret("plain"))
  /\ IF Top.j < Len(E.m)
     THEN GoCall(E.m[Top.j + 1], vpos, vtree, vleaf, Swap([Top EXCEPT !.j = Top.j + 1]))
     ELSE IF Top.k = "plain" THEN GoRet(vpos, Append(vtree, "-"), vleaf, Pop)
     ELSE GoCall(E.d, vpos, vtree, vleaf, Swap(Frame("default", Top.x, 0)))
  /\ Same

\* ---- failing into a construct ----------------------------------------------------
Failed(k) == vmode = "fail" /\ vstack # <<>> /\ Top.k = k
GiveUp == /\ (Failed("seq") \/ Failed("guarded") \/ Failed("plain")) /\ GoFail(Pop) /\ Same
NextAlternative ==
  /\ Failed("alt")
  /\ IF Top.j < Len(E.v)
     THEN GoCall(E.v[Top.j + 1], Top.p, CutA(Top, <<E.t[Top.j + 1]>>), CutL(Top), Swap([Top EXCEPT !.j = Top.j + 1]))
     ELSE GoFail(Pop)
  /\ Same
NotThere == /\ (Failed("opt") \/ Failed("default")) /\ GoRet(Top.p, CutA(Top, <<"-">>), CutL(Top), Pop) /\ Same
EndOfItems == /\ Failed("many") /\ GoRet(Top.p, CutA(Top, <<"]">>), CutL(Top), Pop) /\ Same
NoFirstItem ==
  /\ Failed("first")
  /\ IF E.min > 0 THEN GoFail(Pop) ELSE GoRet(Top.p, CutA(Top, <<"]", E.sn>>), CutL(Top), Pop)
  /\ Same
EndOfList ==
  /\ (Failed("sep") \/ Failed("item"))
  /\ IF E.trail THEN GoCall(E.s, Top.p, CutA(Top, <<>>), CutL(Top), Swap([Top EXCEPT !.k = "trail"]))
     ELSE GoRet(Top.p, CutA(Top, <<"]", E.sn>>), CutL(Top), Pop)
  /\ Same
NoTrailing == /\ Failed("trail") /\ GoRet(Top.p, CutA(Top, <<"]", E.sn>>), CutL(Top), Pop) /\ Same
Unmarked ==
  /\ Failed("mark")
  /\ GoCall(E.m[1], Top.p, CutA(Top, <<"-">>), CutL(Top), Swap([Top EXCEPT !.k = "plain", !.j = 1]))
  /\ Same

\* ---- the end ---------------------------------------------------------------------
Final == vstack = <<>> /\ vmode \in {"ret", "fail"}
Halted == vmode = "halt"
Emit == /\ Final
        /\ PrintT(ToJson([n |-> vroot, s |-> vtext, ok |-> vmode = "ret"]))
        /\ vmode' = "halt"
        /\ UNCHANGED <<vroot, vtext, vpos, vtree, vleaf, vstack, vnode>>

MNext ==
  \/ Token \/ EnterRef \/ EnterNode \/ EnterOpt \/ EnterAlt \/ EnterMany \/ EnterSep \/ EnterGuard
  \/ NextField \/ Commit \/ NextItem \/ TrySeparator \/ AfterSeparator \/ TrailingSeparator \/ Marked \/ NextGuarded
  \/ GiveUp \/ NextAlternative \/ NotThere \/ EndOfItems \/ NoFirstItem \/ EndOfList \/ NoTrailing \/ Unmarked
  \/ Emit

\* ---- what is checked ---------------------------------------------------------------
Refines ==
  Final => LET r == Eval(vtext, Node0(vroot), 1)
           IN IF vmode = "fail" THEN r.p = 0
              ELSE r.p = vpos /\ r.a = vtree /\ r.l = vleaf
TapeIsImage ==
  Final /\ vmode = "ret" => Image(vroot, vtext, [a |-> vtree, l |-> vleaf], 1, Sp(vtext, vpos))
Saved ==
  /\ \A j \in 1..Len(vstack) :
       /\ vstack[j].p <= vpos /\ vstack[j].a <= Len(vtree) /\ vstack[j].l <= Len(vleaf)
       /\ j > 1 => /\ vstack[j - 1].p <= vstack[j].p
                   /\ vstack[j - 1].a <= vstack[j].a
                   /\ vstack[j - 1].l <= vstack[j].l
  /\ vpos >= 1 /\ vpos <= Len(vtext) + 1
\* exactly one action is enabled in every state that has not halted
NoDeadlock == Halted \/ ENABLED MNext
Fairness == WF_mvars(MNext)
MSpec == Init /\ [][MNext]_mvars /\ Fairness
Termination == <>Halted
=============================================================================
