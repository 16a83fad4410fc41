---------------------------- MODULE WeedleDerive ----------------------------
(***************************************************************************)
(* The same grammar read generatively: a leftmost-derivation machine that  *)
(* writes sentences together with their syntax tree.  It knows nothing     *)
(* about ordered choice, backtracking or lookahead, so the theorem         *)
(*     WeedlePeg parses every derived sentence into its derived tree       *)
(* (checked on every emitted sentence by WeedleTrace, and here by the      *)
(* invariant Completeness) is what "every sentence of the documented       *)
(* grammar is accepted with its structure" means.                          *)
(*                                                                         *)
(* Every production has a default expansion; each other choice costs one   *)
(* unit of a budget.  With budget k the reachable completed states are     *)
(* exactly the sentences that differ from the default in at most k         *)
(* choices: exhaustive k-wise coverage of the grammar's choice points.     *)
(***************************************************************************)
EXTENDS WeedlePeg, Json, IOUtils

\* roots and budgets: a sequence of <<production name, budget>>
Plan == JsonDeserialize(IOEnv.WEEDLE_PLAN)

\* ---- defaults ------------------------------------------------------------
DefaultAlts == [Type |-> "Single", SingleType |-> "NonAny", NonAnyType |-> "Integer",
  IntegerType |-> "Long", FloatingPointType |-> "Double", ReturnType |-> "Undefined",
  ConstType |-> "Integer", ConstValue |-> "Integer", DefaultValue |-> "Integer",
  IntegerLit |-> "Dec", FloatLit |-> "Value", Definition |-> "Interface",
  InterfaceMember |-> "Attribute", MixinMember |-> "Attribute",
  NamespaceMember |-> "Attribute", ExtendedAttribute |-> "NoArgs",
  RecordKeyType |-> "DOM"]
DefAlt == [x \in 1..Len(NT) |->
  LET e == NT[x] IN
  IF e.op # "alt" THEN 0
  ELSE IF e.n \in DOMAIN DefaultAlts
       THEN CHOOSE k \in 1..Len(e.t) : e.t[k] = e.n \o "::" \o DefaultAlts[e.n]
  ELSE 1]
\* default number of items of a separated list, by the name of the item
DefCount(e) == IF NT[e.e].op = "ref" /\ NT[e.e].n = "Argument" THEN 0
               ELSE IF NT[e.e].op = "ref" /\ NT[e.e].n = "UnionMemberType" THEN 2 ELSE 1

\* ---- work items: node ids, and codes for what is written after a node ------
TokenOnly == 100000       \* + node id: write the token, not the tree
EndList   == -1           \* "]"
Absent    == -2           \* "-"
EndSep(sn) == -10 - TermIx[sn]   \* "]" and the separator

Repeat[x \in Any, n \in Any] == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat[x, n - 1]
SepItems[e \in Any, n \in Any] ==
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<e.e>>
  ELSE <<e.e, TokenOnly + e.s>> \o SepItems[e, n - 1]

\* the options of choice node x within budget b: [push, ast, cost]
Option(p, a, c) == [push |-> p, ast |-> a, cost |-> c]
Options(x, b) ==
  LET e == NT[x] IN
  CASE e.op = "opt" -> {Option(<<>>, <<"-">>, 0), Option(<<e.e>>, <<>>, 1)}
    [] e.op = "alt" -> {Option(<<e.v[k]>>, <<e.t[k]>>, IF k = DefAlt[x] THEN 0 ELSE 1)
                          : k \in 1..Len(e.v)}
    [] e.op = "many" -> {Option(Repeat[e.e, n] \o <<EndList>>, <<"[">>,
                                IF n = 1 THEN 0 ELSE IF n = 0 THEN 1 ELSE n - 1)
                           : n \in 0..(IF b > 7 THEN 8 ELSE b + 1)}
    [] e.op = "sep" ->
         LET d == DefCount(e)
             Cost(n, t) == (IF n = d THEN 0 ELSE IF n > d THEN n - d ELSE 1) + t
         IN UNION {{Option(SepItems[e, n]
                          \o (IF t = 1 THEN <<TokenOnly + e.s>> ELSE <<>>)
                          \o <<EndSep(e.sn)>>, <<e.n, "[">>, Cost(n, t))
                     : t \in IF e.trail THEN {0, 1} ELSE {0}}
                   : n \in e.min..(IF b + d > 8 THEN 8 ELSE b + d)}
    [] e.op = "guard" ->
         {Option(e.m \o <<Absent>>, <<"-">>, 0),
          Option(<<e.o>> \o e.m \o <<Absent>>, <<>>, 1),
          Option(<<e.o>> \o e.m \o <<e.d>>, <<>>, 2)}
IsChoice(op) == op \in {"opt", "alt", "many", "sep", "guard"}
DefOption == [x \in 1..Len(NT) |->
                IF IsChoice(NT[x].op) THEN CHOOSE o \in Options(x, 0) : o.cost = 0 ELSE <<>>]

\* ---- deterministic steps, up to the next choice that is still open ---------
Norm[k \in Any, t \in Any, a \in Any, b \in Any] ==   \* stack, tokens, tree, budget
  IF k = <<>> THEN [k |-> k, t |-> t, a |-> a]
  ELSE LET h == Head(k)
           r == Tail(k)
       IN IF h < 0 THEN
            Norm[r, t, a \o (IF h = EndList THEN <<"]">> ELSE IF h = Absent THEN <<"-">>
                             ELSE <<"]", Terms[-10 - h][1]>>), b]
          ELSE IF h > TokenOnly THEN Norm[r, Append(t, TermText[NT[h - TokenOnly].n]), a, b]
          ELSE LET e == NT[h] IN
            CASE e.op = "term" -> Norm[r, Append(t, TermText[e.n]), Append(a, e.n), b]
              [] e.op = "lex"  -> Norm[r, Append(t, "@" \o e.n), a \o <<e.n, "@">>, b]
              [] e.op = "ref"  -> Norm[<<Root[e.ix]>> \o r, t, a, b]
              [] e.op = "node" -> Norm[e.f \o r, t, a \o e.nn, b]
              [] OTHER -> IF b > 0 THEN [k |-> k, t |-> t, a |-> a]
                          ELSE LET o == DefOption[h]
                               IN Norm[o.push \o r, t, a \o o.ast, b]

\* ---- sentences whose reading is fixed by a documented preference -----------
\* (an attribute list before a type goes to the argument; a record key that is
\* one of the three string types is reported as that key kind)
BadPairs == {<<"RecordKeyType::NonAny", "NonAnyType::" \o n>>
               : n \in {"ByteString", "DOMString", "USVString"}}
ArgAttr == <<"SingleArgument", "-", "-", "AttributedType", "Bracketed">>
Preferred(a) ==
  /\ \A i \in 1..(Len(a) - 1) :
       a[i] = "RecordKeyType::NonAny" => <<a[i], a[i + 1]>> \notin BadPairs
  /\ \A i \in 1..(Len(a) - 4) :
       a[i] = "SingleArgument" => SubSeq(a, i, i + 4) # ArgAttr

\* ---- the machine -----------------------------------------------------------
VARIABLES vroot, vstate, vbud
dvars == <<vroot, vstate, vbud>>
Init == \E j \in 1..Len(Plan) :
          /\ vroot = Plan[j][1]
          /\ vbud = Plan[j][2]
          /\ vstate = Norm[<<Node0(Plan[j][1])>>, <<>>, <<>>, Plan[j][2]]
Choose == /\ vstate.k # <<>>
          /\ \E o \in Options(Head(vstate.k), vbud) :
               /\ o.cost <= vbud
               /\ vbud' = vbud - o.cost
               /\ vstate' = Norm[o.push \o Tail(vstate.k), vstate.t, vstate.a \o o.ast,
                                 vbud - o.cost]
               /\ vroot' = vroot
Done == vstate.k = <<>> /\ vbud >= 0
Emit == /\ Done
        /\ IF Preferred(vstate.a)
           THEN PrintT(ToJson([n |-> vroot, t |-> vstate.t, a |-> vstate.a]))
           ELSE TRUE
        /\ vbud' = -1 /\ vstate' = [k |-> <<>>, t |-> <<>>, a |-> <<>>] /\ vroot' = vroot
Next == Choose \/ Emit

\* ---- the theorem, with one blank between tokens and fixed lexemes -----------
Lexeme(t) ==
  CASE t = "@Identifier" -> Bytes("foo") [] t = "@StringLit" -> Bytes("\"s t\"")
    [] t = "@DecLit" -> Bytes("-12") [] t = "@HexLit" -> Bytes("0xF1")
    [] t = "@OctLit" -> Bytes("07") [] t = "@FloatValueLit" -> Bytes("1.5e3")
    [] OTHER -> Bytes(t)
Text[t \in Any, i \in Any] == IF i > Len(t) THEN <<>> ELSE Lexeme(t[i]) \o <<32>> \o Text[t, i + 1]
Sentence(t) == LET s == Text[t, 1] IN SubSeq(s, 1, Len(s))
Completeness ==
  Done /\ Preferred(vstate.a) =>
    LET s == Sentence(vstate.t)
        r == Eval(s, Node0(vroot), 1)
    IN r.p = Len(s) + 1 /\ r.a = vstate.a
=============================================================================
