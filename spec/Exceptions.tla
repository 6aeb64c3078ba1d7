----------------------------- MODULE Exceptions ------------------------------
(* Descriptions of chains of exceptions (property C27).  A chain is a sequence  *)
(* of levels, outermost first; all but the last have another one nested.        *)
(* Level: [kind, name, msg, nname]                                              *)
(*   "std"     a standard exception, name of its type, message                  *)
(*   "other"   anything else                                                    *)
(*   "stacked" a stacked exception: name of its type, nname and msg of the      *)
(*             nesting exception                                                *)
(* Texts are sequences of character codes.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE chain
vars == <<chain>>
Init == chain = <<>>
Feed == <<10>>
Colon == <<58, 32>>
\* "exception stack:" and a line feed; "- "
Heading == <<101, 120, 99, 101, 112, 116, 105, 111, 110, 32, 115, 116, 97, 99, 107, 58, 10>>
Dash == <<45, 32>>
IsStd(c) == c[1].kind # "other"
RECURSIVE Describe(_, _), Current(_, _), Stack(_, _), Message(_)
\* any standard exception
Describe(c, ind) == ind \o c[1].name \o Colon \o Message(c)
                    \o (IF c[1].kind = "std" /\ Len(c) > 1 THEN Feed \o (IF IsStd(Tail(c)) THEN Describe(Tail(c), ind) ELSE Current(Tail(c), ind)) ELSE <<>>)
\* the current exception, without an object
Current(c, ind) == ind \o c[1].name
                   \o (IF c[1].kind # "stacked" /\ Len(c) > 1 THEN Feed \o (IF IsStd(Tail(c)) THEN Describe(Tail(c), ind) ELSE Current(Tail(c), ind)) ELSE <<>>)
\* a stacked exception: its nesting exception and everything nested
Stack(c, ind) == ind \o c[1].nname \o Colon \o c[1].msg \o Feed
                 \o (IF c[2].kind = "stacked" THEN Stack(Tail(c), ind) ELSE IF c[2].kind = "std" THEN Describe(Tail(c), ind) ELSE Current(Tail(c), ind))
Message(c) == IF c[1].kind = "stacked" THEN Heading \o Stack(c, Dash) ELSE c[1].msg
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ chain' = <<>>
  \/ e.op = "chain" /\ chain' = e.levels
  \/ e.op = "described" /\ UNCHANGED vars /\ e.text = Describe(chain, e.ind)
  \/ e.op = "own" /\ UNCHANGED vars /\ e.text = (IF chain[1].kind = "stacked" THEN Stack(chain, e.ind) ELSE Describe(chain, e.ind))
  \/ e.op = "what" /\ UNCHANGED vars /\ e.text = Message(chain)
  \/ e.op = "current" /\ UNCHANGED vars /\ e.text = Current(chain, e.ind)
  \/ e.op = "no_current" /\ UNCHANGED vars /\ e.r = "logic_error"
=============================================================================
