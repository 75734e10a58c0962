-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Static semantics: where a variable name or a match variable refers to.   *)
(*                                                                          *)
(* A script is [blocks, decl, ev]: block 1 is the script body; blocks[b] is *)
(* [p |-> enclosing block, c |-> commands].  Every command has an `id` that *)
(* grows in textual order (test ids lie between their command's id and the  *)
(* next one).  decl lists, in textual order, the places that introduce a    *)
(* name: k = "g" (global command), "b" (set, let, extracttext, flag         *)
(* command: the enclosing block) or "l" (with :local: the script body).     *)
(* ev lists block starts/ends, match tests and references to ${n}.          *)
(***************************************************************************)
EXTENDS Match

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

GlobalAt(sc, n, id) == \E i \in 1..Len(sc.decl) : sc.decl[i].k = "g" /\ sc.decl[i].n = n /\ sc.decl[i].id < id

\* Chain of enclosing blocks, innermost first
RECURSIVE Chain(_, _)
Chain(sc, b) == IF b = 1 THEN <<1>> ELSE <<b>> \o Chain(sc, sc.blocks[b].p)
InChain(sc, b, x) == \E i \in 1..Len(Chain(sc, b)) : Chain(sc, b)[i] = x

\* Registrations: set of [n, b, id] -- a declaration introduces a variable only
\* when the name is not already visible.
RECURSIVE Regs(_, _, _)
Regs(sc, i, acc) ==
    IF i > Len(sc.decl) THEN acc
    ELSE LET d == sc.decl[i] IN
         IF d.k = "g" \/ GlobalAt(sc, d.n, d.id)
            \/ (\E r \in acc : r.n = d.n /\ InChain(sc, d.b, r.b)) THEN Regs(sc, i + 1, acc)
         ELSE Regs(sc, i + 1, acc \cup {[n |-> d.n, b |-> IF d.k = "l" THEN 1 ELSE d.b, id |-> d.id]})

\* Match variables.  A reference ${n} makes the match tests of the nearest
\* enclosing block that contains any record position n (`ideal`: the tests of all
\* enclosing blocks).  Captures end with the block of the tests.
RECURSIVE MaskFold(_, _, _, _)
MaskFold(sc, ideal, i, s) ==
    IF i > Len(sc.ev) THEN s
    ELSE LET e == sc.ev[i] IN
    CASE e.k = "open"  -> MaskFold(sc, ideal, i + 1, [s EXCEPT !.stk = Append(@, [b |-> e.b, ts |-> <<>>])])
      [] e.k = "close" -> MaskFold(sc, ideal, i + 1, [s EXCEPT !.stk = Front(@)])
      [] e.k = "test"  -> MaskFold(sc, ideal, i + 1,
              [s EXCEPT !.stk[Len(s.stk)].ts = Append(@, e.id), !.mask = Put(@, e.id, {})])
      [] e.k = "ref"   ->
            LET hit == {j \in 1..Len(s.stk) : s.stk[j].ts # <<>>}
                use == IF hit = {} THEN {} ELSE IF ideal THEN hit ELSE {CHOOSE j \in hit : \A k \in hit : k <= j}
                tst == UNION {Range(s.stk[j].ts) : j \in use}
                mask == [t \in DOMAIN s.mask |-> IF t \in tst THEN s.mask[t] \cup {e.n} ELSE s.mask[t]]
            IN IF hit = {} THEN MaskFold(sc, ideal, i + 1, s)
               ELSE MaskFold(sc, ideal, i + 1,
                     [s EXCEPT !.mask = mask,
                               !.refs = @ \cup {e.id},
                               !.clear = [b \in DOMAIN @ \cup {s.stk[j].b : j \in use} |->
                                   (IF b \in DOMAIN @ THEN @[b] ELSE {}) \cup
                                   UNION {UNION {mask[t] : t \in Range(s.stk[j].ts)} : j \in {j2 \in use : s.stk[j2].b = b}}]])
StaticOf(sc) ==
    LET m == MaskFold(sc, ~Dev("nearest"), 1, [stk |-> <<>>, mask |-> EmptyFn, refs |-> {}, clear |-> EmptyFn])
    IN [regs |-> Regs(sc, 1, {}), mask |-> m.mask, refs |-> m.refs, clear |-> m.clear]

\* Where name n (lower case) lives for a command with this id in block b:
\* [k |-> "g"/"l"/"none", s |-> name or slot]
Slot(n, b) == n \o "@" \o ToString(b)
Resolve(sc, stt, b, id, n) ==
    IF GlobalAt(sc, n, id) THEN [k |-> "g", s |-> n]
    ELSE LET ch == Chain(sc, b)
             vis(x) == \E r \in stt.regs : r.n = n /\ r.b = x /\ r.id <= id
             i == FirstIdx(ch, vis)
         IN IF i = 0 THEN [k |-> "none", s |-> n] ELSE [k |-> "l", s |-> Slot(n, ch[i])]
=============================================================================
