------------------------------- MODULE SieveMC -------------------------------
(***************************************************************************)
(* Model checking: every behaviour of the specification for the cases in    *)
(* cases.ndjson, whatever the host answers (up to the case's number of      *)
(* branching answers).  The listed properties are invariants.  Every        *)
(* complete behaviour is printed with the answers that lead to it, so that   *)
(* it can be replayed on the real interpreter.                              *)
(***************************************************************************)
EXTENDS SieveProps

Cases == TLCEval(ndJsonDeserialize("cases.ndjson"))
TCaseOf(i) == Cases[i]
StatTab == TLCEval([i \in 1..Len(Cases) |->
              [s \in DOMAIN Cases[i].scripts |-> StaticOf(Cases[i].scripts[s])]])
TStatOf(i, s) == StatTab[i][s]

VARIABLES st,  \* state of the specification
          h,   \* history (SieveProps)
          av,  \* answers given so far
          nf,  \* function results given so far
          tick \* changes in every step; first in vars, so that telling two successive
               \* states apart never compares variables that hold values of two types
vars == <<tick, st, h, av, nf>>
C == Ca(st)
Init == /\ st \in {InitSt(i, [day |-> 0, sec |-> 0]) : i \in 1..Len(Cases)} /\ h = H0 /\ av = <<>> /\ nf = 0 /\ tick = FALSE
Give(x) == st' = Feed(st, x) /\ h' = HIn(h, st, x)
Answer(k) == IF Len(av) < C.dfs
             THEN \E b \in BOOLEAN : Give([k |-> k, v |-> b]) /\ av' = Append(av, b)
             ELSE Give([k |-> k, v |-> C.dflt]) /\ UNCHANGED av
Host == /\ st.ph = "wait"
        /\ CASE st.w \in {"script", "ack"} -> Give([k |-> st.w]) /\ UNCHANGED <<av, nf>>
             [] st.w = "answer" -> Answer("answer") /\ UNCHANGED nf
             [] st.w = "fnc" -> Give([k |-> "fnc", v |-> C.fnc[1 + (nf % Len(C.fnc))]]) /\ nf' = nf + 1 /\ UNCHANGED av
             [] st.w = "inc" -> (IF st.wn \in DOMAIN C.scripts THEN Give([k |-> "incscript"]) /\ UNCHANGED av
                                 ELSE Answer("noscript")) /\ UNCHANGED nf
             [] OTHER -> FALSE
Machine == /\ st.ph = "run"
           /\ LET os == Outcomes(st) IN
              \E i \in 1..Len(os) :
                 /\ st' = os[i].st
                 /\ h' = IF os[i].out = <<>> THEN HStep(h, st, os[i].st) ELSE HOut(h, st, os[i].st, os[i].out[1])
           /\ UNCHANGED <<av, nf>>
Next == (Host \/ Machine) /\ tick' = ~tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bits(s) == JoinChars([i \in 1..Len(s) |-> IF s[i] THEN "1" ELSE "0"])
Report == IsEnd(st) => PrintT("@BEH " \o ToString(st.ci) \o " " \o Bits(av) \o "_")
Properties == Broken(st, h) = {} \/ (PrintT("@BROKEN " \o ToString(st.ci) \o " " \o ToString(Broken(st, h))) /\ FALSE)
Ends == <>IsEnd(st)      \* every execution ends
NoStuck == ENABLED Next \/ IsEnd(st)
==============================================================================
