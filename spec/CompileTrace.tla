---------------------------- MODULE CompileTrace ----------------------------
(***************************************************************************)
(* Checks recorded results of the compiler against the specification: each  *)
(* case has the octets of a script, the limits configured and the result.   *)
(***************************************************************************)
EXTENDS Compile

Cases == TLCEval(ndJsonDeserialize("cases.ndjson"))
VARIABLES ci, toks, s
vars == <<ci, toks, s>>
C == Cases[ci]
Say(k, x) == PrintT("@" \o k \o " " \o ToString(ci) \o " " \o x)

TInit == ci \in 1..Len(Cases) /\ toks = <<>> /\ s = [v |-> "start"]
Start == /\ s.v = "start"
         /\ IF C.big THEN s' = Clean(C.lines) /\ UNCHANGED toks
            ELSE IF Len(C.b) > C.o.maxscript
            THEN s' = Rej({"ScriptTooLong"}, 0, 1) /\ UNCHANGED toks
            ELSE s' = C0 /\ toks' = Lex(C.b, 1, 1, <<>>, C.o.maxstring)
         /\ UNCHANGED ci
Walk == /\ s.v = "run"
        /\ s' \in Results(toks, s, C.o)
        /\ UNCHANGED <<ci, toks>>
TNext == Start \/ Walk
TSpec == TInit /\ [][TNext]_vars

Done == s.v \in {"acc", "rej", "any", "clean"}
Report == Done => /\ Say(s.v, ToString(s))
                  /\ Allows(s, C.r) => Say("ACCEPT", "")
=============================================================================
