----------------------------- MODULE ReadTrace ------------------------------
(***************************************************************************)
(* Reads the scripts of the recorded cases, one command of the script body  *)
(* at a time, and leaves the programs for SieveTrace.                       *)
(***************************************************************************)
EXTENDS Reading

Texts == TLCEval(ndJsonDeserialize("texts.ndjson"))
VARIABLES ci, toks, rs
vars == <<ci, toks, rs>>

TInit == ci \in 1..Len(Texts) /\ toks = <<>> /\ rs = R0
Scan == /\ toks = <<>>
        /\ toks' = Lex(Texts[ci].b, 1, 1, <<>>, 4096)
        /\ rs' = IF Last(toks').k # "eof" THEN Open(R0, "lexical") ELSE R0
        /\ UNCHANGED ci
Walk == /\ toks # <<>> /\ rs.bad = "" /\ Tk(toks, rs).k # "eof"
        /\ rs' = IF IsP(Tk(toks, rs), "}") THEN Open(rs, "brace") ELSE Cmd(toks, rs)
        /\ UNCHANGED <<ci, toks>>
TNext == Scan \/ Walk
TSpec == TInit /\ [][TNext]_vars

Done == toks # <<>> /\ (rs.bad # "" \/ Tk(toks, rs).k = "eof")
Report == Done => IF rs.bad # "" THEN PrintT("@OPEN " \o ToString(ci) \o " " \o rs.bad)
                  ELSE JsonSerialize("prog" \o ToString(ci) \o ".json", [blocks |-> rs.blocks, decl |-> rs.decl, ev |-> Ev(rs, "close", 0, 0, 1).ev])
\* every place in the program has an identity of its own, blocks nest, and a reference has its test or value in the text
WellFormed == Done /\ rs.bad = "" =>
    /\ rs.b = 1
    /\ \A i \in 2..Len(rs.blocks) : rs.blocks[i].p < i
    /\ \A i, j \in 1..Len(rs.ev) : rs.ev[i].id > 0 /\ rs.ev[i].id = rs.ev[j].id => i = j
    /\ \A i \in 1..Len(rs.decl) : rs.decl[i].id \in 1..rs.id /\ rs.decl[i].b \in 1..Len(rs.blocks)
=============================================================================
