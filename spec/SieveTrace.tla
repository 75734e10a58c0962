----------------------------- MODULE SieveTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions against the specification.  A run is the     *)
(* list of exchanges [in, out] between the host and the real interpreter,   *)
(* and what the host could see at the end.  A run is accepted iff some      *)
(* behaviour of Sieve produces exactly these exchanges.                     *)
(***************************************************************************)
EXTENDS SieveProps

Cases == TLCEval(ndJsonDeserialize("cases.ndjson"))
Runs == TLCEval(ndJsonDeserialize("runs.ndjson"))
TCaseOf(i) == Cases[i]
StatTab == TLCEval([i \in 1..Len(Cases) |->
              [s \in DOMAIN Cases[i].scripts |-> StaticOf(Cases[i].scripts[s])]])
TStatOf(i, s) == StatTab[i][s]

VARIABLES ri,  \* the run being followed
          st,  \* state of the specification
          ti,  \* next exchange
          h    \* history (SieveProps)
vars == <<ri, st, ti, h>>

Run == Runs[ri]
Line(k, s) == "@" \o k \o " " \o ToString(ri) \o " " \o ToString(ti) \o " " \o s
RECURSIVE VSame(_, _), VsSame(_, _)
VsSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VSame(a[i], b[i])
VSame(a, b) == a.t = b.t /\ (IF a.t = "a" THEN VsSame(a.v, b.v) ELSE a.v = b.v)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
EvSame(a, b) ==
    /\ a.k = b.k
    /\ DOMAIN a = DOMAIN b
    /\ CASE a.k = "function" -> a.id = b.id /\ VsSame(a.args, b.args)
         [] a.k \in {"keep", "fileinto"} -> SameBag(a.flags, b.flags) /\ [a EXCEPT !.flags = <<>>] = [b EXCEPT !.flags = <<>>]
         [] OTHER -> a = b
\* final view: global variables (flags, and those called fl or fs_..., as sets), whether the message counts as
\* changed, the current part and that nothing happens any more
GlobSame(g, e) ==
    /\ {x.n : x \in Range(e.globals)} = DOMAIN g
    /\ \A i \in 1..Len(e.globals) :
         LET x == e.globals[i] IN
         IF x.n \in {"__flags", "fl"} \/ StartsWith(x.n, "fs_") THEN SameBag(SplitWS(Str(x.v)), SplitWS(Str(g[x.n]))) ELSE VSame(x.v, g[x.n])
EndSame == /\ GlobSame(st.glob, Run.end)
           /\ Run.end.changed = (st.mid > 0)
           /\ Run.end.part = st.part
           /\ Run.end.again = "none"

TInit == /\ ri \in 1..Len(Runs)
         /\ st = InitSt(Runs[ri].ci, Runs[ri].end.now) /\ ti = 1 /\ h = H0
Host == /\ st.ph = "wait" /\ st.w # "none" /\ ti <= Len(Run.steps)
        /\ Accepts(st, Run.steps[ti].in)
        /\ st' = Feed(st, Run.steps[ti].in)
        /\ h' = HIn(h, st, Run.steps[ti].in)
        /\ UNCHANGED <<ri, ti>>
Machine == /\ st.ph = "run"
           /\ LET os == Outcomes(st) IN
              \E i \in 1..Len(os) :
                LET o == os[i] IN
                IF o.out = <<>> THEN st' = o.st /\ h' = HStep(h, st, o.st) /\ UNCHANGED <<ri, ti>>
                ELSE IF ti <= Len(Run.steps) /\ EvSame(o.out[1], Run.steps[ti].out)
                THEN st' = o.st /\ ti' = ti + 1 /\ h' = HOut(h, st, o.st, o.out[1]) /\ UNCHANGED ri
                ELSE PrintT(Line("STUCK", ToString(o.out[1]))) /\ FALSE
TNext == Host \/ Machine
TSpec == TInit /\ [][TNext]_vars

Complete == st.ph = "wait" /\ st.w = "none" /\ ti = Len(Run.steps) + 1
\* reported once per state
Report ==
    /\ \A p \in Broken(st, h) : PrintT(Line("INV", p))
    /\ Complete => IF EndSame THEN PrintT(Line("ACCEPT", ""))
                   ELSE PrintT(Line("END", ToString(<<st.glob, st.mid > 0, st.part>>)))
    /\ (st.ph = "wait" /\ ~Complete /\ (ti > Len(Run.steps) \/ st.w = "none" \/ ~Accepts(st, Run.steps[ti].in)))
          => PrintT(Line("WAIT", st.w))


=============================================================================
