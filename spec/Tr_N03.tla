-------------------------------- MODULE Tr_N03 --------------------------------
(* Recorded histories and samples of LoS states *)
EXTENDS ScenarioTrace

Prob(cfg) == Par(cfg, TRUE, "LoS_p")
Outdoor(s) == {k \in Links(s) : ~s.inp.in_state[k[1]][k[3]]}
SetClauses(s, e) ==
    IF ~e.ok THEN <<>>
    ELSE LET n == After(s, e)  o == e.obs
             p == Prob(n.cfg)
             \* probability that a fresh draw equals the previous one
             same == FPow(FAdd(FSqr(p), FSqr(FSub(1, p))), Cardinality(Outdoor(n)))
    IN IF ~HasShape(o.los, LinkShape(n)) THEN << <<"Shape", FALSE>> >>
       ELSE << <<"Indoor", o.indoor = n.inp.in_state>>,
               <<"LosStates", LosOk(n, o)>>,
               <<"Held", (Conf(s) /\ ~Trigger(e)) => o.los = s.obs.los>>,
               <<"Redrawn", (Conf(s) /\ Trigger(e) /\ n.req = "none" /\ LinkShape(s) = LinkShape(n)
                             /\ s.inp.in_state = n.inp.in_state /\ FLt(same, "1e-10")) => o.los # s.obs.los>>,
               <<"Statistics", StatsOk(n, o)>> >>

(* sample: LoS states [batch][bs][ut] of one draw without request; UT u of example b is indoor if e.indoor[b][u] *)
SampleClauses(e) ==
    LET p == Prob(e.cfg)
        B == Len(e.los) N == Len(e.los[1]) U == Len(e.los[1][1])
        out(b, u) == ~e.indoor[b][u]
        K == {k \in (1..B) \X (1..N) \X (1..U) : out(k[1], k[3])}
        n == Cardinality(K)
        cnt == Cardinality({k \in K : At(e.los, k)})
        sd == FSqrt(FMul(p, FSub(1, p)))
        \* joint occurrences of pairs of links shifted by d
        Pairs(d) == {k \in K : <<k[1] + d[1], k[2] + d[2], k[3] + d[3]>> \in K}
        X(k) == FSub(IF At(e.los, k) THEN 1 ELSE 0, p)
        Uncorr(d) ==
            LET Q == TLCEval(Pairs(d))
                m == Cardinality(Q)
                at(k) == At(e.los, <<k[1] + d[1], k[2] + d[2], k[3] + d[3]>>)
                c11 == Cardinality({k \in Q : At(e.los, k) /\ at(k)})
                c1 == Cardinality({k \in Q : At(e.los, k)})
                c2 == Cardinality({k \in Q : at(k)})
                cov == FSum(<<c11, FNeg(FMul(p, c1)), FNeg(FMul(p, c2)), FMul(m, FSqr(p))>>)
            IN m < 100 \/ FLe(FAbs(cov), FAdd(FMul("6.5", FMul(FSqr(sd), FSqrt(m))), 20))
    IN IF ~HasShape(e.los, <<B, N, U>>) THEN << <<"Shape", FALSE>> >>
       ELSE << <<"Indoor", \A k \in (1..B) \X (1..N) \X (1..U) : ~out(k[1], k[3]) => ~At(e.los, k)>>,
               <<"Probability", FLe(FAbs(FSub(cnt, FMul(n, p))), FAdd(FMul(6, FMul(sd, FSqrt(n))), 8))>>,
               <<"IndependentUTs", Uncorr(<<0, 0, 1>>)>>, <<"IndependentBSs", Uncorr(<<0, 1, 0>>)>>,
               <<"IndependentExamples", Uncorr(<<1, 0, 0>>)>> >>

Clauses(s, e) ==
    CASE e.ev \in {"begin", "make", "call"} -> <<>>
      [] e.ev = "set" -> SetClauses(s, e)
      [] e.ev = "sample" -> SampleClauses(e)
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1 /\ st = Nothing
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(st, Trace[l])) /\ l' = l + 1 /\ st' = After(st, Trace[l])
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED st
===============================================================================
