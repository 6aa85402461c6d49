-------------------------------- MODULE Tr_N08 --------------------------------
(* Recorded realisations against the specified attenuation of every link *)
EXTENDS SysLib
VARIABLE l

(* coefficients before the attenuation, [path][rx element][tx element][time] *)
Pre(e, k) == e.hpre[k[1]][TxOf(e, k)][RxOf(e, k)]
At(x, k) == x[k[1]][k[2]][k[3]]
DetBasic(e, k) == DetermBasic(e.cfg, At(e.los, k), Slant(e, k))
Peak(e, k) == FMaxSeq(FFlatten([p \in 1..Len(Pre(e, k)) |-> [u \in 1..Len(Pre(e, k)[p]) |-> [s \in 1..Len(Pre(e, k)[p][u]) |->
                 [i \in 1..e.nt |-> FAdd(FAbs(Pre(e, k)[p][u][s][i][1]), FAbs(Pre(e, k)[p][u][s][i][2]))]]]]))

ShapePre(e) == LET NTX == IF Up(e) THEN SysNU(e) ELSE SysNB(e) NRX == IF Up(e) THEN SysNB(e) ELSE SysNU(e)
               IN HasShape(e.hpre, <<SysB(e), NTX, NRX, SysPaths(e)>>) /\ HasShape(e.dpre, <<SysB(e), NTX, NRX, SysPaths(e)>>)
ShapePl(e) == LET s == <<SysB(e), SysNB(e), SysNU(e)>>
              IN HasShape(e.total, s) /\ HasShape(e.sf, s) /\ \A c \in {"b", "g", "s", "e"} : HasShape(e.pl[c], s)

(* The environment, the defaults where none is given *)
Env == [pressure |-> 1020, temperature |-> 273, vapor |-> "7.5", humidity |-> 50, diameter |-> "3.6", efficiency |-> "0.5"]

Clauses(e) ==
    CASE e.ev = "begin" -> <<>>
      [] e.ev = "sys" ->
         IF ~SysShape(e) \/ ~ShapePre(e) \/ ~ShapePl(e) THEN << <<"Shape", FALSE>> >>
         ELSE LET K == SysLinks(e)
                  amp(k) == TLCEval(Gain(e, k))
                  Scaled(k) == LET g == amp(k) IN
                     FNearAll(OutCoef(e, k), ScaleAll(Pre(e, k), g), FMul("1e-12", FMul(g, Peak(e, k))), "1e-10")
                  ShadowDb(k) == FMul(10, FLog10(At(e.sf, k)))
              IN << <<"Attenuation", \A k \in K : Scaled(k)>>,
                    <<"DelaysKept", \A k \in K : FNearAll(OutDelay(e, k), e.dpre[k[1]][TxOf(e, k)][RxOf(e, k)], "1e-18", "1e-12")>>,
                    <<"TotalIsSum", \A k \in K : FNear(At(e.total, k), Total(e, k), "1e-9", "1e-12")>>,
                    \* no random shadowing whatsoever without shadow fading
                    <<"NoShadowingWhenOff", e.sfon \/ \A k \in K : FNear(At(e.pl["b"], k), DetBasic(e, k), "1e-6", 0)>>,
                    \* with it, 10 deviations are not exceeded
                    <<"ShadowingBounded", ~e.sfon \/ \A k \in K :
                        /\ FLe(FAbs(FSub(At(e.pl["b"], k), DetBasic(e, k))), FMul(10, ShadowStd(e.cfg, At(e.los, k))))
                        /\ FLe(FAbs(ShadowDb(k)), FMul(10, ShadowStd(e.cfg, At(e.los, k))))>>,
                    <<"GasLoss", \A k \in K : FNear(At(e.pl["g"], k), GasLoss(e.cfg.f, e.cfg.el, Env), "1e-6", "1e-6")>>,
                    <<"Scintillation", \A k \in K : FNear(At(e.pl["s"], k), ScintLoss(e.cfg.f, e.cfg.el, Env), "1e-6", "1e-6")>>,
                    <<"EntryLoss", \A k \in K : FNear(At(e.pl["e"], k), 0, "1e-12", 0)>> >>
      [] OTHER -> << <<"Completes", FALSE>> >>

Init == l = 1
Next == \/ l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done /\ l' = l + 1
===============================================================================
