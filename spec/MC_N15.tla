-------------------------------- MODULE MC_N15 --------------------------------
(* Faraday rotation: theorems (MC), configurations (Gen) *)
EXTENDS Coefficients, Json

CONSTANTS Quick
VARIABLE c

Fs == IF Quick THEN {"1.9e9", "2e9", "2.17e9", "3.5e9", "4e9", "19e9", "30e9", "40e9"}
      ELSE {"1.9e9", "2e9", "2.17e9", "2.5e9", "3e9", "3.5e9", "4e9", "19e9", "20e9", "25e9", "30e9", "35e9", "40e9"}
Hs == {8000, 20000, 160000, 599999, 600000, 600001, 1200000, 35786000}
Init == c \in [f : Fs, h : Hs, p1 : {"-2.9", "0.3", "1.7"}, p2 : {"-1", "2.2"}, xpr : {"0.5", "8", "1000"}]
Next == FALSE /\ UNCHANGED c

psi == FaradayAngle(c.h, c.f)
M == RayMatrix(<<c.p1, c.p2, FNeg(c.p1), FAdd(c.p1, c.p2)>>, c.xpr)
R == Faraday(M, psi)
tol == "1e-12"
OnlySatellites == (c.h < 600000) <=> FEq(psi, 0)
Degrees == c.h >= 600000 => FNear(FMul(Deg(psi), FMul(FDiv(c.f, 1000000), FDiv(c.f, 1000000))), 108000000, 0, "1e-12")
Norm2(x) == FAdd(FSqr(x[1]), FSqr(x[2]))
RowPower == \A i \in 1..2 : FNear(FAdd(Norm2(R[i][1]), Norm2(R[i][2])), FAdd(Norm2(M[i][1]), Norm2(M[i][2])), tol, 0)
NoneIsIdentity == c.h < 600000 => FNearAll(R, M, tol, 0)
(* a linearly polarized wave turns by psi *)
Turns == LET I == << <<<<F(1), F(0)>>, <<F(0), F(0)>>>>, <<<<F(0), F(0)>>, <<F(1), F(0)>>>> >>
         IN FNear(FAtan2(Faraday(I, psi)[2][1][1], Faraday(I, psi)[1][1][1]), psi, tol, 0)
Back == FNearAll(Faraday(R, FNeg(psi)), M, tol, 0)

-------------------------------------------------------------------------------
Cases == {x \in [f : {"1.9e9", "2e9", "2.17e9", "3.5e9", "4e9", "20e9", "30e9"}, moving : {"tx", "rx"},
                 heights : {"low", "sat", "edge", "perBS", "perBatch"}, nbs : {1, 2, 3}, b : {1, 2, 3},
                 pol : {"V", "H", "VH", "cross"}, los : {"los", "nlos", "mixed"}] :
            /\ x.heights = "perBS" => x.nbs > 1
            /\ x.heights = "perBatch" => x.b > 1}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
