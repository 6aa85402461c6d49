-------------------------------- MODULE MC_N16 --------------------------------
(***************************************************************************)
(* Joint distribution of large-scale parameters: for every table column    *)
(* the cross-correlations are a correlation matrix with the factor of Lsp, *)
(* and the spatial correlations of any placement and LoS pattern are one   *)
(* too (MC); configurations (Gen).                                         *)
(***************************************************************************)
EXTENDS Lsp, Json
CONSTANTS Quick
VARIABLE c

Pos == IF Quick THEN {0, 4, 60} ELSE {0, 1, 4, 20, 60, 200}
Columns == [scn : ScnNames, dir : Directions, f : {2, 28}, el : {10 * i : i \in 1..9}]
Init == \/ c \in [cfg : Columns, los : BOOLEAN]
        \/ c \in [cfg : {x \in Columns : x.el = 50}, i : 1..7, p : [1..3 -> Pos], s : [1..3 -> BOOLEAN]]
Next == FALSE /\ UNCHANGED c

Is(f) == f \in DOMAIN c
CrossFactor == Is("los") =>
    LET L == TLCEval(CrossCholesky(c.cfg, c.los))
        e(i, j) == IF j <= Len(L[i]) THEN L[i][j] ELSE F(0)
    IN \A i, j \in 1..7 : /\ FNear(FSum([k \in 1..7 |-> FMul(e(i, k), e(j, k))]), CrossCorr(c.cfg, c.los, i, j), "1e-9", 0)
                          /\ FLt(0, L[i][i])
Symmetric == Is("los") => \A i, j \in 1..7 : FEq(CrossCorr(c.cfg, c.los, i, j), CrossCorr(c.cfg, c.los, j, i))
Abs(x) == IF x < 0 THEN -x ELSE x
SpatialFactor == Is("i") =>
    LET D(u, v) == FDiv(Abs(2 * (c.p[u] - c.p[v]) + u - v), 2)   \* distinct positions p[u] + u/2 on a line
        A(u, v) == SpatialCorr(c.cfg, c.i, u = v, D(u, v), c.s[u], c.s[v])
        L == TLCEval(Cholesky(A, 3))
    IN \A u \in 1..3 : FLt(0, L[u][u]) /\ \A v \in 1..3 : FLe(0, A(u, v)) /\ FLe(A(u, v), 1) /\ (u = v => FEq(A(u, v), 1))

-------------------------------------------------------------------------------
Cases == [scn : ScnNames, dir : Directions, f : {"2.2", "28"}, el : {"10", "21", "30", "39", "48", "60", "71", "82", "90"},
          b : {1, 2}, nb : {1, 2}, nu : {1, 2, 4}, spread : {"1", "30", "1000"}, los : {"drawn", "true", "false"},
          via : {"generator", "model"}]
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
===============================================================================
