-------------------------------- MODULE Sys_Gen --------------------------------
(* Configurations of whole channel models *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE c
Cases == {x \in [scn : {"dur", "urb", "sur"}, dir : {"uplink", "downlink"}, f : {"2", "3.5", "20", "30"},
                 el : {"12", "37", "63", "84"}, b : {1, 2}, nb : {1, 2}, nu : {1, 2, 3}, los : {"drawn", "true", "false"},
                 heights : {"sat", "haps", "mixed"}, pl : BOOLEAN, sf : BOOLEAN, dop : BOOLEAN, form : {"two", "three"}] :
            x.b * x.nb * x.nu <= 6 /\ x.b * x.nb * x.nu >= 2}
GenInit == c \in Cases /\ PrintT("CASE " \o ToJson(c))
Next == FALSE /\ UNCHANGED c
===============================================================================
