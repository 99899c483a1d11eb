----------------------------- MODULE MC_Gradient -----------------------------
EXTENDS Gradient, TLC, Json
CONSTANTS Cells
VARIABLES data, meas, mask
vars == <<data, meas, mask>>
Measurements == [m : {-1, 0, 256, 512, 1024}, o : {-1, 0, 8, 16, 32},
                 t : {-1, 16, 32, 64, 65},
                 e : {-1, 0, 3}, f : {-1, 0, 1}]
Init == /\ data \in [1..Cells -> {NAN, 0, 256, 512, 1024}]
        /\ meas = NoMeas /\ mask = <<>>
Set(x) == /\ IF Valid(x) THEN meas' = x /\ mask' = Mask(data, x)
             ELSE UNCHANGED <<meas, mask>>
          /\ data' = data
          /\ PrintT("EDGE " \o ToJson([data |-> data, meas |-> meas, x |-> x]))
Override == \E m \in [1..Cells -> BOOLEAN] :
              mask' = m /\ UNCHANGED <<data, meas>>
Next == (\E x \in Measurements : Set(x)) \/ Override
Spec == Init /\ [][Next]_vars
View == <<data, meas>>
\* a steeper measurement never shows more; a measurement of 0 shows everything
Inv == \A x \in Measurements : Valid(x) /\ meas # NoMeas =>
         /\ (x.m >= meas.m /\ x.o >= meas.o /\ x.t <= meas.t /\ x.f >= meas.f) =>
              \A k \in 1..Cells : Mask(data, meas)[k] => Mask(data, x)[k]
         /\ x.m = 0 => \A k \in 1..Cells : Mask(data, x)[k] = (data[k] = NAN)
=============================================================================
