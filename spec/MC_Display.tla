----------------------------- MODULE MC_Display -----------------------------
(* The placement and the colours for small sizes, and every history of up to  *)
(* MaxLen drawings and changes of one property.                               *)
EXTENDS Display, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, contrast, mask
Args == {[vmin |-> <<>>, vmax |-> <<>>, map |-> <<>>, n |-> <<>>],
         [vmin |-> <<2>>, vmax |-> <<>>, map |-> <<"twilight">>, n |-> <<>>],
         [vmin |-> <<-3>>, vmax |-> <<9>>, map |-> <<>>, n |-> <<2>>]}
Data == <<1, 4, NAN, 7, 2, 5, 0, 3>>
Shape == <<2, 2, 2>>
Init == hist = <<>> /\ mask = FALSE /\ contrast = Contrast(Data, [vmin |-> <<>>, vmax |-> <<>>, map |-> <<>>, n |-> <<>>])
Log(r) == hist' = Append(hist, r)
Set == \E a \in Args : contrast' = Contrast(Data, a) /\ UNCHANGED mask
                       /\ Log([op |-> "contrast", kind |-> IF a.vmin = <<>> THEN "default" ELSE IF a.n = <<>> THEN "some" ELSE "all"])
Bad == \E f \in {"vmin", "vmax", "map", "n"} : UNCHANGED <<contrast, mask>> /\ Log([op |-> "bad", kind |-> f])
Mask == mask' = ~mask /\ UNCHANGED contrast /\ Log([op |-> "mask", kind |-> "m"])
Draw == \E axis \in 0..2, where \in {"given", "current"} :
    UNCHANGED <<contrast, mask>> /\ Log([op |-> "draw", kind |-> where, axis |-> axis])
Cube == \E axis \in 0..2 : UNCHANGED <<contrast, mask>> /\ Log([op |-> "cube", kind |-> "c", axis |-> axis])
Next == Len(hist) < MaxLen /\ (Set \/ Bad \/ Mask \/ Draw \/ Cube)
Spec == Init /\ [][Next]_<<hist, contrast, mask>>
Emit == Len(hist') = MaxLen => PrintT("EDGE " \o ToJson(hist'))

\* a column or row is drawn in a cell that contains its coordinate: with n
\* cells over the width from the first coordinate to the last
ASSUME \A n \in 2..12 : \A k \in 0..(n - 1) :
    LET place == k * n          \* in n * (n - 1) parts of the width
    IN k * (n - 1) <= place /\ place <= (k + 1) * (n - 1)
\* unrolled, every value of the radius array has its own label
ASSUME \A m \in 1..6 : \A k \in 0..(2 * m) :
    RadiusAt(k, 1, m) = 1 + Abs(m - k)
Inv == /\ \A v \in Defined(Data) : LET c == Colours(v, contrast) IN
            c # {} /\ c \subseteq 0..(contrast.n - 1)
       \* larger values have no smaller colour
       /\ \A v, w \in Defined(Data) : v < w =>
            \E p \in Colours(v, contrast), q \in Colours(w, contrast) : p <= q
       /\ \A axis \in 0..2, i \in 0..1 : LET s == Slice(Data, Shape, axis, i) IN
            Len(s) = 2 /\ Len(s[1]) = 2
       \* the slices of each axis make up the data
       /\ \A axis \in 0..2 : LET all == {Slice(Data, Shape, axis, i) : i \in 0..1} IN
            UNION {{s[a][b] : a, b \in 1..2} : s \in all} = {Data[k] : k \in 1..8}
=============================================================================
