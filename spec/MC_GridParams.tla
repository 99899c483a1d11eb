---------------------------- MODULE MC_GridParams ----------------------------
(* Every small parameter set, built and extended up to twice.                 *)
EXTENDS GridParams, TLC, Json
CONSTANTS Mins, Maxs, Nums, RfMaxs, RfNums
VARIABLES args, dx, dy, n
vars == <<args, dx, dy, n>>
One == 12
MinSet == {m - 12 : m \in Mins}      \* no negative numbers in a cfg
Axis(a, b, m) == [k \in 1..m |->
                    IF m = 1 THEN a ELSE a + ((k - 1) * (b - a)) \div (m - 1)]
Init == /\ args \in [wf : {TRUE}, min_x : MinSet, max_x : Maxs, num_x : Nums,
                     min_y : MinSet, max_y : {12, 24}, num_y : Nums \ {0},
                     max_rf : RfMaxs, num_rf : RfNums, one : {One}]
        /\ n = 0
        /\ dx = IF ValidArgs(args)
                THEN Axis(args.min_x, args.max_x, args.num_x) ELSE <<>>
        /\ dy = IF ValidArgs(args)
                THEN Axis(args.min_y, args.max_y, args.num_y) ELSE <<>>
        /\ PrintT("EDGE " \o ToJson(args))
Extend == /\ ValidArgs(args) /\ n < 2
          /\ n' = n + 1 /\ args' = args
          /\ IF CanExtend(dx, dy)
             THEN dx' = Mirrored(dx) /\ dy' = Mirrored(dy)
             ELSE UNCHANGED <<dx, dy>>
Next == Extend
Spec == Init /\ [][Next]_vars
\* the extension is again evenly spaced, symmetric and not extendable
Inv == /\ dx # <<>> /\ Len(dx) > 1
            => /\ Even(dx, dx[1], dx[Len(dx)], Len(dx), 0)
               /\ Even(dy, dy[1], dy[Len(dy)], Len(dy), 0)
       /\ (n > 0 /\ dx # <<>> /\ dx[1] < 0 /\ dx[1] = -dx[Len(dx)])
            => ~Extendable(dx, dy)
Once == [][dx' # dx => (CanExtend(dx, dy) /\ ~Extendable(dx', dy'))]_vars
=============================================================================
