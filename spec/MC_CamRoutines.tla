--------------------------- MODULE MC_CamRoutines ---------------------------
(* Laws of the conversions, the tilings (a picture grown row by row and     *)
(* column by column from its pattern) and the nearest-value search.         *)
EXTENDS CamState, SequencesExt, Json, TLC
CONSTANTS MaxPat, MaxSize, Vals, MaxArr
VARIABLES mode, p, q, h, w, arr
vars == <<mode, p, q, h, w, arr>>
Pattern == [y \in 1..p |-> [x \in 1..q |-> 10 * y + x]]
Init == \/ mode = "tile" /\ p \in 1..MaxPat /\ q \in 1..MaxPat /\ h = 1 /\ w = 1 /\ arr = <<>>
        \/ mode = "near" /\ p = 1 /\ q = 1 /\ h = 1 /\ w = 1 /\ \E v \in Vals : arr = <<v>>
        \/ mode = "conv" /\ p \in 1..3 /\ q \in 1..3 /\ h = 1 /\ w = 1 /\ arr = <<>>
Next == \/ mode = "tile" /\ h < MaxSize /\ h' = h + 1 /\ UNCHANGED <<mode, p, q, w, arr>>
        \/ mode = "tile" /\ w < MaxSize /\ w' = w + 1 /\ UNCHANGED <<mode, p, q, h, arr>>
        \/ mode = "near" /\ Len(arr) < MaxArr /\ \E v \in Vals : arr' = Append(arr, v) /\ UNCHANGED <<mode, p, q, h, w>>
        \/ mode = "conv" /\ h < 3 /\ h' = h + 1 /\ UNCHANGED <<mode, p, q, w, arr>>
        \/ mode = "conv" /\ w < 4 /\ w' = w + 1 /\ UNCHANGED <<mode, p, q, h, arr>>
Spec == Init /\ [][Next]_vars
T == Tile(Pattern, h, w)
TileOk == mode = "tile" =>
  /\ Len(T) = h /\ \A y \in 1..h : Len(T[y]) = w
  /\ \A y \in 1..h, x \in 1..w : /\ (y <= p /\ x <= q) => T[y][x] = Pattern[y][x]
                                 /\ y > p => T[y][x] = T[y - p][x]
                                 /\ x > q => T[y][x] = T[y][x - q]
  /\ \A y \in 1..h, x \in 1..w : Tile(Pattern, y, x) = [r \in 1..y |-> SubSeq(T[r], 1, x)]
Probe == {0, 1, 2, 4, 9}
NearOk == mode = "near" => \A v \in Probe :
  LET n == Nearest(v, arr) IN
  /\ \E k \in DOMAIN arr : arr[k] = n
  /\ IsNearest(v, arr, n, 0)
  /\ \A k \in DOMAIN arr : arr[k] = v => n = v
  /\ \A k \in DOMAIN arr : IsNearest(v, arr, arr[k], 0) <=> RLe(Dist(v, arr[k]), Dist(v, n))
One == RPow(10, -12)
(* p pixels, q wavelengths, exposure, grey value                            *)
C == [area |-> 9, w |-> [k \in 1..q |-> 400 + 100 * k], iref |-> 50, tref |-> 30, tdbl |-> 8, prnu |-> [y \in 1..p |-> 1],
      qe |-> [k \in 1..q |-> [y \in 1..p |-> RDiv(k + y, 7)]]]
S == [K |-> RDiv(3, 2), temp |-> 22, f |-> h - 1]
E == <<1000, 5000000, RPow(10, 9)>>[h]
Mean == 20 * w
ConvOk == mode = "conv" =>
  LET rad == RadianceFor(C, NominalRef, S, Mean, E) pe == PhotoE(C, NominalRef, rad, E, S.f) IN
  /\ RClose(RMul(S.K, RAdd(RDiv(RSum(pe), p), Thermal(C, S.temp, E))), Mean, One, One)
  /\ \A k \in 1..q : RClose(RMul(Radiance(NominalRef, E, 12, C.area, S.f, C.w[k]), PhotonsPer(NominalRef, E, C.area, C.w[k], S.f)), 12, One, 0)
Emit == CASE mode = "tile" -> PrintT("SCN " \o ToJson([mode |-> mode, pat |-> Pattern, h |-> h, w |-> w]))
          [] mode = "near" -> PrintT("SCN " \o ToJson([mode |-> mode, arr |-> arr]))
          [] OTHER -> TRUE
Inv == TileOk /\ NearOk /\ ConvOk /\ Emit
=============================================================================
