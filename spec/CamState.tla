------------------------------ MODULE CamState ------------------------------
(* The state of simulated cameras: settings that snap to grids and change   *)
(* only when set, and a stream of images that depends on the configuration, *)
(* the seed and the camera's own history of settings and grabs.             *)
(* A camera is [g, K, bo, exp, temp, f, dsnu, hist]; g is its configuration *)
(* [key, kmin, kmax, ksteps, bmin, bmax, bsteps, ...]; hist is the sequence *)
(* of the descriptions of what was done to it.                              *)
EXTENDS Camera

Fields == {"K", "bo", "exp", "temp", "f", "dsnu"}
GridTol(lo, hi) == RMul(RPow(10, -12), RAdd(RAbs(lo), RAbs(hi)))
Snaps(g, what, v, got) ==
  IF what = "K" THEN IsNearest(v, Grid(g.kmin, g.kmax, g.ksteps), got, GridTol(g.kmin, g.kmax))
  ELSE IF what = "bo" THEN IsNearest(v, Grid(g.bmin, g.bmax, g.bsteps), got, GridTol(g.bmin, g.bmax))
  ELSE IF what = "dsnu" THEN v = got
  ELSE REq(v, got)
(* the value a setting takes: the first of the nearest ones of its grid     *)
Nearest(v, grid) ==
  grid[CHOOSE k \in DOMAIN grid : /\ \A j \in DOMAIN grid : RLe(Dist(v, grid[k]), Dist(v, grid[j]))
                                  /\ \A j \in 1..(k - 1) : RLt(Dist(v, grid[k]), Dist(v, grid[j]))]
SetTo(g, what, v) ==
  IF what = "K" THEN Nearest(v, Grid(g.kmin, g.kmax, g.ksteps))
  ELSE IF what = "bo" THEN Nearest(v, Grid(g.bmin, g.bmax, g.bsteps)) ELSE v

Same(a, b) == /\ \A x \in Fields \ {"dsnu"} : RSame(a[x], b[x])
              /\ a.dsnu = b.dsnu
New(g, s) == [g |-> g, s |-> s, hist |-> <<g.key>>]
Did(cam, what, s) == [cam EXCEPT !.s = s, !.hist = Append(@, what)]
(* what image a grab gives: everything it may depend on                     *)
ImageKey(cam, what) == Append(cam.hist, what)
=============================================================================
