------------------------------- MODULE Camera -------------------------------
(* The simulated camera.  A configuration c is a record                     *)
(*   bits, uesat, ds0, s2 (dark signal mean and variance), iref, tref, tdbl *)
(*   (dark current), area, w (wavelengths in nm), qe (one row of pixels per *)
(*   wavelength), prnu (one value per pixel);                               *)
(* the settings s are a record K, bo, exp, temp, f, dsnu.  Times are in ns, *)
(* areas in um^2.  ref is pi/(h c): the photons per joule and metre, times  *)
(* pi.                                                                      *)
EXTENDS Rat, Integers, Sequences, FiniteSets

LOCAL Tiny == RPow(10, -9)
(* h = 6.63e-34 Js, c = 3e8 m/s *)
NominalRef == RDiv(RPi, RDiv(1989, RPow(10, 28)))

---------------------------------------------------------------------------
(* Photons of a pixel per unit of radiance.                                 *)
Geometry(f) == RDiv(1, RAdd(1, RMul(4, RMul(f, f))))
PhotonsPer(ref, exp, area, w, f) ==
  RMul(RMul(ref, Geometry(f)),
       RMul(RMul(RDiv(exp, RPow(10, 9)), RDiv(area, RPow(10, 12))), RPow(RDiv(w, RPow(10, 9)), 2)))

(* Electrons.                                                               *)
Pow2(x) == IF RIsInt(x) THEN RPow(2, RToInt(x)) ELSE RExp(RMul(x, RLn(2)))
DarkCurrent(c, temp) == RMul(c.iref, Pow2(RDiv(RSub(temp, c.tref), c.tdbl)))
Thermal(c, temp, exp) == RMul(DarkCurrent(c, temp), RDiv(exp, RPow(10, 9)))
(* rad: radiance, one number or one row of pixels, for each wavelength      *)
LOCAL Scaled(row, rad, g) == IF Len(rad) = 1 THEN RVScale(row, RMul(rad[1], g)) ELSE RVScale(RVMul(row, rad), g)
RECURSIVE PhotoUpTo(_, _, _, _, _, _)
PhotoUpTo(c, ref, rad, exp, f, n) ==
  LET here == Scaled(c.qe[n], rad[n], PhotonsPer(ref, exp, c.area, c.w[n], f))
  IN IF n = 1 THEN here ELSE RVAdd(PhotoUpTo(c, ref, rad, exp, f, n - 1), here)
PhotoE(c, ref, rad, exp, f) == RVMul(c.prnu, PhotoUpTo(c, ref, rad, exp, f, Len(c.w)))

---------------------------------------------------------------------------
(* From electrons to DN.                                                    *)
Clip(x, a, b) == RMin(RMax(x, a), b)
Top(c) == RSub(RPow(2, c.bits), 1)
Analog(c, s, e) == RAdd(RMul(s.K, Clip(e, 0, c.uesat)), s.bo)
(* the image value is the rounding, up to the rounding of the arithmetic    *)
LOCAL Slack(v) == RMul(Tiny, RAdd(1, RAbs(v)))
LowDN(c, v) == Clip(RRint(RSub(v, Slack(v))), 0, Top(c))
HighDN(c, v) == Clip(RRint(RAdd(v, Slack(v))), 0, Top(c))
InRange(c, s, e, lo, hi, x) == /\ RLe(LowDN(c, Analog(c, s, RSub(e, lo))), x)
                               /\ RLe(x, HighDN(c, Analog(c, s, RAdd(e, hi))))
PixelType(c) == IF c.bits <= 8 THEN "uint8" ELSE IF c.bits <= 16 THEN "uint16" ELSE "uint64"
BitsOf(type) == CASE type = "uint8" -> 8 [] type = "uint16" -> 16 [] type = "uint32" -> 32 [] type = "uint64" -> 64 [] OTHER -> 0

---------------------------------------------------------------------------
(* Settings on equally spaced grids.                                        *)
GridAt(lo, hi, n, k) == IF n = 1 THEN lo ELSE RAdd(lo, RMul(RDiv(RSub(hi, lo), n - 1), k - 1))
Grid(lo, hi, n) == [k \in 1..n |-> GridAt(lo, hi, n, k)]
Dist(v, x) == RAbs(RSub(v, x))
IsNearest(v, grid, got, tol) ==
  /\ \E k \in DOMAIN grid : RLe(Dist(grid[k], got), tol)
  /\ \A k \in DOMAIN grid : RLe(Dist(v, got), RAdd(Dist(v, grid[k]), RMul(2, tol)))

(* Radiance that gives a number of photons, and the one that makes the      *)
(* pixels collect on average the electrons of a grey value, photo and       *)
(* thermal ones together.                                                   *)
Radiance(ref, exp, photons, area, f, w) == RDiv(photons, PhotonsPer(ref, exp, area, w, f))
ElectronsFor(s, mean) == RDiv(mean, s.K)
RadianceFor(c, ref, s, mean, exp) ==
  LET ue == RDiv(RSub(ElectronsFor(s, mean), Thermal(c, s.temp, exp)), Len(c.w))
      qe == RDiv(RSum([k \in DOMAIN c.qe |-> RSum(c.qe[k])]), Len(c.qe) * Len(c.qe[1]))
  IN [k \in DOMAIN c.w |-> <<Radiance(ref, exp, RDiv(ue, qe), c.area, s.f, c.w[k])>>]

---------------------------------------------------------------------------
(* Tilings: value at pixel (y, x), from 1, of a pattern of rows.            *)
TileAt(rows, y, x) == LET row == rows[((y - 1) % Len(rows)) + 1] IN row[((x - 1) % Len(row)) + 1]
Tile(rows, h, w) == [y \in 1..h |-> [x \in 1..w |-> TileAt(rows, y, x)]]
=============================================================================
