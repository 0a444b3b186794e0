----------------------------- MODULE SarDisplay -----------------------------
(* Display of complex SAR pixels <<re, im>> (integers).  Power is re^2+im^2,  *)
(* magnitude its root.  A display value is 255 times the value over the scale *)
(* times the mean of the values, limited to 255: the power for the histogram  *)
(* stretch, the magnitude for the quarter power image.  An image without any  *)
(* signal is black.                                                           *)
EXTENDS Arith, FiniteSets
Power(p) == p[1] * p[1] + p[2] * p[2]
IsRoot(m, v) == m >= 0 /\ m * m = v
Root(v) == CHOOSE m \in 0..v : IsRoot(m, v)
\* exact display value as a fraction: 255*v*n over s*sum, limited to 255
DNum(v, n, s, sum) == IF sum = 0 THEN 0 ELSE Min2(255 * v * n, 255 * s * sum)
DDen(s, sum) == IF sum = 0 THEN 1 ELSE s * sum
Leq(v, w, n, s, sum) == DNum(v, n, s, sum) <= DNum(w, n, s, sum)
\* observed value in hundredths is the exact one to one hundredth
Shows(obs, v, n, s, sum) == /\ obs # NaN
                            /\ Abs(obs * DDen(s, sum) - 100 * DNum(v, n, s, sum)) <= DDen(s, sum)
\* (re, im), in thousandths, is amplitude a turned by e eighths of a turn
Eighth == <<1000, 707, 0, -707, -1000, -707, 0, 707>>
Turned(a, e, re, im) == /\ Within(re, a * Eighth[e + 1], 1 + a)
                        /\ Within(im, a * Eighth[((e + 6) % 8) + 1], 1 + a)
\* two display values without their fractions, the second perhaps limited to 255, of magnitudes in the same proportion
Proportional(o, m, p, n) == /\ o * n <= (p + 1) * m \/ p = 255
                            /\ p * m <= (o + 1) * n
=============================================================================
