-------------------------------- MODULE Poly --------------------------------
(* Rational polynomial cameras, exactly, over the integers.                   *)
(* RPC00B: STDI-0002 Vol 1 App E.  RSM polynomials: App U sections 6, 7.      *)
EXTENDS Arith

\* exponents of longitude, latitude, height in RPC00B coefficient order
RpcTerms == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,1,0>>, <<1,0,1>>, <<0,1,1>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>,
               <<1,1,1>>, <<3,0,0>>, <<1,2,0>>, <<1,0,2>>, <<2,1,0>>, <<0,3,0>>, <<0,1,2>>, <<2,0,1>>, <<0,2,1>>, <<0,0,3>> >>

\* eight times the RPC polynomial at (l2/2, p2/2, h2/2)
Rpc8(c, l2, p2, h2) ==
    SumSeq([i \in 1..20 |-> LET t == RpcTerms[i] IN
              c[i] * Pow(l2, t[1]) * Pow(p2, t[2]) * Pow(h2, t[3]) * Pow(2, 3 - t[1] - t[2] - t[3])])

\* RSM polynomial: power of x varies fastest, then y, then z
RsmPoly(p, x, y, z) ==
    LET nx == p.px + 1  ny == p.py + 1
    IN SumSeq([n \in 1..Len(p.c) |->
          LET m == n - 1 IN p.c[n] * Pow(x, m % nx) * Pow(y, (m \div nx) % ny) * Pow(z, m \div (nx * ny))])

\* RSM low order polynomial [1, X, Y, Z, XX, XY, XZ, YY, YZ, ZZ]
RsmLow(c, x, y, z) ==
    c[1] + c[2]*x + c[3]*y + c[4]*z + c[5]*x*x + c[6]*x*y + c[7]*x*z + c[8]*y*y + c[9]*y*z + c[10]*z*z

\* observed value v (scaled by k) equals (num/den)*scale + off, to one unit of v
RatioIs(v, k, num, den, scale, off) ==
    /\ v # NaN /\ den # 0
    /\ Abs(v * den - k * (num * scale + off * den)) <= Abs(den)

(* ---- sections of a sectioned image ---- *)
SectionOf(v, min, size, n) == Clamp(FloorDiv(v - min, size), 0, n - 1)
=============================================================================
