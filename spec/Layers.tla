------------------------------- MODULE Layers -------------------------------
(* Sensor models stacked on one another.  A chip relates full image locations *)
(* to chip locations by a plane projective mapping, an integer 3x3 matrix     *)
(* (row major) from full to chip; a stack of chips is the product.  A         *)
(* composite answers with its precise member.                                 *)
EXTENDS Arith, FiniteSets

Mul(a, b) == [k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3
                             IN a[3*i+1] * b[j+1] + a[3*i+2] * b[j+4] + a[3*i+3] * b[j+7]]
Ident == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Det(a) == a[1]*(a[5]*a[9] - a[6]*a[8]) - a[2]*(a[4]*a[9] - a[6]*a[7]) + a[3]*(a[4]*a[8] - a[5]*a[7])
Adj(a) == << a[5]*a[9]-a[6]*a[8], a[3]*a[8]-a[2]*a[9], a[2]*a[6]-a[3]*a[5],
             a[6]*a[7]-a[4]*a[9], a[1]*a[9]-a[3]*a[7], a[3]*a[4]-a[1]*a[6],
             a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4] >>
\* the innermost (full image) chip is first
RECURSIVE Product(_)
Product(stack) == IF stack = <<>> THEN Ident ELSE Mul(stack[Len(stack)], Product(SubSeq(stack, 1, Len(stack) - 1)))

Hx(m, x, y) == m[1]*x + m[2]*y + m[3]
Hy(m, x, y) == m[4]*x + m[5]*y + m[6]
Hw(m, x, y) == m[7]*x + m[8]*y + m[9]
\* observed (gx, gy), in 1/u units, is the image of integer (x, y) under m
MapsTo(m, x, y, gx, gy, u, tol) ==
    /\ gx # NaN /\ gy # NaN /\ Hw(m, x, y) # 0
    /\ Abs(gx * Hw(m, x, y) - u * Hx(m, x, y)) <= tol * Abs(Hw(m, x, y))
    /\ Abs(gy * Hw(m, x, y) - u * Hy(m, x, y)) <= tol * Abs(Hw(m, x, y))
=============================================================================
