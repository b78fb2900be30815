-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Legendre polynomials and Gauss-Legendre quadrature.                     *)
(* (Written with prefix operators: TLC then evaluates the tables once.)    *)
(***************************************************************************)
EXTENDS Real64, SequencesExt

(* <<P_0(x), ..., P_(n-1)(x)>> by the three-term recurrence *)
LOCAL LegStep(x, s, k) ==
   Append(s, RDiv(RSub(RMul(RMul(RI(2*k - 1), x), s[k]), RMul(RI(k - 1), s[k-1])), RI(k)))
Legendre(n, x) ==
   IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<R1>>
   ELSE FoldLeft(LAMBDA s, k : LegStep(x, s, k), <<R1, x>>, [i \in 1 .. n - 2 |-> i + 1])

(* Sum of c[n+1] * P_n(x)  (TLC evaluates it with the same method of class Quad;
   module Laws checks that both agree) *)
LegendreSum(c, x) == RDot(c, Legendre(Len(c), x))

(* Gauss-Legendre nodes (zeros of P_n, by Newton iteration) and weights *)
LOCAL DP(n, z, L) == RDiv(RMul(RI(n), RSub(RMul(z, L[n+1]), L[n])), RSub(RMul(z, z), R1))
LOCAL NewtonStep(n, z) == LET L == Legendre(n + 1, z) IN RSub(z, RDiv(L[n+1], DP(n, z, L)))
LOCAL Newton(it, n, z) == FoldLeft(LAMBDA y, k : NewtonStep(n, y), z, [k \in 1 .. it |-> k])
GLNode(n, i) == Newton(7, n, RCos(RDiv(RMul(RPi, RI(4*i - 1)), RI(4*n + 2))))
GLWeight(n, z) == LET d == DP(n, z, Legendre(n + 1, z)) IN
   RDiv(R2, RMul(RSub(R1, RMul(z, z)), RMul(d, d)))

Gauss(n) == LET x == Eager([i \in 1..n |-> GLNode(n, i)])
            IN [x |-> x, w |-> Eager([i \in 1..n |-> GLWeight(n, x[i])])]

G12 == Gauss(12)
G64 == Gauss(64)
(* the same on the interval [a, b] *)
OnInterval(G, a, b) ==
   LET h == RDiv(RSub(b, a), R2) IN
   [x |-> Eager([i \in 1 .. Len(G.x) |-> RAdd(a, RMul(h, RAdd(R1, G.x[i])))]),
    w |-> Eager([i \in 1 .. Len(G.w) |-> RMul(h, G.w[i])])]
G64h == OnInterval(G64, R0, R1)

(* rules on [0, 1] and [-1, 1] whose nodes are dense at 1 (substitutions
   x = 1 - u^2 and x = 1 - 2 u^2), for functions with a peak near 1 *)
G64e == [x |-> Eager([i \in 1 .. 64 |-> RSub(R1, RMul(G64h.x[i], G64h.x[i]))]),
         w |-> Eager([i \in 1 .. 64 |-> RMul(R2, RMul(G64h.x[i], G64h.w[i]))])]
G64p == [x |-> Eager([i \in 1 .. 64 |-> RSub(RMul(R2, G64e.x[i]), R1)]), w |-> Eager([i \in 1 .. 64 |-> RMul(R2, G64e.w[i])])]

NMAX == 24
(* table: LegTab[n+1][i] = P_n(x_i) * w_i *)
LegTable(G) == LET rows == Eager([i \in 1 .. Len(G.x) |-> Legendre(NMAX, G.x[i])]) IN
   Eager([n \in 1 .. NMAX |-> Eager([i \in 1 .. Len(G.x) |-> RMul(rows[i][n], G.w[i])])])
LegTab  == LegTable(G64)
LegTabH == LegTable(G64h)
LegTabP == LegTable(G64p)
=============================================================================
