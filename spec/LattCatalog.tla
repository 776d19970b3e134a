----------------------------- MODULE LattCatalog -----------------------------
(* Families of polyhedra with a known structure, drawn at random              *)
(* (tlc -simulate).  Unlike LattBuild their integer points are not carried    *)
(* along: the trace specification that judges the runs enumerates them.       *)
(* An instance is [fam, n, rows, lin, deg, integral, how, verts]:             *)
(*   deg       bound on the dimension of the polytope                         *)
(*   integral  all vertices are integral (by total unimodularity, or because  *)
(*             they were chosen)                                              *)
EXTENDS LattBuild
CONSTANT Families       \* the families to draw from
VARIABLES inst

R(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> R(S)]
Nonneg(n) == [i \in 1..n |-> UnitRow(n, i, 0, 1)]
InstBox(f, n, rs, l, deg, integral, how, vs, lo, hi) ==
  inst' = [fam |-> f, n |-> n, rows |-> rs, lin |-> SetToSeq(l), deg |-> deg,
           integral |-> integral, how |-> how, verts |-> vs, lo |-> lo, hi |-> hi]
Inst(f, n, rs, l, deg, integral, how, vs) == InstBox(f, n, rs, l, deg, integral, how, vs, <<>>, <<>>)

Knapsack(n, a, b) ==
  Inst("knapsack", n, << <<-b>> \o a >> \o Nonneg(n), {1}, n - 1, FALSE, "box", <<>>)
(* r x c tables with row sums p and column sums q *)
TableRow(r, c, F(_, _), b) == <<b>> \o [k \in 1..(r * c) |-> F(1 + ((k - 1) \div c), 1 + ((k - 1) % c))]
Transport(r, c, p, q) ==
  Inst("transport", r * c,
       [i \in 1..r |-> TableRow(r, c, LAMBDA x, y : IF x = i THEN 1 ELSE 0, -p[i])]
       \o [j \in 1..c |-> TableRow(r, c, LAMBDA x, y : IF y = j THEN 1 ELSE 0, -q[j])]
       \o Nonneg(r * c), 1..(r + c), (r - 1) * (c - 1), TRUE, "box", <<>>)
(* semi-magic squares, with both diagonals when diag *)
Magic(m, s, diag) ==
  LET sums == [i \in 1..m |-> TableRow(m, m, LAMBDA x, y : IF x = i THEN 1 ELSE 0, -s)]
              \o [j \in 1..m |-> TableRow(m, m, LAMBDA x, y : IF y = j THEN 1 ELSE 0, -s)]
              \o (IF diag THEN <<TableRow(m, m, LAMBDA x, y : IF x = y THEN 1 ELSE 0, -s),
                                 TableRow(m, m, LAMBDA x, y : IF x + y = m + 1 THEN 1 ELSE 0, -s)>>
                  ELSE <<>>)
  IN Inst("magic", m * m, sums \o Nonneg(m * m), 1..Len(sums), (m - 1) * (m - 1), ~diag, "box", <<>>)
(* 0 <= x_i <= k, x_i <= x_j for the pairs in E *)
Pair(n, i, j, b, s, t) == <<b>> \o [h \in 1..n |-> IF h = i THEN s ELSE IF h = j THEN t ELSE 0]
OrderPoly(n, k, E) ==
  LET es == SetToSeq(E)
  IN Inst("order", n, BoxRows([i \in 1..n |-> 0], [i \in 1..n |-> k])
                      \o [e \in DOMAIN es |-> Pair(n, es[e][1], es[e][2], 0, -1, 1)], {}, n, TRUE, "box", <<>>)
(* x >= 0, x_i + x_j <= k on the edges, every variable bounded by k *)
Graph(n, k, E) ==
  LET es == SetToSeq(E)
  IN Inst("graph", n, BoxRows([i \in 1..n |-> 0], [i \in 1..n |-> k])
                      \o [e \in DOMAIN es |-> Pair(n, es[e][1], es[e][2], k, -1, -1)], {}, n, FALSE, "box", <<>>)
(* x >= 0, a.x <= b, with large entries *)
Orthant(a, b) ==
  Inst("orthant", Len(a), Nonneg(Len(a)) \o << <<b>> \o NegV(a) >>, {}, Len(a), FALSE, "box", <<>>)
Hull(vs) ==
  /\ NonDegenerate(vs)
  /\ Inst("hull", Len(vs) - 1, SimplexRows(vs), {}, Len(vs) - 1, TRUE, "hull", vs)
BoxCut(lo, w, cuts) ==
  Inst("boxcut", Len(lo), BoxRows(lo, AddV(lo, w)) \o cuts, {}, Len(lo), FALSE, "box", <<>>)
Hypersimplex(n, u, k) ==
  Inst("hypersimplex", n, BoxRows([i \in 1..n |-> 0], [i \in 1..n |-> u]) \o << <<-k>> \o [i \in 1..n |-> 1] >>,
       {2 * n + 1}, n - 1, TRUE, "box", <<>>)
Cube(n, u) == Inst("cube", n, BoxRows([i \in 1..n |-> 0], u), {}, n, TRUE, "box", <<>>)
Cross(n, k) ==
  LET S == SetToSeq([1..n -> {-1, 1}])
  IN InstBox("cross", n, [i \in DOMAIN S |-> <<k>> \o [j \in 1..n |-> S[i][j]]], {}, n, TRUE, "given", <<>>, [i \in 1..n |-> -k], [i \in 1..n |-> k])
Pyramid(n, k) ==      \* |x_i| <= k - z in n variables, height z in 0..k
  InstBox("pyramid", n + 1,
       << UnitRow(n + 1, n + 1, 0, 1) >>
       \o [i \in 1..n |-> [j \in 1..(n + 2) |-> IF j = 1 THEN k ELSE IF j = i + 1 THEN 1 ELSE IF j = n + 2 THEN -1 ELSE 0]]
       \o [i \in 1..n |-> [j \in 1..(n + 2) |-> IF j = 1 THEN k ELSE IF j = i + 1 THEN -1 ELSE IF j = n + 2 THEN -1 ELSE 0]],
       {}, n + 1, TRUE, "given", <<>>, [i \in 1..(n + 1) |-> IF i = n + 1 THEN 0 ELSE -k], [i \in 1..(n + 1) |-> k])

Draw(f) ==
  CASE f = "knapsack" -> \E n \in {R(2..6)}, w \in {R({3, 9, 30})} :
                         \E a \in {Vec(n, 1..w)}, b \in {R(0..30)} : Knapsack(n, a, b)
    [] f = "transport" -> \E q \in {R({<<2, 2, 30>>, <<2, 3, 9>>, <<2, 4, 4>>, <<3, 3, 4>>})} :
                          \E p \in {Vec(q[1], 0..q[3])} : \E s \in {Sum(p)} : \E v \in {Vec(q[2] - 1, 0..(s \div q[2]))} :
                            Transport(q[1], q[2], p, Append(v, s - Sum(v)))
    [] f = "magic" -> \E q \in {R({<<3, 12>>, <<3, 5>>, <<4, 1>>})}, d \in {R(BOOLEAN)} : \E s \in {R(0..q[2])} : Magic(q[1], s, d)
    [] f = "order" -> \E n \in {R(2..6)}, e \in {R(0..6)} : \E k \in {R(1..(IF n >= 5 THEN 2 ELSE 4))} :
                      \E E \in {{<<Min2(x[1], x[2]), Max2(x[1], x[2])>> : x \in ToSet([i \in 1..e |-> Vec(2, 1..n)])}} :
                        OrderPoly(n, k, {x \in E : x[1] # x[2]})
    [] f = "graph" -> \E n \in {R(2..5)}, e \in {R(1..6)} : \E k \in {R(1..(IF n >= 5 THEN 3 ELSE 5))} :
                      \E E \in {{<<Min2(x[1], x[2]), Max2(x[1], x[2])>> : x \in ToSet([i \in 1..e |-> Vec(2, 1..n)])}} :
                        Graph(n, k, {x \in E : x[1] # x[2]})
    [] f = "orthant" -> \E q \in {R({<<2, 60, 900>>, <<3, 25, 200>>, <<4, 9, 40>>, <<5, 5, 12>>})} :
                        \E a \in {Vec(q[1], 1..q[2])}, b \in {R(0..q[3])} : Orthant(a, b)
    [] f = "hull" -> \E q \in {R({<<2, 400>>, <<2, 30>>, <<3, 30>>, <<3, 8>>, <<4, 5>>})} :
                     \E vs \in {[i \in 1..(q[1] + 1) |-> Vec(q[1], -q[2]..q[2])]} : Hull(vs)
    [] f = "bighull" -> \E q \in {R({<<2, 1000>>, <<3, 80>>, <<4, 14>>})} :
                     \E vs \in {[i \in 1..(q[1] + 1) |-> Vec(q[1], -q[2]..q[2])]} : Hull(vs)
    [] f = "smallhull" -> \E q \in {R({<<2, 4>>, <<3, 2>>, <<4, 1>>})} :
                     \E vs \in {[i \in 1..(q[1] + 1) |-> Vec(q[1], -q[2]..q[2])]} : Hull(vs)
    [] f = "boxcut" -> \E q \in {R({<<2, 200>>, <<3, 20>>, <<4, 5>>})}, m \in {R(1..3)} :
                       \E lo \in {Vec(q[1], -q[2]..q[2])}, w \in {Vec(q[1], 0..q[2])} :
                       \E cuts \in {[i \in 1..m |->
                                      LET a == Vec(q[1], -9..9)
                                          x == [j \in 1..q[1] |-> lo[j] + R(0..w[j])]
                                      IN a \o x]} :
                         BoxCut(lo, w, [i \in 1..m |-> LET a == SubSeq(cuts[i], 1, q[1])
                                                           x == SubSeq(cuts[i], q[1] + 1, 2 * q[1])
                                                       IN <<2 - Dot(a, x)>> \o a])
    [] f = "hypersimplex" -> \E n \in {R(3..7)}, u \in {R(1..2)} : \E k \in {R(0..(n * u))} : Hypersimplex(n, u, k)
    [] f = "cube" -> \E n \in {R(1..7)} : \E u \in {Vec(n, 1..(IF n <= 3 THEN 40 ELSE 3))} : Cube(n, u)
    [] f = "cross" -> \E q \in {R({<<3, 6>>, <<4, 3>>, <<2, 20>>})} : \E k \in {R(0..q[2])} : Cross(q[1], k)
    [] f = "pyramid" -> \E q \in {R({<<2, 9>>, <<3, 4>>, <<4, 2>>})} : \E k \in {R(0..q[2])} : Pyramid(q[1], k)

VARIABLE fuel
cvars == <<dim, rows, lin, pts, ops, inst, fuel>>
CatInit == Init /\ inst = <<>> /\ fuel = 1
CatNext ==
  /\ fuel = 1 /\ fuel' = 0 /\ UNCHANGED vars
  /\ \E f \in {R(Families)} : Draw(f)
  /\ PrintT("CASE " \o ToJson(inst'))
CatSpec == CatInit /\ [][CatNext]_cvars
=============================================================================
