----------------------------- MODULE TriangTrace -----------------------------
(* Judges triangulations and subdivisions of a cone.  An event has the cones *)
(* written, each a sequence of rays (and facets, <<>> when none are given).  *)
(*  - the rays are rays of the given cone                                    *)
(*  - the cones have full dimension in the cone, and are simplicial unless   *)
(*    a subdivision was asked for                                            *)
(*  - their volumes add up to that of the cone                               *)
(*  - points of the cone are in one of them, generic points in exactly one   *)
(*  - facets that are written are those of the cone                          *)
(*  - heights = <<h_i>>: the cones are those of the regular subdivision      *)
EXTENDS LattTraceFile, LattRays
VARIABLES case, pos, abs, status
Ps == <<46337, 46327, 46309>>
PrimSet(rays) == {Primitive(rays[i]) : i \in DOMAIN rays}
Point(c, w) == [j \in 1..c.n |-> FoldLeftDomain(LAMBDA acc, i : acc + w[i] * c.rays[i][j], 0, w)]
Prep(rays, n) ==
  LET f == TLCEval(Frame(rays, n))
      Rs == TLCEval([i \in DOMAIN rays |-> Coordinates(rays[i], f.I)])
  IN [f |-> f, Rs |-> Rs, F |-> TLCEval(ConeFacets(Rs, f.d))]
P(c) ==
  LET q == Prep(c.rays, c.n)
      g == TLCEval(Grading(q.F, q.f.d))
      T0 == TLCEval(Placing(q.Rs, q.f.B))
  IN [f |-> q.f, Rs |-> q.Rs, F |-> q.F, g |-> g,
      vol |-> [k \in 1..3 |-> VolM(q.Rs, T0, g, Ps[k])],
      sample |-> {Coordinates(Point(c, c.weights[k]), q.f.I) : k \in DOMAIN c.weights}]
(* the cone K = rays in R^d: [ok, vol, where(x)] *)
Independent(R, d) == Len(R) = d /\ Det(R) # 0
KConeVol(R, B, g, p) == VolM(R, Placing(R, B), g, p)
WhereK(R, F, x) == IF F = {} THEN Where(R, x) ELSE WhereF(F, x)
Sum3(f) == FoldLeftDomain(LAMBDA acc, i : acc + f[i], 0, f)
(* lin: the height of a simplicial cone as a functional: sum over k of       *)
(* heights times cofactors; other rays must not lie below                    *)
HeightOf(c, hs, r) == hs[CHOOSE i \in DOMAIN c.rays : Primitive(c.rays[i]) = Primitive(r)]
Interp(R, h, x) ==    \* det(R) times the value at x of the functional with values h on the rows of R
  LET cf == TLCEval([k \in DOMAIN R |-> Det([i \in DOMAIN R |-> IF i = k THEN x ELSE R[i]])])
  IN FoldLeftDomain(LAMBDA acc, k : acc + h[k] * cf[k], 0, R)
Regular(a, hs, R, h) ==   \* every ray of the cone is at least as high
  LET D == Det(R)
      diff(i) == Sgn(D) * (hs[i] * D - Interp(R, h, a.Rs[i]))
  IN \A i \in DOMAIN a.Rs : diff(i) >= 0
FacetOK(rays, fac) ==
  /\ \A i \in DOMAIN fac : \A k \in DOMAIN rays : Dot(fac[i], rays[k]) <= 0
Judge(c, a, ev) ==
  IF ev.rc # "ok" THEN (IF ev.must THEN "no triangulation is written" ELSE "")
  ELSE IF ev.bad # "" THEN ev.bad
  ELSE LET d == a.f.d
           K == ev.cones
           R == TLCEval([i \in DOMAIN K |-> [k \in DOMAIN K[i].rays |-> Coordinates(K[i].rays[k], a.f.I)]])
       IN IF \E i \in DOMAIN K : \E k \in DOMAIN K[i].rays : Primitive(K[i].rays[k]) \notin PrimSet(c.rays)
          THEN "a ray that is not a ray of the cone"
          ELSE IF \E i \in DOMAIN K : Len(R[i]) < d \/ (Len(R[i]) = d /\ Det(R[i]) = 0)
          THEN "a cone of lower dimension"
          ELSE IF ~ev.sub /\ \E i \in DOMAIN K : Len(R[i]) > d THEN "a cone that is not simplicial"
          ELSE LET Q == TLCEval([i \in DOMAIN K |-> IF Len(R[i]) = d THEN <<>> ELSE <<Prep(R[i], d)>>])
               IN IF \E i \in DOMAIN K : Q[i] # <<>> /\ Q[i][1].f.d < d THEN "a cone of lower dimension"
                  ELSE LET FF == TLCEval([i \in DOMAIN K |-> IF Q[i] = <<>> THEN {} ELSE Q[i][1].F])
                           B(i) == IF Q[i] = <<>> THEN [k \in 1..d |-> k] ELSE Q[i][1].f.B
                           inside(x) == {i \in DOMAIN K : WhereK(R[i], FF[i], x) = 1}
                       IN IF \E k \in 1..3 : a.vol[k] # FoldLeftDomain(LAMBDA acc, i : (acc + KConeVol(R[i], B(i), a.g, Ps[k])) % Ps[k], 0, K)
                          THEN "the volumes do not add up"
                          ELSE IF \E x \in a.sample : Cardinality(inside(x)) > 1 THEN "two cones overlap"
                          ELSE IF \E x \in a.sample : (\E j \in DOMAIN x : x[j] # 0) /\ \A i \in DOMAIN K : WhereK(R[i], FF[i], x) < 0 THEN "a point is not covered"
                          ELSE IF \E i \in DOMAIN K : ~FacetOK(K[i].rays, K[i].facets) THEN "a facet that is none"
                          ELSE IF ev.heights # <<>> /\ \E i \in DOMAIN K : Q[i] = <<>> /\ ~Regular(a, ev.heights, R[i], [k \in DOMAIN K[i].rays |-> HeightOf(c, ev.heights, K[i].rays[k])])
                          THEN "not the regular triangulation of these heights"
                          ELSE ""
E(c) == c.runs
S(c, a, ev) == Judge(c, a, ev)
T == INSTANCE LattTrace WITH Traces <- TraceFile, Prepare <- P, Events <- E, Step <- S
Spec == T!TraceSpec
=============================================================================
