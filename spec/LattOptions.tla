----------------------------- MODULE LattOptions -----------------------------
(* The options of count that select how, not what, is computed, and which    *)
(* combinations are supported.  A behaviour is one choice; TLC enumerates    *)
(* the whole space exhaustively (LattOptions as a model) or draws from it.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES o, step
Alg == {"", "--dual", "--homog", "--irrational-primal", "--irrational-all-primal"}
Spec_ == {"", "--polynomial", "--exponential"}
Det_ == {"", "--maxdet=2", "--maxdet=7", "--maxdet=1000", "--no-decomposition"}
Tri == {"", "--triangulation=cdd", "--triangulation=cddlib", "--triangulation=4ti2", "--triangulation=topcom",
        "--triangulation=delone"}
TriMore == {"", "--triangulation-max-height=2", "--triangulation-max-height=50", "--nonsimplicial-subdivision",
            "--triangulation-bias=50"}
Dualization == {"", "--dualization=cdd", "--dualization=4ti2"}
Cones == {"", "--compute-vertex-cones=cdd", "--compute-vertex-cones=lrs", "--compute-vertex-cones=4ti2", "lrs"}
Misc == {"", "--redundancy-check=none", "--redundancy-check=cddlib", "--random-seed=1", "--random-seed=4711", "--random-seed=99999",
         "memsave", "equ", "--count-lattice-points"}

Field == <<"alg", "spec", "det", "tri", "trimore", "dualization", "cones", "misc">>
Dom(f) == CASE f = "alg" -> Alg [] f = "spec" -> Spec_ [] f = "det" -> Det_ [] f = "tri" -> Tri
            [] f = "trimore" -> TriMore [] f = "dualization" -> Dualization [] f = "cones" -> Cones
            [] f = "misc" -> Misc

(* Combinations that must give a number.  The others may refuse (they are    *)
(* stopped by a message or an assertion) but must not give a different one.  *)
Supported(x) ==
  /\ x.alg = "--homog" => x.spec # "--exponential" /\ x.det = ""
  /\ x.tri # "--triangulation=delone"
  \* hidden equations survive and the cones are not full-dimensional
  /\ x.misc = "--redundancy-check=none" => x.alg \in {"", "--dual"}
  \* a facet given twice stays, and TOPCOM crashes on a point given twice
  /\ x.tri = "--triangulation=topcom" => x.misc \notin {"--redundancy-check=cddlib", "--redundancy-check=none"}
  \* few heights need not give a triangulation; then an assertion stops the run
  /\ x.trimore \notin {"--nonsimplicial-subdivision", "--triangulation-bias=50", "--triangulation-max-height=2",
                       "--triangulation-max-height=50"}
Args(x) == SelectSeq([i \in DOMAIN Field |-> x[Field[i]]], LAMBDA s : s # "")

Init == o = [f \in {Field[i] : i \in DOMAIN Field} |-> ""] /\ step = 0
(* one option at a time; at most Max options are set *)
CONSTANT Max
Chosen(x) == Cardinality({i \in DOMAIN Field : x[Field[i]] # ""})
Choose(v(_)) ==
  /\ step < Len(Field)
  /\ LET f == Field[step + 1] IN o' = [o EXCEPT ![f] = v(f)]
  /\ Chosen(o') <= Max
  /\ step' = step + 1
Next == step < Len(Field) /\ \E v \in Dom(Field[step + 1]) : Choose(LAMBDA f : v)
Spec == Init /\ [][Next]_<<o, step>>
(* the order in which independent options are given is irrelevant; every     *)
(* complete choice is a list of distinct arguments, one per field            *)
ArgsOK == step = Len(Field) => /\ Cardinality({Args(o)[i] : i \in DOMAIN Args(o)}) = Len(Args(o))
                               /\ Len(Args(o)) = Chosen(o)

(* drawing: fields are usually left alone *)
kSub(k) == {S \in SUBSET {Field[i] : i \in DOMAIN Field} : Cardinality(S) = k}
GenNext ==
  /\ step = 0
  /\ \E k \in {RandomElement(1..Max)} :
     \E F \in {RandomElement(kSub(k))} :
       \E x \in {[f \in DOMAIN o |-> IF f \in F THEN RandomElement(Dom(f)) ELSE ""]} :
          /\ o' = x /\ step' = Len(Field)
          /\ PrintT("CASE " \o ToJson([args |-> Args(x), must |-> Supported(x)]))
GenSpec == Init /\ [][GenNext]_<<o, step>>
=============================================================================
