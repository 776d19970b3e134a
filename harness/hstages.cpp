// Reads a polyhedron with the options of `count`, decomposes its cones and
// prints what every stage produced, one JSON object per line (big integers
// as strings).
#include <fstream>
#include <iostream>
#include "ReadPolyhedron.h"
#include "LattException.h"
#include "barvinok/barvinok.h"
#include "barvinok/dec.h"
#include "genFunction/piped.h"
#include "genFunction/matrix_ops.h"
#include "triangulation/triangulate.h"
#include "dual.h"
#include "Irrational.h"
#include "print.h"
#include "latte_random.h"
#include "cone_consumer.h"
#include "vertices/cdd.h"

static ofstream out;

static void vec(const vec_ZZ &v) {
  out << "[";
  for (int i = 0; i < v.length(); i++) out << (i ? "," : "") << "\"" << v[i] << "\"";
  out << "]";
}
static void vecs(listVector *l) {
  out << "[";
  for (bool first = true; l; l = l->rest, first = false) { if (!first) out << ","; vec(l->first); }
  out << "]";
}
static void vertex(const Vertex *v) {
  if (!v || !v->vertex) { out << "null"; return; }
  out << "[";
  vec(v->vertex->numerators());
  out << ",";
  vec(v->vertex->denominators());
  out << "]";
}
static void cone(const char *stage, const listCone *c) {
  out << "{\"stage\":\"" << stage << "\",\"coef\":" << c->coefficient << ",\"det\":\"" << c->determinant
      << "\",\"vertex\":";
  vertex(c->vertex);
  out << ",\"rays\":";
  vecs(c->rays);
  out << ",\"facets\":";
  vecs(c->facets);
  out << ",\"points\":";
  vecs(c->latticePoints);
  out << "}" << endl;
}

class Collect : public ConeConsumer {
public:
  int ConsumeCone(listCone *c) { cone("final", c); freeCone(c); return 1; }
};

int main(int argc, char **argv) {
  ReadPolyhedronData read;
  BarvinokParameters *params = new BarvinokParameters;
  params->substitution = BarvinokParameters::NoSubstitution;
  params->decomposition = BarvinokParameters::DualDecomposition;
  params->max_determinant = 1;
  bool decompose = true;
  out.open(argv[1]);
  for (int i = 2; i < argc; i++) {
    string a = argv[i];
    if (a == "--no-decomposition") params->max_determinant = 0;
    else if (a.compare(0, 9, "--maxdet=") == 0) params->max_determinant = atoi(argv[i] + 9);
    else if (a == "--irrational-all-primal") params->decomposition = BarvinokParameters::IrrationalAllPrimalDecomposition;
    else if (a == "--irrational-primal") params->decomposition = BarvinokParameters::IrrationalPrimalDecomposition;
    else if (a == "--dual") params->decomposition = BarvinokParameters::DualDecomposition;
    else if (a == "--read-only") decompose = false;
    else if (a.compare(0, 14, "--random-seed=") == 0) seed_random_generator(atoi(argv[i] + 14));
    else if (parse_standard_triangulation_option(argv[i], params)) {}
    else if (parse_standard_dualization_option(argv[i], params)) {}
    else if (parse_standard_smith_option(argv[i], params)) {}
    else if (read.parse_option(argv[i])) {}
    else { cerr << "Unknown option " << a << endl; return 2; }
  }
  Polyhedron *Poly;
  try {
    Poly = read.read_polyhedron(params);
    out << "{\"stage\":\"read\",\"vars\":" << Poly->numOfVars << ",\"homogenized\":" << Poly->homogenized
        << ",\"dualized\":" << Poly->dualized << ",\"unbounded\":" << Poly->unbounded
        << ",\"projected\":" << (Poly->projecting_up_transducer ? 1 : 0) << ",\"basis\":[";
    if (Poly->projecting_up_transducer)
      for (int i = 0; i < read.AA.NumRows(); i++) { if (i) out << ","; vec(read.AA[i]); }
    out << "],\"origin\":";
    if (Poly->projecting_up_transducer) vec(read.bb); else out << "[]";
    out << ",\"matrix\":";
    vecs(read.matrix);
    out << "}" << endl;
    for (listCone *c = Poly->cones; c; c = c->rest) cone("vertex", c);
    if (!decompose) return 0;
    if (not Poly->dualized && Poly->cones != NULL && read.matrix != NULL && read.Vrepresentation[0] != 'y')
      computeTightInequalitiesOfCones(Poly->cones, read.matrix, Poly->numOfVars);
    params->File_Name = read.filename.c_str();
    params->Number_of_Variables = Poly->numOfVars;
    if (params->decomposition == BarvinokParameters::IrrationalAllPrimalDecomposition) {
      if (Poly->dualized) dualizeCones(Poly->cones, Poly->numOfVars, params);
      else if (Poly->cones && (Poly->cones->facets == NULL || Poly->cones->rays == NULL)) {
        dualizeCones(Poly->cones, Poly->numOfVars, params);
        dualizeCones(Poly->cones, Poly->numOfVars, params);
      }
      irrationalizeCones(Poly->cones, Poly->numOfVars);
      for (listCone *c = Poly->cones; c; c = c->rest) cone("irrational", c);
    } else if (not Poly->dualized) {
      dualizeCones(Poly->cones, Poly->numOfVars, params);
      Poly->dualized = true;
      for (listCone *c = Poly->cones; c; c = c->rest) cone("dual", c);
    }
    DelegatingSingleConeParameters *dp = new DelegatingSingleConeParameters(*params);
    ConeConsumer *consumer = compose(new PointsInParallelepipedComputingConeTransducer(dp), new Collect);
    dp->SetConsumer(consumer);
    for (listCone *c = Poly->cones; c; c = c->rest) {
      out << "{\"stage\":\"next\"}" << endl;
      barvinokDecomposition_Single(c, dp);
    }
    out << "{\"stage\":\"done\"}" << endl;
  } catch (LattException &e) {
    cerr << "exception" << endl;
    return 1;
  }
  return 0;
}
