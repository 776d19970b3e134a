From 27a388405470cdd2a0d87c72572b831b2bf45412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 01/49] fix: count the nonnegativity rows in the emptiness
 check when the linearity line comes last

The flag that remembers a nonnegative line was overwritten by a linearity
line that follows it; the row count written to Check_emp.lp was then too
small and count gave up on a valid input file.
---
 code/latte/CheckEmpty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..d7295c7 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -86,7 +86,7 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
-- 
2.43.0


From d1ae4fb43602c9a3522c193f8b917128b4701cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 02/49] fix: report the point when the equations determine it
 and no inequality is left

With --redundancy-check=none or cddlib, redundant inequalities remain
that become constants; the single point was then reported as 0 points.
---
 code/latte/preprocess.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..b1cacd0 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -615,6 +615,14 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
+	if (newInequalities == NULL && newNumOfVars == 1) {
+		/* The equations determine the point, and it satisfies all
+		   inequalities. */
+		ofstream out("numOfLatticePoints");
+		cerr << "The number of lattice points is 1." << endl;
+		out << 1 << endl;
+		exit(0);
+	}
 	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
 
-- 
2.43.0


From 9c683f5eda23cd4660761800a1b9c1c0c841d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 03/49] fix: dilate the equations together with the
 inequalities before projecting

The dilated affine space can contain integer points when the original one
has none; the count of such a dilation was reported as 0, and a polytope
consisting of a single point was never dilated.
---
 code/latte/ReadPolyhedron.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 78ce1ac..7fecca2 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -767,8 +767,13 @@ listVector * ReadPolyhedronData::projectOutVariables(dd_MatrixPtr &M, int &numOf
 	if (equationsPresent[0] == 'y') {
 		{
 			vec_ZZ *generators = NULL;
+			/* Dilate before projecting: the integer points of the
+			 dilated affine space need not come from those of the
+			 original one. */
+			dilateListVector(equations, numOfVars, dilation_const);
+			dilateListVector(inequalities, numOfVars, dilation_const);
 			matrixTmp = preprocessProblem(equations, inequalities, &generators,
-					&numOfVars, cost, ProjU, interior, dilation_const);
+					&numOfVars, cost, ProjU, interior, /* dil: */ 1);
 			if (generators)
 				delete[] generators;
 		}
-- 
2.43.0


From 572f5bcbc897ec491cab336f0fd2144bf39bfba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 04/49] fix: apply --dilation to CDD vertex files

The dilation factor was silently ignored for V-representations in CDD
format.
---
 code/latte/ReadPolyhedron.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 7fecca2..3c068cc 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -654,6 +654,15 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 
 	switch (M->representation) {
 	case dd_Generator: /* V-representation */
+		if (dilation_const != 1) {
+			/* Dilate the points; the rays stay as they are. */
+			mpq_class dil(dilation_const);
+			for (int i = 0; i < M->rowsize; i++)
+				if (dd_Nonzero(M->matrix[i][0]))
+					for (int j = 1; j < M->colsize; j++)
+						mpq_mul(M->matrix[i][j], M->matrix[i][j],
+								dil.get_mpq_t());
+		}
 		return PolyhedronFromVrepMatrix(M, /* homogenize: */dualApproach[0]
 				== 'y');
 	case dd_Inequality: /* H-representation */
-- 
2.43.0


From 5c0daa0d5a48f1038c22bb55c81c4dc71b4d7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 05/49] fix: keep the rows added by the + keyword inside the
 matrix

---
 code/latte/ReadLatteStyle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..037bfc3 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -161,9 +161,10 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		// numOfVars counts the right-hand side column as well.
+		vector<int> nonnegatives(numOfVars - 1);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < numOfVars - 1; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0


From 0d41c8043e1a1bed61f96fbcc1289fe797819f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 06/49] fix: report a polyhedron that contains a line as
 unbounded

The 4ti2 vertex-cone code assumed a pointed homogenization and aborted.
---
 code/latte/VertexConesWith4ti2.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/latte/VertexConesWith4ti2.cpp b/code/latte/VertexConesWith4ti2.cpp
index 687edfd..7e677be 100644
--- a/code/latte/VertexConesWith4ti2.cpp
+++ b/code/latte/VertexConesWith4ti2.cpp
@@ -31,6 +31,7 @@
 #include "DualizationWith4ti2.h"
 
 #include "print.h"
+#include "LattException.h"
 
 using namespace _4ti2_;
 
@@ -88,9 +89,11 @@ computeVertexConesWith4ti2(listVector* ineqs, int numOfVars,
   }
 #endif
   
-  assert(subspace->get_number() == 0); /* We assume polytopes,
-					  thus a pointed
-					  homogenization */
+  if (subspace->get_number() != 0) {
+    /* The homogenization is not pointed. */
+    cerr << "The polyhedron is unbounded (it contains a line)." << endl;
+    THROW_LATTE(LattException::pe_Unbounded, 0);
+  }
   delete matrix;
   delete subspace;
   
-- 
2.43.0


From 4913fcfea04c0600b304d6707e820a50139bf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 07/49] fix: detect unbounded polyhedra on the homogenization
 path

count --homog printed a meaningless number for unbounded polyhedra.
---
 code/latte/ReadPolyhedron.cpp | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 3c068cc..0d22e7c 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -23,6 +23,7 @@
 
 #include <cstring>
 
+#include <NTL/LLL.h>
 #include "CheckEmpty.h"
 #include "ReadLatteStyle.h"
 #include "ReadPolyhedron.h"
@@ -257,6 +258,51 @@ bool ReadPolyhedronData::parse_option(const char *arg) {
 	return true;
 }
 
+/**
+ * Decides whether { x : b + A x >= 0 } has a direction of unboundedness,
+ * i.e., whether A x >= 0 has a solution other than 0.
+ * @parm matrix: rows in cdd format ( b | A ), without equations.
+ */
+static bool hasRecessionDirection(listVector *matrix, int numOfVars) {
+	int numOfRows = lengthListVector(matrix);
+	int i, j;
+	listVector *row;
+
+	/* Lines */
+	mat_ZZ A;
+	A.SetDims(numOfRows, numOfVars);
+	for (row = matrix, i = 0; row; row = row->rest, i++)
+		for (j = 0; j < numOfVars; j++)
+			A[i][j] = row->first[j + 1];
+	ZZ det2;
+	if (image(det2, A) < numOfVars)
+		return true;
+
+	/* Maximize the sum of all A_i x subject to 0 <= A_i x <= 1. */
+	dd_MatrixPtr M = dd_CreateMatrix(2 * numOfRows, numOfVars + 1);
+	M->representation = dd_Inequality;
+	M->numbtype = dd_Rational;
+	M->objective = dd_LPmax;
+	for (row = matrix, i = 0; row; row = row->rest, i++) {
+		dd_set_si(M->matrix[numOfRows + i][0], 1);
+		for (j = 1; j <= numOfVars; j++) {
+			mpq_class a = convert_ZZ_to_mpq(row->first[j]);
+			dd_set(M->matrix[i][j], a.get_mpq_t());
+			dd_neg(M->matrix[numOfRows + i][j], a.get_mpq_t());
+			dd_add(M->rowvec[j], M->rowvec[j], a.get_mpq_t());
+		}
+	}
+	dd_ErrorType err = dd_NoError;
+	dd_LPPtr lp = dd_Matrix2LP(M, &err);
+	check_cddlib_error(err, "hasRecessionDirection");
+	dd_LPSolve(lp, dd_DualSimplex, &err);
+	check_cddlib_error(err, "hasRecessionDirection");
+	bool result = dd_Positive(lp->optvalue);
+	dd_FreeLPData(lp);
+	dd_FreeMatrix(M);
+	return result;
+}
+
 /**
  * Converts a matrix to its v-rep or finds the tangent cones. The result is saved in the Polyhedron
  * @parm theMatirx: Full-dimensional inequality matrix in cdd format
@@ -290,6 +336,7 @@ void  ReadPolyhedronData::matrixToVerticesOrCones(listVector * theMatrix, int nu
 		delete rays; // deletes dummy head
 		Poly->dualized = true;
 		Poly->homogenized = true;
+		Poly->unbounded = hasRecessionDirection(theMatrix, numOfVars);
 	} else {
 		Poly->numOfVars = numOfVars;
 		/* Compute vertices and edges. */
@@ -937,6 +984,8 @@ Polyhedron *PolyhedronFromVrepMatrix(dd_MatrixPtr matrix, bool homogenize) {
 				for (j = 0; j < matrix->colsize - 1; j++)
 					ray[j] = convert_mpq_to_ZZ(matrix->matrix[i - 1][j + 1]);
 				ray[matrix->colsize - 1] = convert_mpq_to_ZZ(matrix->matrix[i - 1][0]);
+				if (IsZero(ray[matrix->colsize - 1]))
+					P->unbounded = true;
 				cone->rays = appendVectorToListVector(ray, cone->rays);
 				cone->vertex = new Vertex(createRationalVector(P->numOfVars));
 			}
-- 
2.43.0


From ca95eebf57622fe6fa76daf008b2b92c0e5c7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 08/49] fix: report unconstrained solutions of equations as
 unbounded

preprocessProblem claimed 0 lattice points when no inequality was left.
---
 code/latte/preprocess.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index b1cacd0..e072ab4 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -623,14 +623,12 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		out << 1 << endl;
 		exit(0);
 	}
-	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
-
-		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
-		ofstream out("numOfLatticePoints");
-		out << 0 << endl;
-		exit(0);
+		/* The solutions of the equations, all of them. */
+		cerr << "The polytope is not bounded." << endl;
+		exit(1);
 	}
+	checkListVector(newInequalities, newNumOfVars);
 	(*numOfVars) = newNumOfVars - 1;
 	return (newInequalities);
 }
-- 
2.43.0


From 5e2cb7b120f651a533b4069fb40f724a070dfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 09/49] fix: refuse homogenized generating functions of
 lower-dimensional polyhedra

The homogenizing coordinate was projected up as if it were a variable, and
a wrong generating function was written.
---
 code/latte/count.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index cc02803..277f83c 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -474,6 +474,14 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 
 			//multivariate generating function is printed.
 
+			if (Poly->homogenized && Poly->projecting_up_transducer)
+			{
+				cerr << "Multivariate generating functions are not yet implemented "
+						<< "for the homogenized version of polyhedra that are not full-dimensional."
+						<< endl;
+				THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
+			}
+
 			string rat_filename = read_polyhedron_data.filename + ".rat";
 			DelegatingSingleConeParameters *write_params =
 					new DelegatingSingleConeParameters(*params);
-- 
2.43.0


From 38de59b654f65a24a58174775fa449b5bb3a42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 10/49] fix: integrate polynomials whose terms combine, cancel
 or vanish

An assertion failed when the input listed a monomial twice, and
polynomials or sums of linear forms that are zero crashed.
---
 code/latte/integration/PolyTrie.cpp        | 4 ++--
 code/latte/integration/iterators.hpp       | 2 ++
 code/latte/valuation/PolytopeValuation.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 0d1a9cd..1bbd4f1 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -490,7 +490,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 	//cout << "in decompost()::\n";
 	temp = it->nextTerm();
 
-	do
+	while (temp) //the terms might have canceled
 	{
 		//cout << "monomial " << temp->coef;
 		//for(int i = 0; i < temp->length; ++i)
@@ -498,7 +498,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 		//cout << "\n";
 		decompose(temp, lForm);
 		temp = it->nextTerm();
-	} while (temp);
+	}
 
 	//delete myPoly.myMonomials;
 }
diff --git a/code/latte/integration/iterators.hpp b/code/latte/integration/iterators.hpp
index 3fe0158..5bf2109 100644
--- a/code/latte/integration/iterators.hpp
+++ b/code/latte/integration/iterators.hpp
@@ -31,6 +31,8 @@ public:
 	{
 		//cout << "Next container at depth " << curDepth << endl;
 		trieElem* nextElem;
+		if (!myTrie || !myTrie->range) //no terms at all
+			return NULL;
 		if (curDepth < 0)
 		{
 			curDepth++;
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..6e0c38b 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -246,7 +246,8 @@ void PolytopeValuation::dilatePolynomialToLinearForms(linFormSum &linearForms, c
 		}//insert the non-constant monomial
 	}//for every term in the originalPolynomial
 
-	assert(originalPolynomial.termCount == transformedPolynomial.termCount + numberConstantTerms
+	//equal monomials of the input are combined (and might cancel), so there might be fewer terms than were inserted.
+	assert(originalPolynomial.termCount >= transformedPolynomial.termCount + numberConstantTerms
 			&& originalPolynomial.varCount == transformedPolynomial.varCount );
 	assert(numberConstantTerms <= 1);
 
-- 
2.43.0


From 0851035b0ed37f4aca2b918e3d4cfe891e513e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 11/49] fix: products of linear forms whose integral over a
 simplex is zero

The coefficient looked for is absent from the product when it is zero;
an assertion failed and an uninitialised flag was read.
---
 code/latte/integration/newIntegration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..bc85663 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,8 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	if (found == false)
+		answer = 0; //the coeff. of M is zero, so there is no such term.
 
 	return answer;
 }//integrateLinFormProducts
-- 
2.43.0


From 72da18442fb466233f3cac317884bc7e88178e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 12/49] fix: products of linear forms with equal, constant or
 zero factors

Equal factors of a product were added instead of multiplied, constant
factors were refused or, when all factors were constant, added up, and
a product with coefficient zero lost only its first factor.
---
 code/latte/integration/PolyTrie.cpp | 47 +++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 1bbd4f1..5149290 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -332,6 +332,25 @@ void loadLinFormProducts(linFormProductSum &forms, const string line)
 	parseLinFormProducts(myLoader, line);
 	delete myLoader;
 }
+//Adds the product coefficient * forms[0]^degrees[0] * forms[1]^degrees[1] * ... (the forms are different).
+static void consumeLinFormProduct(FormProductLoadConsumer<RationalNTL>* consumer, RationalNTL coefficient,
+		const vector<int>& degrees, const vector<vec_ZZ>& forms)
+{
+	if (coefficient == 0)
+		return;
+	int productIndex = consumer->initializeNewProduct();
+	if (forms.size() == 0) //a constant
+	{
+		vec_ZZ zero;
+		zero.SetLength(consumer->getDimension());
+		consumer->ConsumeLinForm(productIndex, coefficient, 0, zero);
+	}
+	for (size_t k = 0; k < forms.size(); ++k)
+	{
+		consumer->ConsumeLinForm(productIndex, coefficient, degrees[k], forms[k]);
+		coefficient = 1; //the other coefficients in this product are 1.
+	}
+}
 //Loads a string by parsing it as a sum of linear forms
 //linear form: a * (c^b * f^e * h^g) + ...
 //nested list: [ [a, [[b, [c]], [e, [f]], [g, [h]]]], ... ]
@@ -363,7 +382,10 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 	int degree;
 	RationalNTL coefficient;
 
-	int productIndex = 0;
+	//The factors of the current product. A product is kept in a set of terms (sorted by degree and form),
+	//so equal forms are collected into one power and constant factors (forms to the power zero) are left out.
+	vector<vec_ZZ> productForms;
+	vector<int> productDegrees;
 	for (int i = 1; i < line.length() - 1; i++) //ignore outermost square brackets
 	{
 		if (line[i] == '[')
@@ -380,8 +402,8 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 					flag = 1;
 					break;
 				case 1: //start of a product of linear forms [[p, [l]], ...],
-					productIndex = consumer->initializeNewProduct();
-					//cout << "new index:" << productIndex << endl;
+					productForms.clear();
+					productDegrees.clear();
 					flag = 2;
 					break;
 				case 2: //start of a power of linear form [p, [l]]
@@ -407,12 +429,18 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 						}
 					}//end of exponent vector.
 
-					//cout << "inserting " << coefficient << " ";
-					//for(int w = 0; w < coefs.length(); ++w)
-					//	cout << coefs[w] << ", ";
-					//cout << "into " << productIndex << endl;
-					consumer->ConsumeLinForm(productIndex, coefficient, degree, coefs);
-					coefficient = 1; //the other coefficients in this product are 1.
+					if (degree != 0)
+					{
+						for (k = 0; k < (int) productForms.size() && productForms[k] != coefs; ++k)
+							;
+						if (k == (int) productForms.size())
+						{
+							productForms.push_back(coefs);
+							productDegrees.push_back(degree);
+						}
+						else
+							productDegrees[k] += degree;
+					}
 
 					for(; line[i] != ']'; ++i); //end of linear form list: [[p, [l]] ]
 					//for(; line[i] != ']'; ++i); //end of linear form list: [[[p, [l]] ]
@@ -428,6 +456,7 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 						else if ( line[i] == ']')
 						{
 							flag = 0; //new product
+							consumeLinFormProduct(consumer, coefficient, productDegrees, productForms);
 							break;
 						}
 					}
-- 
2.43.0


From a657686cacfe2dabcdc0976d303124818d850cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 13/49] fix: refuse knapsack lists whose gcd is not one in the
 polynomial gcd search too

---
 code/latte/top-knapsack/TopKnapsack.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/top-knapsack/TopKnapsack.cpp b/code/latte/top-knapsack/TopKnapsack.cpp
index 67cd4df..766cf96 100644
--- a/code/latte/top-knapsack/TopKnapsack.cpp
+++ b/code/latte/top-knapsack/TopKnapsack.cpp
@@ -1333,7 +1333,10 @@ void TopKnapsack::everyGCDFromSubsets(int k)
 {
 	if (k == N+1)
 	{
-		gcds.insertGCD(to_ZZ(1));
+		ZZ g; //computeMobius() refuses a list whose gcd is not one.
+		for(int j = 0; j < alpha.length(); ++j)
+			g = GCD(g, alpha[j]);
+		gcds.insertGCD(g);
 		return;
 	}
 
-- 
2.43.0


From 066e2e5d9ed3a2baf2c666f7e962fba27f856361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 14/49] fix: accept a nonnegative line followed by a linearity
 line when removing redundancy with redcheck

The flag that remembers the nonnegative line was overwritten by the linearity
line, so the row count written for redcheck was too small and latte-maximize
and latte-minimize gave up on a valid input file.
---
 code/latte/ReadingFile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 211f6ea..779d955 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -63,11 +63,11 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       IN >> numOfEqu; 
       Index.SetLength(numOfEqu);
       for(int i = 0; i < numOfEqu; i++) IN >> Index[i];
-      flag = 1;
+      flag |= 1;
     }
     else if((tmpString == "NONNEGATIVE") || (tmpString == "nonnegative")){
       strcpy(nonneg, "yes");
-      flag = 2;
+      flag |= 2;
       IN >> numOfNonneg;
       Index2.SetLength(numOfNonneg);
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
@@ -82,7 +82,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(flag & 2) hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
@@ -176,7 +176,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       
   }
     in2.close();
-  if(flag == 2) strcpy(nonneg, "no");
+  if(flag & 2) strcpy(nonneg, "no");
   tmpString = "a";
   if(numOfEqu2 == 0) equ[0] = 'n';
   ifstream in3("Check_red.out");
-- 
2.43.0


From bdf15acdc4461abf9bc3e17871ffd697b1e814af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 15/49] fix: print the minimum, not its negative, when binary
 search stops at the relaxation

---
 code/latte/binarySearchIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..b472f3e 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -298,7 +298,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        if(min[0] == 'y')
+	  cerr << "The optimal value: " << 1 - high << endl << endl;
+	else
+	  cerr << "The optimal value: " << high - 1 << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From 7510523f5cdf8a930bfc0791a83736cb9592b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 16/49] fix: let binary search handle slices without points

count reports a slice that is empty over the reals with an error status (after
writing 0), which ended the search; it happened whenever the bound of the
relaxation was not attained.  Only a missing count is an error now, and a count
left over from an earlier slice is not read again.
---
 code/latte/binarySearchIP.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index b472f3e..68504c4 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 #include "cone.h"
 #include "print.h"
@@ -159,16 +160,34 @@ void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ
 }
 /* ----------------------------------------------------------------- */
 
+/* Count the lattice points of the polytope in the file latte_BS.  A slice
+   without real points is reported by `count' with an error status, after
+   writing its answer. */
+static ZZ CountSlice(const string &prefix)
+{
+  ZZ NumOfLatticePoints;
+  system_with_error_check("rm -f numOfLatticePoints numOfUnimodularCones");
+  string command = prefix + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count"))
+    + " latte_BS > latte_BS.out";
+  int status = system(command.c_str());
+  ifstream in("numOfLatticePoints");
+  if (!(in >> NumOfLatticePoints)) {
+    cerr << "Command `" << command << "' returned with exit status "
+	 << status << " and no number of lattice points." << endl;
+    exit(1);
+  }
+  return NumOfLatticePoints;
+}
+
+/* ----------------------------------------------------------------- */
+
 ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs)
 {
   ZZ NumOfLatticePoints;
 
   //system_with_error_check("rm numOfLatticePoints");
   createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
-  system_with_error_check(shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountSlice("");
   system_with_error_check("rm -f latte_BS*");
 
   return NumOfLatticePoints;
@@ -217,13 +236,7 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
   //system_with_error_check("rm -f numOfLatticePoints");
   createLatteFile(matrix, ineq, numOfVars + 1, rhs, lhs);
-  if(lengthListVector(matrix) != 0)
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-  else
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountSlice("time ");
 
   ifstream in2("numOfUnimodularCones");
   ZZ numOfUniCones;
-- 
2.43.0


From d4caeaaccca463adc7168d0478c5fb56be28ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 17/49] fix: perturb degenerate objectives without changing the
 optimum

Calculate_Pertubation took the sign of a negative ray coordinate along, so the
factor of the objective could be negative or too small, and it looked at the
rays although the points compared may be further apart.  latte-maximize and
latte-minimize then reported a point that is not optimal.  The factor now
exceeds what the perturbation can change within the polytope.
---
 code/latte/ConeInfo.cpp | 66 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 886ca84..a46ff64 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1444,54 +1444,52 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 	Return_Vector = *Cost;
 
 	listCone *tmpcone;
-	listVector *tmpVector;
-	ZZ	Maximum_Coordinate;
-	
-	Maximum_Coordinate = 0;
-	
-	tmpcone = cones;
-	
-	while (tmpcone)
+	vec_ZZ	Pertubation, Lowest, Highest;
+
+	Pertubation.SetLength (Number_of_Variables);
+
+	for (int i = 0; i < Number_of_Variables; i++)
 	{
-		tmpVector = tmpcone->rays;
+		Pertubation[i] = (rand() % Mod_Value)* (( rand () % 2)*2 - 1);
 
-		while (tmpVector)
+	}
+
+	// The polytope lies in the smallest box that contains its vertices.
+	Lowest.SetLength (Number_of_Variables);
+	Highest.SetLength (Number_of_Variables);
+
+	for (tmpcone = cones; tmpcone; tmpcone = tmpcone->rest)
+	{
+		for (int i = 0; i < Number_of_Variables; i++)
 		{
-			for (int i=0; i < Number_of_Variables; i++)
-			{
-				if (tmpVector->first[i] >= 0 && tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
-				if (tmpVector->first[i] <= 0 && -1* tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
+			ZZ Floor, Ceiling;
 
-		
-			}
-			
-			tmpVector = tmpVector->rest;
-		}	
+			// The denominators are positive; division rounds down.
+			Floor = tmpcone->vertex->vertex->numerators()[i] / tmpcone->vertex->vertex->denominators()[i];
+			Ceiling = -((-tmpcone->vertex->vertex->numerators()[i]) / tmpcone->vertex->vertex->denominators()[i]);
 
-		tmpcone = tmpcone->rest;
+			if (tmpcone == cones || Floor < Lowest[i])
+				Lowest[i] = Floor;
+			if (tmpcone == cones || Ceiling > Highest[i])
+				Highest[i] = Ceiling;
+		}
 	}
-	
+
+	// Between two points of the polytope the pertubation changes by less
+	// than M_Value, so it decides only between points of equal cost.
 	ZZ	M_Value;
 
-	M_Value = Mod_Value * Maximum_Coordinate * Number_of_Variables;
-	
-	// Take 2M + 1
-	M_Value *= 2;
-	M_Value += 1;
+	M_Value = 1;
 
-	
-	
 	for (int i = 0; i < Number_of_Variables; i++)
 	{
-		Return_Vector[i] = M_Value * Return_Vector[i];
+		M_Value += abs (Pertubation[i]) * (Highest[i] - Lowest[i]);
+
+	}
 
-	}	
-	
 	for (int i = 0; i < Number_of_Variables; i++)
 	{
-		Return_Vector[i] += (rand() % Mod_Value)* (( rand () % 2)*2 - 1);
+		Return_Vector[i] = M_Value * Return_Vector[i] + Pertubation[i];
 
 	}	
 	
-- 
2.43.0


From 8c79452c1660e01b89bebf4e6244dd16aa28b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 18/49] fix: ConvertCDDineToLatte keeps the linearity line, so
 equations stay equations

---
 code/latte/convertCDD_ine_to_latte.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..71e31b1 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -32,9 +32,22 @@ int main( int argc, const char* argv[] )
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
+	vector<long> equations; // 1-based, from the linearity line
 	while ( getline(input, line))
-		if ( line == "begin")
+	{
+		istringstream words(line);
+		string keyword;
+		words >> keyword;
+		if ( keyword == "begin")
 			break;
+		if ( keyword == "linearity")
+		{
+			long numEquations = 0, row;
+			words >> numEquations;
+			for(long i = 0; i < numEquations && words >> row; ++i)
+				equations.push_back(row);
+		}
+	}
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
@@ -59,6 +72,14 @@ int main( int argc, const char* argv[] )
 
 	}//for each row.
 
+	if ( equations.size())
+	{
+		output << "linearity " << equations.size();
+		for(size_t i = 0; i < equations.size(); ++i)
+			output << " " << equations[i];
+		output << endl;
+	}
+
 	input.close();
 	output.close();
 	return 0;
-- 
2.43.0


From 86724cf8b2ea78bf0737f26f0aa006fcd0e484eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 19/49] fix: aggregate reads its input without homogenizing it

---
 code/latte/aggregation/aggregation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/aggregation/aggregation.cpp b/code/latte/aggregation/aggregation.cpp
index b706742..100b1b7 100644
--- a/code/latte/aggregation/aggregation.cpp
+++ b/code/latte/aggregation/aggregation.cpp
@@ -133,7 +133,9 @@ int main(int argc, const char **argv)
 {
   if(argc < 2) usage();
 
-  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, false, "standard input");
+  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, /* vrep: */ false,
+					     /* homogenize: */ false,
+					     "standard input");
 
   dd_rowset aggset;
   set_initialize(&aggset, matrix->rowsize);
-- 
2.43.0


From 023c407c29f5122737d1f4415e79b852f1c61a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 20/49] fix: aggregate uses a positive lambda when all entries
 are zero

---
 code/latte/aggregation/aggregation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/aggregation/aggregation.cpp b/code/latte/aggregation/aggregation.cpp
index 100b1b7..4fe50cc 100644
--- a/code/latte/aggregation/aggregation.cpp
+++ b/code/latte/aggregation/aggregation.cpp
@@ -40,7 +40,8 @@ dd_MatrixPtr KannanAggregation(dd_MatrixPtr matrix,
   int num_cols = matrix->colsize;
   int num_aggrows = set_card(aggrows);
   int num_slacks = 0;
-  mpz_class b_max, A_max;
+  // At least 1, so that lambda is positive.
+  mpz_class b_max = 1, A_max = 1;
   int i, k;
   for (i = 0; i<num_rows; i++) {
     if (set_member(i + 1, aggrows)) {
-- 
2.43.0


From 9a7859454f94785e3350ee3c3ace170c723c62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 21/49] fix: 4ti2 triangulation does not return a nonsimplicial
 cone when the heights are dependent

---
 .../RegularTriangulationWith4ti2.cpp          | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..2613c46 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -82,6 +82,33 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+/* The heights yield the trivial subdivision.  Unless this is what we want,
+ try again with random heights. */
+static void consume_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, ConeConsumer &consumer)
+{
+	if (!Parameters->nonsimplicial_subdivision)
+	{
+		int num_rays = lengthListVector(cone->rays);
+		VectorArray *ray_column_matrix = rays_to_transposed_4ti2_VectorArray(
+				cone->rays, Parameters->Number_of_Variables,
+				/* extra_rows: */0);
+		int rank = upper_triangle(*ray_column_matrix,
+				Parameters->Number_of_Variables, num_rays);
+		delete ray_column_matrix;
+		if (num_rays > rank)
+		{
+			int max_height = Parameters->triangulation_max_height;
+			if (max_height < 2) /* would always be trivial */
+				max_height = 2;
+			triangulate_cone_with_4ti2(cone, Parameters, random_height,
+					&max_height, consumer);
+			return;
+		}
+	}
+	consumer.ConsumeCone(copyCone(cone));
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -113,7 +140,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		 a copy of the cone. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 	}
 
@@ -123,7 +150,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 #endif
 	}
-- 
2.43.0


From bdb477ffef33e1270c040c3dcca996b87e0c109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 22/49] fix: cdd dualization of a cone that is not
 full-dimensional keeps the lines of the dual

---
 code/latte/dual.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index ba688b5..4969911 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -30,6 +30,8 @@
 #include "barvinok/dec.h"
 #include "convert.h"
 #include <list>
+#include <set>
+#include <sstream>
 #include "latte_system.h"
 #include "latte_relocatable.h"
 
@@ -115,7 +117,18 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  /* If the cone is not full-dimensional, the dual cone contains lines;
+     cdd lists their generators in a `linearity' line. */
+  std::set<int> linearity;
+  while (tmpString!="begin") {
+    getline(in,tmpString);
+    if (tmpString.compare(0, 9, "linearity") == 0) {
+      istringstream line(tmpString.substr(9));
+      int num_lines, index;
+      line >> num_lines;
+      while (line >> index) linearity.insert(index);
+    }
+  }
 
   in >> numOfVertices >> tmpInt >> tmpString;
 
@@ -134,9 +147,14 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       }
     }
     w=normalizeRationalVector(w,numOfVars);
-    endFacets->rest=createListVector(w->numerators());
+    if (linearity.count(i + 1))
+      tmp->subspace_generators
+	= appendVectorToListVector(w->numerators(), tmp->subspace_generators);
+    else {
+      endFacets->rest=createListVector(w->numerators());
+      endFacets=endFacets->rest;
+    }
     delete w;
-    endFacets=endFacets->rest;
   }
   in.close();
 #if 0
-- 
2.43.0


From 6e527428da0abbd2614f7c753e63aac93f55e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 23/49] fix: --max-facets=N subdivides a cone only if it has
 more than N facets, as documented

---
 code/latte/normalize/normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..6800751 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -260,7 +260,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
       stats << endl;
     }
   }
-  else if (num_facets < max_facets) {
+  else if (num_facets <= max_facets) {
     // Use zsolve to compute the Hilbert basis.
 
     int cone_dimension = params.Number_of_Variables - lengthListVector(t->equalities);
-- 
2.43.0


From a8dc5b38f5ecfe986d04a5fdfc2d80b582c47beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 24/49] fix: --dilation applies to polyhedra given by saved
 cones

---
 code/latte/ReadPolyhedron.cpp | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 0d22e7c..7064fd3 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -552,6 +552,39 @@ Polyhedron *ReadPolyhedronData::read_polyhedron(dd_MatrixPtr M, BarvinokParamete
 }//read_polyhedron
 
 
+/* Divide all vectors by the gcd of their entries. */
+static void makePrimitive(listVector *vectors, int numOfVars) {
+	for (; vectors; vectors = vectors->rest) {
+		ZZ g;
+		int i;
+		for (i = 0; i < numOfVars; i++)
+			g = GCD(g, vectors->first[i]);
+		if (g > 1)
+			for (i = 0; i < numOfVars; i++)
+				vectors->first[i] /= g;
+	}
+}
+
+/**
+ * Dilates the polyhedron whose homogenization is given.
+ * @parm dualized: whether the rays of the cone are the normals of the homogenization.
+ */
+static void dilateHomogCone(listCone *cone, int numOfVars, bool dualized,
+		int dilation) {
+	listVector *generators = dualized ? cone->facets : cone->rays;
+	listVector *normals = dualized ? cone->rays : cone->facets;
+	listVector *v;
+	for (v = generators; v; v = v->rest)
+		for (int i = 0; i < numOfVars - 1; i++)
+			v->first[i] *= dilation;
+	for (v = normals; v; v = v->rest)
+		v->first[numOfVars - 1] *= dilation;
+	makePrimitive(generators, numOfVars);
+	makePrimitive(normals, numOfVars);
+	cone->determinant = 0; // no longer known
+	cone->dual_determinant = 0;
+}
+
 Polyhedron *
 ReadPolyhedronData::read_polyhedron_from_homog_cone_input(
 		BarvinokParameters *params) {
@@ -594,6 +627,9 @@ ReadPolyhedronData::read_polyhedron_from_homog_cone_input(
 	Poly->numOfVars = numOfVars;
 	Poly->homogenized = true;
 	Poly->dualized = input_dualized;
+	if (dilation_const != 1)
+		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
+			dilateHomogCone(cone, numOfVars, input_dualized, dilation_const);
 	return Poly;
 }
 
@@ -616,6 +652,9 @@ ReadPolyhedronData::read_polyhedron_from_vertex_cone_input(
 	Poly->numOfVars = numOfVars;
 	Poly->homogenized = false;
 	Poly->dualized = input_dualized;
+	if (dilation_const != 1)
+		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
+			cone->vertex->vertex->scalarMultiplication(to_ZZ(dilation_const), to_ZZ(1));
 	return Poly;
 }
 
-- 
2.43.0


From b9d029761c9c1d00dc7c49e45cc684dde71311ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 25/49] fix: unboundedness of polyhedra given by saved cones is
 reported

---
 code/latte/ReadPolyhedron.cpp | 41 +++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 7064fd3..a45eefe 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -585,6 +585,20 @@ static void dilateHomogCone(listCone *cone, int numOfVars, bool dualized,
 	cone->dual_determinant = 0;
 }
 
+/* Prepend the cdd-format rows of all facets ( b | A ), given as outer normals,
+   to matrix, ignoring b. */
+static listVector *
+facetsToMatrix(listVector *facets, int numOfVars, listVector *matrix) {
+	for (; facets; facets = facets->rest) {
+		vec_ZZ row;
+		row.SetLength(numOfVars + 1);
+		for (int i = 0; i < numOfVars; i++)
+			row[i + 1] = -facets->first[i];
+		matrix = appendVectorToListVector(row, matrix);
+	}
+	return matrix;
+}
+
 Polyhedron *
 ReadPolyhedronData::read_polyhedron_from_homog_cone_input(
 		BarvinokParameters *params) {
@@ -630,6 +644,19 @@ ReadPolyhedronData::read_polyhedron_from_homog_cone_input(
 	if (dilation_const != 1)
 		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
 			dilateHomogCone(cone, numOfVars, input_dualized, dilation_const);
+	if (input_dualized) {
+		listVector *rows = NULL;
+		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
+			rows = facetsToMatrix(cone->rays, numOfVars - 1, rows);
+		if (rows != NULL)
+			Poly->unbounded = hasRecessionDirection(rows, numOfVars - 1);
+		freeListVector(rows);
+	} else {
+		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
+			for (listVector *ray = cone->rays; ray; ray = ray->rest)
+				if (IsZero(ray->first[numOfVars - 1]) && !IsZero(ray->first))
+					Poly->unbounded = true;
+	}
 	return Poly;
 }
 
@@ -655,6 +682,20 @@ ReadPolyhedronData::read_polyhedron_from_vertex_cone_input(
 	if (dilation_const != 1)
 		for (listCone *cone = Poly->cones; cone; cone = cone->rest)
 			cone->vertex->vertex->scalarMultiplication(to_ZZ(dilation_const), to_ZZ(1));
+	/* The polyhedron is the intersection of its vertex cones. */
+	listVector *rows = NULL;
+	for (listCone *cone = Poly->cones; cone; cone = cone->rest) {
+		listCone *copy = copyCone(cone);
+		if (copy->facets == NULL) {
+			dualizeCones(copy, numOfVars, params);
+			dualizeCones(copy, numOfVars, params); // just swaps
+		}
+		rows = facetsToMatrix(copy->facets, numOfVars, rows);
+		freeCone(copy);
+	}
+	if (rows != NULL)
+		Poly->unbounded = hasRecessionDirection(rows, numOfVars);
+	freeListVector(rows);
 	return Poly;
 }
 
-- 
2.43.0


From b9220f402fd75596d677dab14081c261a99423c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 26/49] fix: the coefficient of a cone is respected by its
 signed decomposition

---
 code/latte/barvinok/barvinok.cpp | 6 +++---
 code/latte/barvinok/barvinok.h   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index b88e3fc..c5eff9f 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -205,7 +205,7 @@ barvinok_DFS(listCone *cone, Single_Cone_Parameters *Parameters);
 
 int
 barvinok_Single(mat_ZZ B, Single_Cone_Parameters *Parameters,
-		const Vertex *vertex)
+		const Vertex *vertex, int coefficient)
 {
 	//cerr << "barvinok_Single Called." << endl;;
 	
@@ -235,7 +235,7 @@ barvinok_Single(mat_ZZ B, Single_Cone_Parameters *Parameters,
    	MatrixGCD(B, m);
 
    	listCone *dummy = createListCone();
-   	dummy->coefficient = 1;
+   	dummy->coefficient = coefficient;
 	dummy->determinant = D;
 	dummy->vertex = new Vertex(*vertex);
 	dummy->rays = transformArrayBigVectorToListVector(B, m, n);
@@ -571,7 +571,7 @@ barvinokDecomposition_Single (listCone *cone,
     int num_rays = lengthListVector(t->rays);
     assert(num_rays == Parameters->Number_of_Variables);
     mat_ZZ B = createConeDecMatrix(t, num_rays, Parameters->Number_of_Variables);
-    if ((status = barvinok_Single(B, Parameters, t->vertex)) == -1)
+    if ((status = barvinok_Single(B, Parameters, t->vertex, cone->coefficient)) == -1)
       goto BAILOUT;
   }
  BAILOUT:
diff --git a/code/latte/barvinok/barvinok.h b/code/latte/barvinok/barvinok.h
index c049215..68d0b07 100644
--- a/code/latte/barvinok/barvinok.h
+++ b/code/latte/barvinok/barvinok.h
@@ -155,14 +155,14 @@ protected:
 
 /* Do a signed decomposition, modulo lower-dimensional cones, of the
    SIMPLICIAL cone spanned by the ROW VECTORS of B with apex at
-   VERTEX, until the determinants of all cones are at most
-   PARAMETERS->max_determinant.
+   VERTEX, with the given COEFFICIENT, until the determinants of all
+   cones are at most PARAMETERS->max_determinant.
 
    Call PARAMETERS->ConsumeCone() for each of the small cones.
 */ 
 int
 barvinok_Single(mat_ZZ B, Single_Cone_Parameters *Parameters,
-		const Vertex *vertex);
+		const Vertex *vertex, int coefficient);
 
 /* Do a signed decomposition, modulo lower-dimensional cones, of the
    polyhedral CONE, until the determinants of all cones are at most
-- 
2.43.0


From 89a6aa9e3545ab63ed3040aec741300a5d19df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 27/49] fix: the integral of a constant over a simplex is not
 zero

---
 code/latte/integration/residue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/integration/residue.cpp b/code/latte/integration/residue.cpp
index a6bc614..2f0d0f5 100644
--- a/code/latte/integration/residue.cpp
+++ b/code/latte/integration/residue.cpp
@@ -74,7 +74,7 @@ void computeResidue(int d, int M, const vec_ZZ &innerProDiff, const ZZ &p,
 	//cout << "d=" << d << "M=" << M << " innerprod=" << innerProDiff << "p= " << p << endl;
 	if (p == 0)
 	{
-		a = 0;
+		a = (M == 0 && IsZero(innerProDiff)) ? 1 : 0; //the form is constant: z^d / z^d.
 		b = 1;
 		return;
 	}; //vertex vanishes, return 0;
-- 
2.43.0


From f52bf2af4219f7456827fbdfc83ebf6f48bad385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 28/49] fix: polynomials without terms can be printed

---
 code/latte/integration/PolyTrie.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 5149290..fbead28 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -118,7 +118,7 @@ string printMonomials(const monomialSum &myPoly)
 	int i = 0;
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp) //the terms might have canceled
 	{
 		if (output.str() != "")
 		{
@@ -135,7 +135,7 @@ string printMonomials(const monomialSum &myPoly)
 		}
 		output << "]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
@@ -290,7 +290,7 @@ string printLinForms(const linFormSum &myForm)
 
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp) //the terms might have canceled
 	{
 		if (output.str() != "")
 		{
@@ -307,7 +307,7 @@ string printLinForms(const linFormSum &myForm)
 		}
 		output << "]]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
-- 
2.43.0


From 8c0ed5984f32fbf8dd3210589c311a4e4fbe7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 29/49] fix: the integral of a polynomial without terms is 0/1,
 not 0/0

---
 code/latte/integration/newIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index bc85663..d3cf534 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -249,7 +249,7 @@ void integrateLinFormSum(ZZ& numerator, ZZ& denominator,
 	//if (forms.varCount!=mySimplex.d) {cout<<"The dimensions of the polynomial and simplex don't match. Please check!"<<forms.varCount<<"<>"<<mySimplex.d<<endl;exit(1);};
 	l.SetLength(mySimplex.d);
 	numerator = 0;
-	denominator = 0;
+	denominator = 1;
 	it->begin();
 	term<RationalNTL, ZZ>* temp;
 	while ((temp = it->nextTerm()) != 0)
-- 
2.43.0


From 4cb5c8d42450ab235cb910bda0810da5393a8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 30/49] fix: the block product uses all terms of the first
 polynomial

---
 code/latte/integration/multiply.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/integration/multiply.h b/code/latte/integration/multiply.h
index d79172a..e3d0b7d 100644
--- a/code/latte/integration/multiply.h
+++ b/code/latte/integration/multiply.h
@@ -129,6 +129,7 @@ void multiply(PolyIterator<T, int>* it, PolyIterator<T, int>* it2, _monomialSum&
 			secondTerm = it2->nextTerm();
 		}
 		it2->begin();
+		secondTerm = it2->nextTerm();
 		firstTerm = it->nextTerm();
 	}
 	delete [] resExps;
-- 
2.43.0


From 0830321002acb86bf10c1de2bfa9f9cbb4c5e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 31/49] fix: factorials of large degrees are exact in the block
 representation

---
 code/latte/integration/PolyRep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/PolyRep.cpp b/code/latte/integration/PolyRep.cpp
index 28d0cef..1b7d136 100644
--- a/code/latte/integration/PolyRep.cpp
+++ b/code/latte/integration/PolyRep.cpp
@@ -174,7 +174,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 	{
 		if (line[i] == '[')
 		{
-			int degreeFactorial;
+			ZZ degreeFactorial;
 			switch (flag)
 			{
 				case 0: //coefficient
@@ -210,7 +210,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 						degreeFactorial *= j;
 						//coefficient *= j;
 					} //in _linFormSum, coefficient is assumed to be divided by the factorial of the form degree
-					coefficient *= to_ZZ(degreeFactorial);
+					coefficient *= degreeFactorial;
 					consumer->ConsumeLinForm(coefficient, degree, coefs);
 					flag = 0;
 					break;
-- 
2.43.0


From 3254a7ffb17b72fc43dfbc6beddb7dfe448db78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 32/49] fix: constants beyond the first block are recognised

---
 code/latte/integration/PolyRep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/integration/PolyRep.cpp b/code/latte/integration/PolyRep.cpp
index 1b7d136..261f251 100644
--- a/code/latte/integration/PolyRep.cpp
+++ b/code/latte/integration/PolyRep.cpp
@@ -296,7 +296,7 @@ void _decompose(_monomialSum &myPoly, _linFormSum &lForm, int mIndex)
 	}
 
 	bool constantTerm = true;
-	for (int i = (mIndex * myPoly.varCount); i < ((mIndex + 1)
+	for (int i = ((mIndex % BLOCK_SIZE) * myPoly.varCount); i < ((mIndex % BLOCK_SIZE + 1)
 			* myPoly.varCount); i++)
 	{
 		if (expTmp->data[i] != 0)
-- 
2.43.0


From b8a69506e8a0c76f830512d890699fce1d062b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 33/49] fix: reject integrands that are not lists of the
 documented form

---
 code/latte/integration/PolyTrie.cpp | 122 ++++++++++++++++++++++++++++
 1 file changed, 122 insertions(+)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index fbead28..fa50d39 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -1,9 +1,128 @@
 #include "PolyTrie.h"
+#include "LattException.h"
+#include <cctype>
 #include <stdio.h>
 #include <sstream>
 
 #define PT_DEBUG 0
 
+//Checks the syntax of a nested list before it is parsed.
+//monomials:                [[c, [e_1, ..., e_n]], ...]
+//powers of linear forms:   [[c, [d, [l_1, ..., l_n]]], ...]
+//products of such powers:  [[c, [[d, [l_1, ..., l_n]], ...]], ...]
+//where c is a rational number and all other entries are integers.
+class NestedListSyntax
+{
+public:
+	enum Kind { monomials, linForms, linFormProducts };
+	NestedListSyntax(const string &line) : s(line), pos(0), varCount(-1) {}
+	void check(Kind kind)
+	{
+		expect('[');
+		do
+		{
+			expect('[');
+			coefficient();
+			expect(',');
+			if (kind == monomials)
+				vector(false);
+			else if (kind == linForms)
+				power();
+			else
+			{
+				expect('[');
+				do
+					power();
+				while (next(','));
+				expect(']');
+			}
+			expect(']');
+		} while (next(','));
+		expect(']');
+		space();
+		if (pos < s.length())
+			error();
+	}
+private:
+	const string &s;
+	size_t pos;
+	int varCount;
+	void error()
+	{
+		stringstream msg;
+		msg << "Syntax error at position " << pos + 1 << " of `" << s << "'";
+		THROW_LATTE_MSG(LattException::ie_BadIntegrandFormat, 1, msg.str().c_str());
+	}
+	void space()
+	{
+		while (pos < s.length() && isspace((unsigned char) s[pos]))
+			++pos;
+	}
+	bool next(char c)
+	{
+		space();
+		if (pos >= s.length() || s[pos] != c)
+			return false;
+		++pos;
+		return true;
+	}
+	void expect(char c)
+	{
+		if (!next(c))
+			error();
+	}
+	//returns true if the digits are all zero.
+	bool digits()
+	{
+		bool zero = true;
+		size_t start = pos;
+		for (; pos < s.length() && isdigit((unsigned char) s[pos]); ++pos)
+			zero = zero && s[pos] == '0';
+		if (pos == start)
+			error();
+		return zero;
+	}
+	void integer(bool canBeNegative)
+	{
+		space();
+		if (canBeNegative && pos < s.length() && s[pos] == '-')
+			++pos;
+		digits();
+	}
+	void coefficient()
+	{
+		integer(true);
+		if (pos < s.length() && s[pos] == '/')
+		{
+			++pos;
+			if (digits())
+				error();
+		}
+	}
+	void vector(bool canBeNegative)
+	{
+		int length = 0;
+		expect('[');
+		do
+		{
+			integer(canBeNegative);
+			++length;
+		} while (next(','));
+		expect(']');
+		if (varCount >= 0 && length != varCount)
+			error();
+		varCount = length;
+	}
+	void power()
+	{
+		expect('[');
+		integer(false);
+		expect(',');
+		vector(true);
+		expect(']');
+	}
+};
+
 //Loads a string by parsing it as a sum of monomials
 //monomial sum: c_{1}*(x_{1}^e_{1}...x_{varCount}^e_{varCount}) + ...
 //nested lists: [[c_{1}, [e_{1}, e_{2}, ..., e_{varCount}]], .. ]
@@ -19,6 +138,7 @@ void loadMonomials(monomialSum &monomials, const string &line)
 
 void parseMonomials(MonomialConsumer<RationalNTL>* consumer, const string &line)
 {
+	NestedListSyntax(line).check(NestedListSyntax::monomials);
 	int varCount = 0;
 	for (int i = 0; line[i] != ']'; i++)
 	{
@@ -164,6 +284,7 @@ void loadLinForms(linFormSum &forms, const string line)
 //nested list: [[c_{1}, [d_{1}, [p_{1}, p_{2}, ..., p_{varCount}]], .. ]
 void parseLinForms(FormSumConsumer<RationalNTL>* consumer, const string& line)
 {
+	NestedListSyntax(line).check(NestedListSyntax::linForms);
 	int termIndex = 0;
 	int lastPos = 0;
 	int varCount = 0;
@@ -356,6 +477,7 @@ static void consumeLinFormProduct(FormProductLoadConsumer<RationalNTL>* consumer
 //nested list: [ [a, [[b, [c]], [e, [f]], [g, [h]]]], ... ]
 void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const string& line)
 {
+	NestedListSyntax(line).check(NestedListSyntax::linFormProducts);
 	int termIndex = 0;
 	int lastPos = 0;
 	int varCount = 0;
-- 
2.43.0


From 5630d4d15e09fa9ad85dc3ee4f7fd1d77bf92846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 34/49] fix: reject integrands with the wrong number of
 variables

---
 code/latte/valuation/PolytopeValuation.cpp | 18 ++++++++++++++++++
 code/latte/valuation/PolytopeValuation.h   |  1 +
 2 files changed, 19 insertions(+)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 6e0c38b..9cf77f9 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -399,6 +399,7 @@ ZZ PolytopeValuation::findDilationFactorVertexRays() const
 
 RationalNTL PolytopeValuation::findIntegral(const monomialSum& polynomial, const ValuationAlgorithm algorithm)
 {
+	checkIntegrandDimension(polynomial.varCount);
 
 	if ( algorithm == integratePolynomialAsLinearFormCone || algorithm == integratePolynomialAsLinearFormTriangulation)
 		return findIntegralPolynomialToLinearForms(polynomial, algorithm);
@@ -410,11 +411,26 @@ RationalNTL PolytopeValuation::findIntegral(const monomialSum& polynomial, const
 
 }
 
+/**
+ * The integrand must use as many variables as the polytope has.
+ */
+void PolytopeValuation::checkIntegrandDimension(int varCount) const
+{
+	if ( varCount != numOfVarsOneCone - 1)
+	{
+		stringstream msg;
+		msg << "The integrand has " << varCount << " variables, but the polytope has " << numOfVarsOneCone - 1 << ".";
+		THROW_LATTE_MSG(LattException::ie_BadIntegrandFormat, 1, msg.str().c_str());
+	}
+}
+
 /**
  * Save as the other findIntegral, only this one starts with linear forms, not polynomials.
  */
 RationalNTL PolytopeValuation::findIntegral(const linFormSum& originalLinearForms, const ValuationAlgorithm algorithm )
 {
+	checkIntegrandDimension(originalLinearForms.varCount);
+
 	linFormSum linearForms;
 	RationalNTL answer;
 	RationalNTL constantMonomial;
@@ -511,6 +527,8 @@ RationalNTL PolytopeValuation::findIntegral(const linFormSum& originalLinearForm
  */
 RationalNTL PolytopeValuation::findIntegral(const linFormProductSum& originalLinearFormProducts, ValuationAlgorithm algorithm)
 {
+	checkIntegrandDimension(originalLinearFormProducts.varCount);
+
 	linFormProductSum linearFormProducts;
 	RationalNTL answer;
 	RationalNTL constantMonomial;
diff --git a/code/latte/valuation/PolytopeValuation.h b/code/latte/valuation/PolytopeValuation.h
index b33feae..7b08dab 100644
--- a/code/latte/valuation/PolytopeValuation.h
+++ b/code/latte/valuation/PolytopeValuation.h
@@ -68,6 +68,7 @@ private:
 
 	int dimension; //of the affine hull.
 	// A B C D E F G H I J K L M N O P Q R S T U V W X Y Z
+	void checkIntegrandDimension(int varCount) const; //throws an exception if the integrand is not a function on the polytope.
 	void convertToOneCone(); //convert from poly to polytopeAsOneCone. Then late you can triangulate the polytope into simpleces
 	void dilatePolynomialToLinearForms(linFormSum &linearForms, const monomialSum& originalPolynomial, const ZZ &dilationFactor, RationalNTL & constantMonomial);
 	void dilatePolytopeOneCone(const ZZ & factor); //dilates polytope by changing the vertices.
-- 
2.43.0


From fed9721a03baa501e126652a7300e3abaf3508de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 35/49] fix: check sizes, indices and denominators when reading
 LattE matrices

---
 code/latte/ReadLatteStyle.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 037bfc3..d28d503 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -22,6 +22,7 @@
 #include <cstdlib>
 #include <cassert>
 #include <cctype>
+#include <climits>
 #include "ReadLatteStyle.h"
 #include "latte_gmp.h"
 #include "latte_cddlib.h"
@@ -41,6 +42,16 @@ static void check_stream(const istream &f, const char *fileName,
 }
 ;
 
+/* Stop with an error unless VALUE is between LOW and HIGH. */
+static void check_range(int value, int low, int high, const char *what,
+		const char *fileName) {
+	if (value < low || value > high) {
+		cerr << "Bad " << what << " " << value << " in input file " << fileName
+				<< " in ReadLatteStyleMatrix." << endl;
+		THROW_LATTE(LattException::fe_Parse, 0);
+	}
+}
+
 dd_MatrixPtr ReadLatteStyleMatrix(const char *fileName, bool vrep,
 		bool homogenize, bool nonnegativity) {
 	ifstream f(fileName);
@@ -88,9 +99,11 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 	dd_set_global_constants();
 	int numOfVectors, numOfVars;
 	f >> numOfVectors >> numOfVars;
+	check_stream(f, fileName, "ReadLatteStyleMatrix");
+	check_range(numOfVectors, 0, INT_MAX - 1, "number of rows", fileName);
+	check_range(numOfVars, 1, INT_MAX - 1, "number of columns", fileName);
 	int num_homog = homogenize ? 1 : 0;
 	int numOfVars_hom = numOfVars + num_homog;
-	check_stream(f, fileName, "ReadLatteStyleMatrix");
 	dd_MatrixPtr matrix = dd_CreateMatrix(numOfVectors, numOfVars_hom);
 	matrix->numbtype = dd_Rational;
 	if (vrep)
@@ -103,6 +116,12 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		for (j = 0; j < numOfVars; j++) {
 			f >> x;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
+			if (x.get_den() == 0) {
+				cerr << "Zero denominator in input file " << fileName
+						<< " in ReadLatteStyleMatrix." << endl;
+				THROW_LATTE(LattException::fe_Parse, 0);
+			}
+			x.canonicalize();
 			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
 		}
 	}
@@ -119,11 +138,13 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 			int num_linearity;
 			f >> num_linearity;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
+			check_range(num_linearity, 0, INT_MAX, "number of linearities", fileName);
 			int i;
 			for (i = 0; i < num_linearity; i++) {
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
+				check_range(index, 1, numOfVectors, "linearity index", fileName);
 				set_addelem(matrix->linset, index /* 1-based */);
 			}
 		} else if (strcmp(buffer, "nonnegative") == 0) {
@@ -135,13 +156,15 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 			int num_nonnegative;
 			f >> num_nonnegative;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
-			vector<int> nonnegatives(num_nonnegative);
+			check_range(num_nonnegative, 0, INT_MAX, "number of nonnegatives", fileName);
+			vector<int> nonnegatives;
 			int k;
 			for (k = 0; k < num_nonnegative; k++) {
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
-				nonnegatives[k] = index;
+				check_range(index, 1, numOfVars - 1, "nonnegative index", fileName);
+				nonnegatives.push_back(index);
 			}
 			// Create a new matrix that includes non-negativity
 			// inequalities.
-- 
2.43.0


From f33993bdc765162ceadcff6ea054122ad7aea93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 36/49] fix: check for emptiness what the input file really
 says

---
 code/latte/CheckEmpty.cpp | 102 ++++++++------------------------------
 code/latte/ehrhart.cpp    |   1 +
 code/latte/maximize.cpp   |   1 +
 code/latte/minimize.cpp   |   1 +
 4 files changed, 25 insertions(+), 80 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index d7295c7..e6fdf6d 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -41,74 +41,26 @@
 #include "timing.h"
 
 #include "ReadingFile.h"
+#include "ReadLatteStyle.h"
+#include "latte_gmp.h"
 #include "binarySearchIP.h"
 #include "latte_system.h"
 #include "latte_relocatable.h"
 #include "LattException.h"
 
 void CheckEmpty(const char * Filename){
-  int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
   string tmpString;
-  char equ[127], nonneg[127];
-  equ[0] = 'n';
-  nonneg[0] = 'n';
-  int numOfNonneg = 0, hold = 0;
-  vec_ZZ Index, Index2;
   cerr << "Checking whether the input polytope is empty or not...";
   cerr.flush();
-  ifstream IN(Filename);
-  if(!IN){
-    cerr << "Input file is missing!!  Please check input file." << endl;
-    THROW_LATTE(LattException::ue_FileNameMissing,0);
+  /* Stops with an error if the file is missing or malformed. */
+  dd_MatrixPtr matrix = ReadLatteStyleMatrix(Filename, /* vrep: */ false, /* homogenize: */ false,
+					     /* nonnegativity: */ false);
+  int numOfConsts = matrix->rowsize, numOfDims = matrix->colsize;
+  if (numOfConsts == 0) {
+    cerr << "Input file " << Filename << " contains no constraints." << endl;
+    THROW_LATTE(LattException::fe_Parse, 0);
   }
-  while(IN >> tmpString){
-    if(tmpString == "linearity"){
-      strcpy(equ, "yes");
-      IN >> numOfEqu; 
-      Index.SetLength(numOfEqu);
-      for(int i = 0; i < numOfEqu; i++) IN >> Index[i];
-      flag = 1;
-    }
-    else if((tmpString == "NONNEGATIVE") || (tmpString == "nonnegative")){
-      strcpy(nonneg, "yes");
-      flag = 2;
-      IN >> numOfNonneg;
-      Index2.SetLength(numOfNonneg);
-      for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
-    }
-  }
-  ifstream in(Filename);
-  // cerr << "here" << endl;
-  in >> numOfConsts >> numOfDims;
-  //  cerr << numOfConsts << " " << numOfDims << endl; 
-  int equs[numOfConsts];
-  //ZZ cost[numOfDims - 1];
-  mat_ZZ entries;
-  entries.SetDims(numOfConsts, numOfDims);
-  // cerr << "here2" << endl;
-  if(nonneg[0] == 'y') hold = numOfDims - 1;
-  for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
-  //  cerr << "ther" << endl; 
- for(int i = 0; i < numOfConsts; i++)
-    for(int j = 0; j < numOfDims; j++)
-      { in >> entries[i][j]; }
- //  cerr << "here3" << endl;
- // printListVector(CheckRedIneq(entries), numOfDims);
- if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
- 
- for(int i = 0; i < numOfEqu; i++) in >> equs[i];}
- // for(int i = 0; i < numOfEqu; i++) cerr << equs[i] << endl;
- /*  if(max[0] == 'y') 
-      for(int i = 0; i < numOfDims - 1; i++) in >> cost[i]; */
- mat_ZZ NONNEG;
- NONNEG.SetDims(numOfDims, numOfDims);
- 
-  int tmpInt;
-  for(int i = 0; i < numOfNonneg; i++){
-    conv(tmpInt, Index2[i]); //cerr << Index2[i] << " ";
-    NONNEG[tmpInt-1][tmpInt-1] = 1;
-  }
-  
+
   ofstream out("Check_emp.lp");
   if(!out){
     cerr << "Cannot write Check_red file..." << endl;
@@ -117,35 +69,25 @@ void CheckEmpty(const char * Filename){
 
   out << "H-representation" << endl;
   out << "begin" << endl;
-  out << numOfConsts + hold + numOfEqu << " " << numOfDims << " rational" << endl;
+  out << numOfConsts + set_card(matrix->linset) << " " << numOfDims << " rational" << endl;
   for(int i = 0; i < numOfConsts; i++){
-    for(int j = 0; j < numOfDims; j++){
-      out << entries[i][j] << " ";}//  cerr << entries[i][j] << " ";}
-    out << endl;
-  }//cerr << "here" << endl;
-  if(equ[0] == 'y'){
-    for(int i = 0; i < numOfEqu; i++){out << -entries[equs[i]-1][0] << " ";
-    for(int j = 1; j < numOfDims; j++){
-      out << -entries[equs[i]-1][j] << " "; }//cerr << entries[i][j] << " ";}
+    for(int j = 0; j < numOfDims; j++)
+      out << matrix->matrix[i][j] << " ";
     out << endl;
-    }
   }
-  if(nonneg[0] == 'y'){
-    for(int i = 0; i < numOfDims - 1; i++){ out << 0 << " ";
-      for(int j = 0; j < numOfDims - 1; j++) out << NONNEG[i][j] << " ";
+  for(int i = 0; i < numOfConsts; i++)
+    if (set_member(i + 1, matrix->linset)) {
+      for(int j = 0; j < numOfDims; j++)
+	out << mpq_class(-mpq_class(matrix->matrix[i][j])) << " ";
       out << endl;
     }
-  }
   out << "end" << endl;
-  /* if(equ[0] == 'y'){
-    out << "linearity " << numOfEqu << " ";
-    for(int i = 0; i < numOfEqu; i++) out << equs[i] << " ";
-    out << endl;
-    }*/
-  out<< "maximize" << endl; out << 0 << " " ;
-  for(int j = 1; j < numOfDims; j++){
-    out << entries[0][j] << " "; }
+  out << "maximize" << endl << 0 << " ";
+  for(int j = 1; j < numOfDims; j++)
+    out << matrix->matrix[0][j] << " ";
   out << endl;
+  out.close();
+  dd_FreeMatrix(matrix);
 
   /* CDD+ has a zero exit status even if an error occurs.  So make
      sure the output file is not there before, then check for the
diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..77919bb 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -296,6 +296,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
+  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
     CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..f90f850 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -236,6 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
+  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
     CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..8a78e7f 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -236,6 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
+  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
     CheckEmpty(fileName);
   //vec_ZZ cost;
   /* Read problem data. */
-- 
2.43.0


From 20d146b77f0db264da6a4c9ac9a95ac661d28985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 37/49] fix: read vertex files through the LattE reader

---
 code/latte/ReadPolyhedron.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index a45eefe..c4d2261 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -759,8 +759,10 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 				 */
 				/* Don't homogenize. */
 				Polyhedron *P = new Polyhedron;
-				P->cones = computeVertexConesFromVrep(filename.c_str(),
-						P->numOfVars);
+				M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */true,
+				/* homogenize: */false);
+				P->cones = computeVertexConesFromVrep(M, P->numOfVars);
+				dd_FreeMatrix(M);
 
 				P->dualized = false;
 				P->homogenized = false;
-- 
2.43.0


From 0650b0dbc390261f96d9790106e455e2a7623676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 38/49] fix: reject incomplete cones in cone files

---
 code/latte/print.cpp | 46 ++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/code/latte/print.cpp b/code/latte/print.cpp
index 5a15406..b150169 100644
--- a/code/latte/print.cpp
+++ b/code/latte/print.cpp
@@ -32,6 +32,7 @@
 #include "cone.h"
 #include "ramon.h"
 #include "print.h"
+#include "LattException.h"
 #include "gnulib/pathmax.h"
 
 /* ----------------------------------------------------------------- */
@@ -212,6 +213,7 @@ look_for(istream &in, const char *token)
   while (in.good()) {
     in >> s;
     if (s == token) return true;
+    if (s == "Cone.") return false; /* the cone before it is not complete */
   }
   return false;
 }
@@ -225,6 +227,14 @@ skip_space(istream &in)
   }
 }
 
+/* Stop with an error: the cone being read is not complete. */
+static void
+bad_cone_file()
+{
+  cerr << "Read error in cone file." << endl;
+  THROW_LATTE(LattException::fe_Parse, 0);
+}
+
 static listVector *
 readListVector(istream &in)
 {
@@ -235,11 +245,11 @@ readListVector(istream &in)
     skip_space(in);
     if (in.peek() != '[') break;
     in >> v;
-    if (in.good()) {
-      *end_p = new listVector(v);
-      end_p = &(*end_p)->rest;
-    }
+    if (!in.good()) bad_cone_file();
+    *end_p = new listVector(v);
+    end_p = &(*end_p)->rest;
   }
+  if (result == NULL) bad_cone_file();
   if (result->rest == NULL
       && result->first.length() == 0) {
     /* Read [], which is meant to designate an empty list,
@@ -250,6 +260,15 @@ readListVector(istream &in)
   return result;
 }
 
+/* Stop with an error unless all VECTORS have the length DIMENSION. */
+static void
+check_dimension(listVector *vectors, size_t dimension)
+{
+  for (; vectors; vectors = vectors->rest)
+    if (vectors->first.length() != (long) dimension)
+      bad_cone_file();
+}
+
 /**
  * The input file contains cones in the form
 ==========
@@ -275,20 +294,21 @@ readConeFromFile(istream &in)
 {
   if (!look_for(in, "Cone.")) return NULL;
   listCone *cone = createListCone();
-  if (!look_for(in, "Coefficient:")) return NULL;
+  if (!look_for(in, "Coefficient:")) bad_cone_file();
   in >> cone->coefficient;
-  if (!in.good()) return NULL;
-  if (!look_for(in, "Vertex:")) return NULL;
+  if (!in.good() || !isspace(in.peek())) bad_cone_file();
+  if (!look_for(in, "Vertex:")) bad_cone_file();
   /* FIXME: Actually need to handle rational data */
   skip_space(in);
 
   //read in a vertex.
-  if (in.peek() != '[') return NULL;
+  if (in.peek() != '[') bad_cone_file();
   in.get(); //delete the [
   vector<RationalNTL> elements;
   RationalNTL oneTerm;
 
-  while(in.peek() != ']')
+  skip_space(in);
+  while(in.good() && in.peek() != ']')
   {
 	  in >> oneTerm;
 	  skip_space(in);
@@ -299,7 +319,7 @@ readConeFromFile(istream &in)
 
   //vec_ZZ v;
   //in >> v;
-  if (!in.good()) return NULL; //not sure what this does.--Brandon
+  if (!in.good()) bad_cone_file(); //not sure what this does.--Brandon
   //ZZ denom;
   //denom = 1;
   //cone->vertex = new Vertex(new rationalVector(v, denom));
@@ -309,10 +329,12 @@ readConeFromFile(istream &in)
 
   //end of reading 1 vertex.
 
-  if (!look_for(in, "rays:")) return NULL;
+  if (!look_for(in, "rays:")) bad_cone_file();
   cone->rays = readListVector(in);
-  if (!look_for(in, "Facets:")) return NULL;
+  check_dimension(cone->rays, elements.size());
+  if (!look_for(in, "Facets:")) bad_cone_file();
   cone->facets = readListVector(in);
+  check_dimension(cone->facets, elements.size());
   return cone;
 }
 
-- 
2.43.0


From d579cabb38bcfc0d5aaeb5e9255c4ee336a5823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 39/49] fix: a rational with denominator zero is a read error

---
 code/latte/rational.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 678561a..f18899a 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -542,7 +542,11 @@ istream& operator >>(istream &in, RationalNTL & rationalNTL)
 	{
 		in.get();
 		denum = rationalNTL.readNumber(in);
-
+		if ( denum == 0)
+		{
+			in.setstate(ios::failbit);
+			return in;
+		}
 	}
 	else
 	{
-- 
2.43.0


From 5bf16a6aeb7d3c44a4df4928cb4545deadf82be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 40/49] fix: check the input of ConvertCDDineToLatte

---
 code/latte/convertCDD_ine_to_latte.cpp | 31 ++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 71e31b1..aaf728e 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -16,6 +16,24 @@
 
 using namespace std;
 
+static void badInput(const char *fileName)
+{
+	cerr << "Read error in input file " << fileName << endl;
+	exit(1);
+}
+
+/* Tells whether S is an integer or a fraction. */
+static bool isRational(const string &s)
+{
+	size_t i = (s[0] == '-' || s[0] == '+') ? 1 : 0;
+	size_t slash = s.find('/');
+	string num = s.substr(i, slash == string::npos ? string::npos : slash - i);
+	string den = slash == string::npos ? "1" : s.substr(slash + 1);
+	return num.length() && num.find_first_not_of("0123456789") == string::npos
+		&& den.find_first_not_of("0123456789") == string::npos
+		&& den.find_first_not_of("0") != string::npos;
+}
+
 int main( int argc, const char* argv[] )
 
 {
@@ -26,10 +44,9 @@ int main( int argc, const char* argv[] )
 	}
 
 	ifstream input(argv[1]);
-	ofstream output(argv[2]);
 	string line;
 	vector<RationalNTL> hRep;
-	long numRows, ambDim;
+	long numRows = 0, ambDim = 0;
 	ZZ lcmDenom;
 
 	vector<long> equations; // 1-based, from the linearity line
@@ -46,12 +63,20 @@ int main( int argc, const char* argv[] )
 			words >> numEquations;
 			for(long i = 0; i < numEquations && words >> row; ++i)
 				equations.push_back(row);
+			if ( !words || numEquations < 0)
+				badInput(argv[1]);
 		}
 	}
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
+	if ( !input || !isspace(input.peek()) || numRows < 0 || ambDim < 1)
+		badInput(argv[1]);
+	for(size_t i = 0; i < equations.size(); ++i)
+		if ( equations[i] < 1 || equations[i] > numRows)
+			badInput(argv[1]);
 	input.ignore(250, '\n');
+	ofstream output(argv[2]);
 	output << numRows << " " << ambDim << endl;
 	hRep.resize(ambDim);
 
@@ -62,6 +87,8 @@ int main( int argc, const char* argv[] )
 		{
 			string temp;
 			input >> temp;
+			if ( !isRational(temp))
+				badInput(argv[1]);
 			hRep[k] = RationalNTL(temp);
 			RationalNTL product;
 			lcmDenom = (hRep[k].getDenominator() * lcmDenom)/ (GCD(lcmDenom, hRep[k].getDenominator()));
-- 
2.43.0


From 2fbae630d10c27222b7c142c6201bc2d30b7411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 41/49] fix: check the input of top-ehrhart-knapsack

---
 code/latte/top-knapsack/Driver.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/code/latte/top-knapsack/Driver.cpp b/code/latte/top-knapsack/Driver.cpp
index abd5d51..d67f9c4 100644
--- a/code/latte/top-knapsack/Driver.cpp
+++ b/code/latte/top-knapsack/Driver.cpp
@@ -123,13 +123,25 @@ int main(int argc, char *argv[]) {
 
 	ifstream file;
 	file.open(inFile.c_str());
-	int n;
+	int n = 0;
 	file >> n;
 	vec_ZZ alpha;
-	alpha.SetLength(n);
+	if (file && n > 0)
+		alpha.SetLength(n);
 
-	for (int i = 0; i < n; ++i)
+	bool positive = true; // and nothing but space between them
+	for (int i = 0; i < n && file; ++i)
+	{
 		file >> alpha[i];
+		positive = positive && alpha[i] > 0
+			&& (file.eof() || isspace(file.peek()));
+	}
+
+	if (!file || n <= 0 || !positive)
+	{
+		cerr << "Error reading knapsack file " << inFile << endl;
+		THROW_LATTE( LattException::fe_Parse);
+	}
 
 	Timer time("Total");
 	time.start();
-- 
2.43.0


From 2a028511fb82bac46620af89901a8c531c167075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 42/49] fix: reject unknown valuations

---
 code/latte/valuation/valuation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 98a86ff..cf9c7e1 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -583,7 +583,10 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 				integrationInput.unweightedCounting = true;
 			}
 			else
-				; //nothing.
+			{
+				cerr << "Unknown command/option " << argv[i] << endl;
+				THROW_LATTE(LattException::ue_UnknownCommandLineOption, 1);
+			}
 		}
 		else if (strcmp(argv[i], "--top-ehrhart-unweighted")==0)
 		{
-- 
2.43.0


From 6c27e62fd58dd786bf9accd9e4b5202e9e520208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:52 +0000
Subject: [PATCH 43/49] fix: check CDD-style H-representations for emptiness

---
 code/latte/ReadPolyhedron.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index c4d2261..8985a20 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -715,6 +715,25 @@ static dd_MatrixPtr ReadCddStyleMatrix(const string &filename) {
 	return M;
 }
 
+/** Stops if the polyhedron given by the H-representation M is empty. */
+static void CheckEmptyMatrix(dd_MatrixPtr M) {
+	cerr << "Checking whether the input polytope is empty or not...";
+	cerr.flush();
+	dd_rowset none;
+	set_initialize(&none, M->rowsize);
+	dd_ErrorType err = dd_NoError;
+	dd_boolean nonempty = dd_ExistsRestrictedFace(M, none, none, &err);
+	set_free(none);
+	check_cddlib_error(err, "CheckEmptyMatrix");
+	if (!nonempty) {
+		cerr << "Empty polytope!" << endl;
+		ofstream NOL("numOfLatticePoints");
+		NOL << 0 << endl;
+		THROW_LATTE(LattException::pe_Unbounded, 0);
+	}
+	cerr << "done." << endl;
+}
+
 Polyhedron *
 ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 	Polyhedron *Poly = NULL;
@@ -738,10 +757,9 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 					<< endl << "the `vrep' keyword." << endl;
 			THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
 		}
-		cerr << "Warning: Not performing check for empty polytope, "
-				<< "because it is unimplemented for the CDD-style input format. "
-				<< endl;
 		M = ReadCddStyleMatrix(filename);
+		if (M->representation == dd_Inequality)
+			CheckEmptyMatrix(M);
 	} else {
 		/* Read an input file in LattE format. */
 		if (Vrepresentation[0] == 'y') {
-- 
2.43.0


From f6f0df41d4e0705b5f1c8afc3eb04b6eeeb005a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:48 +0000
Subject: [PATCH 44/49] fix: an empty query result is no number

---
 code/latte/sqlite/SqliteDB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/latte/sqlite/SqliteDB.cpp b/code/latte/sqlite/SqliteDB.cpp
index 903b2f3..4d50b7b 100644
--- a/code/latte/sqlite/SqliteDB.cpp
+++ b/code/latte/sqlite/SqliteDB.cpp
@@ -146,8 +146,8 @@ vector<vector<string> > SqliteDB::query(const string &q)
 int SqliteDB::queryAsInteger(const char* q)
 {
 	vector<vector<string> > result = query(q);
-	if ( result.size() != 1 && result[0].size() !=1 )
-		throw SqliteDBexception("queryAsInteger::Query contains more than 1 result");
+	if ( result.size() != 1 || result[0].size() !=1 )
+		throw SqliteDBexception("queryAsInteger::Query does not contain exactly 1 result");
 
 	return atoi(result[0][0].c_str());
 }
@@ -158,8 +158,8 @@ int SqliteDB::queryAsInteger(const char* q)
 double SqliteDB::queryAsFloat(const char* q)
 {
 	vector<vector<string> > result = query(q);
-	if ( result.size() != 1 && result[0].size() !=1 )
-		throw SqliteDBexception("queryAsFloat::Query contains more than 1 result");
+	if ( result.size() != 1 || result[0].size() !=1 )
+		throw SqliteDBexception("queryAsFloat::Query does not contain exactly 1 result");
 
 	return atof(result[0][0].c_str());
 }
-- 
2.43.0


From ab15bb7b9dfd0cb986c1cd63dd364c6986a6bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 45/49] fix: insert the missing dual integration tests

---
 code/latte/sqlite/IntegrationDB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index c1dde83..49f9b81 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -1219,14 +1219,14 @@ void IntegrationDB::insertIntegrationTest(int dim, int degree, int vertexCount,
 	//check if we really can make 'count' many integration tests and dual integration tets.
 	if (numPolynomials < count)
 		throw SqliteDBexception("insertIntegrationTest::Not enough polynomials exist");
-	if (numPolynomials < count)
+	if (numPolytopes < count)
 		throw SqliteDBexception("insertIntegrationTest::Not enough polytopes exist");
 	if (numDualPolytopes < count)
 		throw SqliteDBexception("insertIntegrationTest::not enough dual polytopes exist");
 
 	//ok, now we know we can make count many integration tests! so lets do it.
 
-	if ( count - numIntegrationTests  <= 0)
+	if ( numIntegrationTests >= count && numDualIntegrationTests >= count)
 	{
 		cout << "There already exist " << numIntegrationTests << " tests; in fact, there might be more." << endl;
 		return;
@@ -1235,7 +1235,7 @@ void IntegrationDB::insertIntegrationTest(int dim, int degree, int vertexCount,
 	if (numIntegrationTests < count)
 		makeMoreIntegrationTests(dim, degree, vertexCount, false, count, numIntegrationTests);
 	if (numDualIntegrationTests < count)
-		makeMoreIntegrationTests(dim, degree, vertexCount, true, count, numIntegrationTests);
+		makeMoreIntegrationTests(dim, degree, vertexCount, true, count, numDualIntegrationTests);
 }//insertIntegrationTest
 
 void  IntegrationDB::insertSpecficPolytopeIntegrationTest(string polymakeFile, int degree, int count)
-- 
2.43.0


From 236f0ef13c655d56b7876df6ff823a2aa5e6ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 46/49] fix: canTestFinish looks at the original polytopes only

---
 code/latte/sqlite/IntegrationDB.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index 49f9b81..342f2d1 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -40,6 +40,7 @@ bool IntegrationDB::canTestFinish(AlgorithemUsed alg, int dim, int vertexCount,
 		sql << "select count(*)"
 			<< " from polynomial as p, integrate as i, polytope as t "
 			<< " where i.polytopeID = t.rowid and i.polynomialID = p.rowid "
+			<< " and t.dual is null"
 			<< " and t.dim = " << dim
 			<< " and t.vertexCount = " << vertexCount
 			<< " and p.degree <= " << degree
@@ -67,6 +68,7 @@ bool IntegrationDB::canTestFinish(AlgorithemUsed alg, int dim, int vertexCount,
 		sql << "select avg(" << (alg == Lawrence ? " i.timeLawrence " : " i.timeTriangulate ") << "), count(*)"
 			<< " from polynomial as p, integrate as i, polytope as t "
 			<< " where i.polytopeID = t.rowid and i.polynomialID = p.rowid "
+			<< " and t.dual is null"
 			<< " and t.dim = " << dim
 			<< " and t.vertexCount = " << vertexCount
 			<< " and p.degree = " << degree
@@ -101,6 +103,7 @@ bool IntegrationDB::canTestFinish(AlgorithemUsed alg, int dim, int vertexCount,
 		sql << "select max(" << (alg == Lawrence ? " i.timeLawrence " : " i.timeTriangulate ") << ")"
 			<< " from polynomial as p, integrate as i, polytope as t "
 			<< " where i.polytopeID = t.rowid and i.polynomialID = p.rowid "
+			<< " and t.dual is null"
 			<< " and t.dim = " << dim
 			<< " and t.vertexCount = " << vertexCount
 			<< " and p.degree <= " << degree
-- 
2.43.0


From ece25aa6486122216b1c2e8bd2e6922830681082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 47/49] fix: getLimit counts the skipped tests

---
 code/latte/sqlite/IntegrationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index 342f2d1..8b22a1d 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -326,7 +326,7 @@ bool IntegrationDB::getLimit(AlgorithemUsed alg, int dim, int vertexCount, int d
 	else
 	{
 
-		sql << "select avg(i." << strAlg << ") "
+		sql << "select count(i." << strAlg << ") "
 			<< " from integrate as i"
 			<< " join polynomial as p on p.rowid = i.polynomialID"
 			<< " join polytope as t on t.rowid = i.polytopeID"
-- 
2.43.0


From d78935064108ecaa7bf5ea5e33e262e9f7dd82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 48/49] fix: statistics of a file count its unfinished tests

---
 code/latte/sqlite/IntegrationDB.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index 8b22a1d..841f323 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -1005,8 +1005,7 @@ vector<double> IntegrationDB::getStatisticsAvgMinMaxCount(AlgorithemUsed alg, co
 			<< " where i.polynomialID = p.rowid and i.polytopeID = dualP.rowid " //join with p, i, dualP
 			<< " and dualP.dual is not null and dualP.dual = orgP.rowid" //and with orgp
 			<< " and orgP.polymakeFilePath = '" << polymakeFile << "'"
-			<< " and p.degree = " << degree
-			<< " and i." << strAlg << " >= 0 ";
+			<< " and p.degree = " << degree;
 	}//if dual
 	else
 	{
@@ -1016,8 +1015,7 @@ vector<double> IntegrationDB::getStatisticsAvgMinMaxCount(AlgorithemUsed alg, co
 			<< " where i.polynomialID = p.rowid and i.polytopeID = t.rowid " //join with p, i, dualP
 			<< " and t.dual is null"
 			<< " and t.polymakeFilePath = '" << polymakeFile << "'"
-			<< " and p.degree = " << degree
-			<< " and i." << strAlg << " >= 0 ";
+			<< " and p.degree = " << degree;
 	}//regular
 
 	//get the data and save it
-- 
2.43.0


From e2af5989f833a05434730733a436b4ffe0ef2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 49/49] fix: LattException::what returns text that lives as
 long as the exception

---
 code/latte/LattException.cpp | 6 +++---
 code/latte/LattException.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..938dc6f 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -58,9 +58,9 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
+	whatMessage = "";
 	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
+		whatMessage = printErrorMessages();
 
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..3e57dc6 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -91,6 +91,7 @@ private:
 	string msg; //error message from programmer.
 	int lineNumber;
 	string fileName;
+	mutable string whatMessage; //owns the text returned by what().
 	bool printStatus;
 };
 
-- 
2.43.0

