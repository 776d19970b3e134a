// One operation on the experiment database per line of standard input:
//   hdb FILE   <op> <arguments, separated by tabs>
// prints, per operation, "ok" and the results or "err" and the reason.
// LINK: sqlite/IntegrationDB.cpp sqlite/VolumeDB.cpp sqlite/SqliteDB.cpp
#include <iostream>
#include <sstream>
#include <cstdlib>
#include "latte/sqlite/IntegrationDB.h"
#include "latte/sqlite/VolumeDB.h"
using namespace std;

typedef vector<string> Row;

static string rows(const vector<Row> &r)
{
	stringstream s;
	for (size_t i = 0; i < r.size(); ++i)
	{
		for (size_t j = 0; j < r[i].size(); ++j)
			s << (j ? "|" : "") << r[i][j];
		s << "\t";
	}
	return s.str();
}

static string stats(const ValuationDBStatistics &v)
{
	stringstream s;
	s.precision(12);
	s << v.totalTestCases << "\t" << v.totalFinishedLawrenceTestCases << "\t" << v.avgLawrenceTime << "\t" << v.minLawrenceTime << "\t" << v.maxLawrenceTime
	  << "\t" << v.stdDeviationLawrence << "\t" << (v.manuallyLimitedLawrence ? 1 : 0)
	  << "\t" << v.totalFinishedTriangulationTestCases << "\t" << v.avgTriangulationTime << "\t" << v.minTriangulationTime << "\t" << v.maxTriangulationTime
	  << "\t" << v.stdDeviationTriangulation << "\t" << (v.manuallyLimitedTriangulation ? 1 : 0)
	  << "\t" << v.dim << "\t" << v.vertexCount << "\t" << v.degree << "\t" << (v.useDual ? 1 : 0);
	return s.str();
}

static string number(long v)
{
	stringstream s;
	s << v;
	return s.str();
}

int main(int argc, char **argv)
{
	string line;
	streambuf *out = cout.rdbuf(cerr.rdbuf());
	ostream say(out);
	while (getline(cin, line))
	{
		vector<string> a;
		stringstream s(line);
		for (string x; getline(s, x, '\t');)
			a.push_back(x);
		const string op = a[0];
		a.resize(12);
#define I(k) atoi(a[k].c_str())
#define T(k) a[k].c_str()
		string r;
		bool ok = true;
		try
		{
			IntegrationDB db;
			VolumeDB vol;
			db.open(argv[1]);
			vol.open(argv[1]);
			const IntegrationDB::AlgorithemUsed alg = a[1] == "1" ? IntegrationDB::Lawrence : IntegrationDB::Triangulate;
			const VolumeDB::AlgorithemUsed valg = a[1] == "1" ? VolumeDB::Lawrence : VolumeDB::Triangulate;
			if (op == "insPoly") r = number(db.insertPolynomial(I(1), I(2), T(3)));
			else if (op == "delPoly") db.deletePolynomial(I(1));
			else if (op == "insTope") r = number(db.insertPolytope(I(1), I(2), I(3), I(4), T(5), T(6)));
			else if (op == "insTest") r = number(db.insertIntegrationTest(I(1), I(2)));
			else if (op == "tests") db.insertIntegrationTest(I(1), I(2), I(3), I(4));
			else if (op == "specific") db.insertSpecficPolytopeIntegrationTest(a[1], I(2), I(3));
			else if (op == "update" || op == "updVol")
			{
				vector<Row> p = db.query((op == "update" ? "select integral from integrate where rowid = " : "select theVolume from volume where rowid = ") + a[4]);
				if (op == "update") db.updateIntegrationTimeAndValue(alg, atof(T(2)), RationalNTL(a[3]), p[0][0], a[4]);
				else vol.updateVolumeTimeAndValue(valg, atof(T(2)), RationalNTL(a[3]), p[0][0], a[4]);
			}
			else if (op == "polyExists") r = number(db.doesPolynomialExist(T(1)));
			else if (op == "topeExists") r = number(db.doesPolytopeExist(T(1)));
			else if (op == "numPoly") r = number(db.getNumberPolynomials(I(1), I(2)));
			else if (op == "numTopes") r = number(db.getNumberPolytopes(I(1), I(2), I(3)));
			else if (op == "numTests") r = number(db.getNumberIntegrationTest(I(1), I(2), I(3), (bool) I(4)));
			else if (op == "numTestsFile") r = number(db.getNumberIntegrationTest(a[1], I(2), (bool) I(3)));
			else if (op == "completed") r = number(db.testCasesCompleted(alg, I(2), I(3), I(4), I(5)));
			else if (op == "limit") r = number(db.getLimit(alg, I(2), I(3), I(4), I(5)));
			else if (op == "limitFile") r = number(db.getLimitByFile(alg, a[2], I(3), I(4)));
			else if (op == "rows") r = rows(db.getRowsToIntegrate(I(1), I(2), I(3), I(4), I(5)));
			else if (op == "rowsFile") r = rows(db.getRowsToIntegrateGivenSpecficFile((char *) T(1), I(2), I(3), I(4)));
			else if (op == "files") r = rows(db.getAllPolymakeFiles());
			else if (op == "stats") r = stats(db.getStatisticsByDimVertexDegree(I(1), I(2), I(3), I(4)));
			else if (op == "statsFile") r = stats(db.getStatisticsByFileDegree(a[1], I(2), I(3)));
			else if (op == "finish") r = number(db.canTestFinish(alg, I(2), I(3), I(4), I(5), I(6)));
			else if (op == "finishFile") r = number(db.canSpecficFileFinish(alg, T(2), I(3), I(4), I(5)));
			else if (op == "volRows") r = rows(vol.getRowsToFindVolume(I(1), I(2), I(3), I(4)));
			else if (op == "volRowsFile") r = rows(vol.getRowsToFindVolumeGivenSpecficFile(T(1), I(2)));
			else if (op == "volCompleted") r = number(vol.volumeTestsCompleted(valg, I(2), I(3), I(4)));
			else if (op == "volFinish") r = number(vol.canVolumeTestFinish(valg, I(2), I(3), I(4), I(5)));
			else if (op == "volStats") r = stats(vol.getStatisticsByDimAndPointCount(I(1), I(2) - I(1) - 1, I(3)));
			else { say << "unknown operation " << op << endl; return 2; }
		} catch (const std::exception &e)
		{
			ok = false;
			r = e.what();
			for (size_t i = 0; i < r.size(); ++i)
				if (r[i] == '\n' || r[i] == '\t') r[i] = ' ';
		}
		say << (ok ? "ok\t" : "err\t") << r << endl;
	}
	return 0;
}
