// Polynomials through the integration library: reads commands from a file,
// writes one line of output for each.
//   monomials|blockmonomials|forms|blockforms|products TEXT      read and print
//   times|blocktimes LOW;HIGH;TEXT;TEXT                          truncated product
//   plaintimes TEXT;TEXT                                         product
#include <fstream>
#include <iostream>
#include <sstream>
#include <climits>
#include "integration/PolyTrie.h"
#include "integration/PolyRep.h"
#include "integration/multiply.h"

static vector<string> split(const string &s, char c) {
  vector<string> v;
  stringstream in(s);
  string x;
  while (getline(in, x, c)) v.push_back(x);
  return v;
}
static vector<int> ints(const string &s) {
  vector<int> v;
  stringstream in(s);
  int x;
  while (in >> x) v.push_back(x);
  return v;
}

int main(int argc, char **argv) {
  ifstream in(argv[1]);
  ofstream out(argv[2]);
  string line;
  while (getline(in, line)) {
    size_t k = line.find(' ');
    string cmd = line.substr(0, k), text = line.substr(k + 1);
    if (cmd == "monomials") {
      monomialSum m;
      loadMonomials(m, text);
      out << printMonomials(m) << endl;
      destroyMonomials(m);
    } else if (cmd == "blockmonomials") {
      _monomialSum m;
      _loadMonomials(m, text);
      out << _printMonomials(m) << endl;
      _destroyMonomials(m);
    } else if (cmd == "forms") {
      linFormSum m;
      loadLinForms(m, text);
      out << printLinForms(m) << endl;
      destroyLinForms(m);
    } else if (cmd == "blockforms") {
      _linFormSum m;
      _loadLinForms(m, text);
      out << _printLinForms(m) << endl;
      _destroyLinForms(m);
    } else if (cmd == "products") {
      linFormProductSum m;
      loadLinFormProducts(m, text);
      for (size_t i = 0; i < m.myFormProducts.size(); i++)
        out << (i ? " | " : "") << printLinForms(m[i]);
      out << endl;
      destroyLinFormProducts(m);
    } else {
      vector<string> a = split(text, ';');
      bool window = cmd != "plaintimes";
      monomialSum p, q;
      loadMonomials(p, a[window ? 2 : 0]);
      loadMonomials(q, a[window ? 3 : 1]);
      BTrieIterator<RationalNTL, int> i, j;
      i.setTrie(p.myMonomials, p.varCount);
      j.setTrie(q.myMonomials, q.varCount);
      if (cmd == "blocktimes") {
        vector<int> low = ints(a[0]), high = ints(a[1]);
        _monomialSum r;
        r.termCount = 0;
        r.varCount = p.varCount;
        r.eHead = NULL;
        r.cHead = NULL;
        multiply<RationalNTL>(&i, &j, r, &low[0], &high[0]);
        out << (r.termCount ? _printMonomials(r) : "[]") << endl;
      } else {
        monomialSum r;
        r.varCount = p.varCount;
        if (window) {
          vector<int> low = ints(a[0]), high = ints(a[1]);
          multiply<RationalNTL>(&i, &j, r, &low[0], &high[0]);
        } else
          multiply<RationalNTL>(&i, &j, r);
        out << printMonomials(r) << endl;
      }
    }
  }
  return 0;
}
