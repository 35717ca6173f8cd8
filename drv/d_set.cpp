// bulk setters change exactly the values of the named kind and type
#include "common.h"
int main(int argc, char** argv) {
  Run R(argc, argv, "d_set");
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 7919 + i * 131 + PCU_Comm_Peers());
    GenOpt o;
    Model m = gen(r, PCU_Comm_Peers(), o);
    std::ostringstream d;
    d << "setters on " << show(m);
    R.begin(i, d.str());
    if (m.n() > 2 && m.t.size() > 1) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    std::string err = compare(g, m, CK_ALL);
    bool ghosts = true;
    for (int k = 0; k < 3 && err.empty(); k++) {
      int op = (int)r.below(3);
      if (op == 0) {
        for (int v = 0; v < m.n(); v++) m.w[v] = 1 + r.real();
        std::vector<wgt_t> ws(g->numLocalVtxs() + 1);
        VertexIterator* vi = g->begin();
        GraphVertex* v;
        while ((v = g->iterate(vi))) ws[g->localID(v)] = m.w[m.at[g->globalID(v)]];
        g->setWeights(&ws[0]);
        ghosts = false;
      } else if (op == 1) {
        int t = (int)r.below(m.t.size());
        double w = 1 + r.real();
        for (size_t e = 0; e < m.t[t].e.size(); e++) m.t[t].e[e].w = w;
        g->setEdgeWeights(w, t);
      } else {
        m.coords = true;
        for (int v = 0; v < m.n(); v++) for (int c = 0; c < 3; c++) m.xyz[v][c] = r.real();
        coord_t* cs = new coord_t[g->numLocalVtxs() + 1];
        VertexIterator* vi = g->begin();
        GraphVertex* v;
        while ((v = g->iterate(vi))) for (int c = 0; c < 3; c++) cs[g->localID(v)][c] = m.xyz[m.at[g->globalID(v)]][c];
        g->setCoords(cs);
        delete[] cs;
      }
      err = compare(g, m, ghosts ? CK_ALL : CK_ALL & ~CK_GHOSTW);
      if (!err.empty()) err = std::string(op == 0 ? "after setWeights: " : op == 1 ? "after setEdgeWeights: " : "after setCoords: ") + err;
    }
    bool ok = R.check(err);
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
