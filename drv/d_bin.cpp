// loading a binary edge list
#include "common.h"
#include <binGraph.h>
#include <unistd.h>
int main(int argc, char** argv) {
  Run R(argc, argv, "d_bin");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 4243 + i * 37 + P);
    Model m;
    m.ranks = P;
    m.hyper = false;
    m.coords = false;
    int n = (int)r.range(2, r.coin() ? 10 : 40), ne = (int)r.range(1, r.coin() ? 12 : 60);
    std::vector<std::pair<int, int> > es;
    int top = 0;
    bool multi = r.coin(3);
    std::set<std::pair<int, int> > used;
    for (int k = 0; k < ne; k++) {
      int a = (int)r.below(n), b = (int)r.below(n);
      if (a == b) b = (a + 1) % n;
      if (!multi && used.count(std::make_pair(a, b))) continue;
      used.insert(std::make_pair(a, b));
      es.push_back(std::make_pair(a, b));
      top = std::max(top, std::max(a, b));
    }
    n = top + 1;
    bool byfile = r.coin();
    for (int v = 0; v < n; v++) {
      m.gid.push_back(v);
      m.at[v] = v;
      m.w.push_back(1);
      m.xyz.push_back(std::vector<double>(3, 0));
      m.own.push_back(byfile ? (int)r.below(P) : v / (n / P + 1));
    }
    MType t;
    t.weighted = false;
    for (size_t k = 0; k < es.size(); k++) { MEdge e; e.gid = (Gid)k; e.w = 1; e.pins.push_back(es[k].first); e.pins.push_back(es[k].second); t.e.push_back(e); }
    m.t.push_back(t);
    std::ostringstream d;
    d << (byfile ? "partition file, " : "block partition, ") << show(m);
    R.begin(i, d.str());
    if (P > 1 && es.size() > 2) R.nontrivial++;
    char gf[] = "edges.bin", pf[] = "parts.txt";
    if (!me) {
      FILE* f = fopen(gf, "wb");
      for (size_t k = 0; k < es.size(); k++) { int32_t x[2] = {es[k].first, es[k].second}; fwrite(x, 4, 2, f); }
      fclose(f);
      f = fopen(pf, "w");
      for (int v = 0; v < n; v++) fprintf(f, "%d\n", m.own[v]);
      fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    Ngraph* g = createBinGraph(gf, byfile ? pf : NULL);
    std::string err;
    if (g->isHyper()) err = "the graph is a hypergraph";
    if (g->numEdgeTypes() != 1) err = "the graph has more than one edge type";
    bool ok = R.check(err);
    if (ok) {
      Model q = m;
      ok = R.check(regather(g, q));
      std::ostringstream z;
      for (int v = 0; v < n; v++) if (q.own[v] != m.own[v]) z << "vertex " << v << " is on rank " << q.own[v] << " expected " << m.own[v] << "; ";
      if (ok) ok = R.check(z.str());
    }
    if (ok) ok = R.check(compare(g, m, CK_ALL, false));
    if (!ok) break;
    destroyGraph(g);
  }
  return R.finish();
}
