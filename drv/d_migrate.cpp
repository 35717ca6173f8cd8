// migration: the global graph is unchanged, every vertex is where the plan put it, and the partition map is right
#include "common.h"
#include <agiMigration.h>
static std::string parts(Ngraph* g, const Model& m, const std::vector<int>& first) {
  int me = PCU_Comm_Self();
  VertexIterator* vi = g->begin();
  GraphVertex* v;
  while ((v = g->iterate(vi))) {
    int i = m.at.find(g->globalID(v))->second;
    if (g->originalOwner(v) != first[i]) BAD("original owner of vertex " << m.gid[i] << " is " << g->originalOwner(v) << " expected " << first[i]);
  }
  PartitionMap* pm = g->getPartition();
  std::string e;
  std::ostringstream s;
  size_t n = 0;
  for (int i = 0; i < m.n(); i++) {
    if (first[i] != me) continue;
    n++;
    if (!pm->count(m.gid[i])) s << "getPartition does not list vertex " << m.gid[i] << "; ";
    else if ((*pm)[m.gid[i]] != m.own[i]) s << "getPartition maps vertex " << m.gid[i] << " to " << (*pm)[m.gid[i]] << " expected " << m.own[i] << "; ";
  }
  if (s.str().empty() && pm->size() != n) s << "getPartition lists " << pm->size() << " vertices, expected " << n;
  delete pm;
  return s.str();
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_migrate");
  int P = PCU_Comm_Peers();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 99991 + i * 17 + P * 5);
    GenOpt o;
    o.bothways = r.coin(3);
    Model m = gen(r, P, o);
    // plans: per step, per vertex: -1 not planned, else destination (self allowed)
    int steps = (int)r.range(1, 3);
    std::vector<std::vector<int> > plan(steps);
    std::ostringstream d;
    int api = (int)r.below(3);   // 0 one insert per vertex, 1 repeated inserts, 2 repartition
    d << "plans[" << (api == 2 ? "repartition" : api ? "reinserted" : "inserted") << "] ";
    for (int k = 0; k < steps; k++) {
      int density = (int)r.range(1, 4);
      for (int v = 0; v < m.n(); v++) {
        int dst = (api == 2 || r.coin(density)) ? (int)r.below(P) : -1;
        plan[k].push_back(dst);
        d << (v ? "," : "{") << dst;
      }
      d << "} ";
    }
    d << "on " << show(m);
    R.begin(i, d.str());
    if (m.n() > 2 && m.t.size() > 1 && P > 1) R.nontrivial++;
    std::vector<int> first = m.own;
    Ngraph* g = build(m, r, 0);
    g->setOriginalOwners();
    std::string err = compare(g, m, CK_ALL);
    if (!R.check(err)) { destroyGraph(g); break; }
    bool ok = true;
    for (int k = 0; k < steps && ok; k++) {
      if (api == 2) {
        std::vector<part_t> p(g->numLocalVtxs() + 1);
        VertexIterator* vi = g->begin();
        GraphVertex* v;
        int q = 0;
        while ((v = g->iterate(vi))) p[q++] = plan[k][m.at[g->globalID(v)]];
        g->repartition(&p[0]);
      } else {
        Migration* mp = new Migration(g);
        std::vector<GraphVertex*> vs;
        VertexIterator* vi = g->begin();
        GraphVertex* v;
        while ((v = g->iterate(vi))) if (plan[k][m.at[g->globalID(v)]] >= 0) vs.push_back(v);
        Rng lr(R.seed + i * 3 + k + PCU_Comm_Self() * 77);
        shuffle_(vs, lr);
        for (size_t q = 0; q < vs.size(); q++) {
          if (api == 1 && lr.coin()) mp->insert(std::make_pair(vs[q], (int)lr.below(P)));
          mp->insert(std::make_pair(vs[q], plan[k][m.at[g->globalID(vs[q])]]));
        }
        g->migrate(mp);
      }
      for (int v = 0; v < m.n(); v++) if (plan[k][v] >= 0) m.own[v] = plan[k][v];
      std::string e = compare(g, m, CK_ALL);
      if (e.empty()) { PCU_Barrier(); }
      if (!e.empty()) { std::ostringstream s; s << "after migration " << k + 1 << ": " << e; e = s.str(); }
      ok = R.check(e);
      if (!ok) break;
      ok = R.check(parts(g, m, first));
    }
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
