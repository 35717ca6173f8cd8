// weight migration: total conserved, senders lose and named targets gain exactly what was planned
#include "common.h"
#include <agiMigration.h>
int main(int argc, char** argv) {
  Run R(argc, argv, "d_wmig");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 4447 + i * 11 + P * 3);
    GenOpt o;
    Model m = gen(r, P, o);
    for (int v = 0; v < m.n(); v++) m.w[v] = 1024 + r.below(64);
    int steps = (int)r.range(1, 3);
    // planned flows between vertices that see each other on the sender's rank
    std::vector<std::vector<std::pair<std::pair<int, int>, double> > > plan(steps);
    std::ostringstream d;
    d << "flows ";
    for (int k = 0; k < steps; k++) {
      std::set<std::pair<int, int> > used;
      int n = (int)r.below(12);
      for (int q = 0; q < n; q++) {
        int t = (int)r.below(m.t.size());
        if (m.t[t].e.empty()) continue;
        const MEdge& e = m.t[t].e[r.below(m.t[t].e.size())];
        int a = e.pins[0], b = e.pins[r.below(e.pins.size())];
        if (m.hyper) a = e.pins[r.below(e.pins.size())];
        if (a == b || !used.insert(std::make_pair(a, b)).second) continue;
        double w = (1 + r.below(40)) / 4.0;
        plan[k].push_back(std::make_pair(std::make_pair(a, b), w));
        d << k << ":" << m.gid[a] << "->" << m.gid[b] << "(" << w << ") ";
      }
    }
    d << "on " << show(m);
    R.begin(i, d.str());
    if (P > 1 && plan[0].size() > 2) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    bool ok = true;
    std::map<Gid, std::map<Gid, double> > wp;
    for (int k = 0; k < steps && ok; k++) {
      WeightMigration* p = new WeightMigration(g);
      for (size_t q = 0; q < plan[k].size(); q++) {
        int a = plan[k][q].first.first, b = plan[k][q].first.second;
        double w = plan[k][q].second;
        if (m.own[a] == me) {
          GraphVertex *x = g->findGID(m.gid[a]), *y = g->findGID(m.gid[b]);
          // accumulate in two parts now and then
          if (q % 3 == 1) { p->insert(x, y, w - 0.25); p->insert(x, y, 0.25); }
          else p->insert(x, y, w);
          wp[m.gid[a]][m.gid[b]] += w;
        }
        if (m.own[b] == me) wp[m.gid[b]][m.gid[a]] -= w;
      }
      g->migrate(p);
      for (size_t q = 0; q < plan[k].size(); q++) {
        m.w[plan[k][q].first.first] -= plan[k][q].second;
        m.w[plan[k][q].first.second] += plan[k][q].second;
      }
      std::string e = compare(g, m, CK_ALL & ~CK_GHOSTW);
      if (e.empty()) {
        WeightPartitionMap* pm = g->getWeightPartition();
        std::map<Gid, std::map<Gid, double> > got;
        for (WeightPartitionMap::iterator a = pm->begin(); a != pm->end(); ++a) for (std::unordered_map<agi::gid_t, wgt_t>::iterator b = a->second.begin(); b != a->second.end(); ++b) got[a->first][b->first] = b->second;
        if (got != wp) e = "getWeightPartition does not report the flows between the vertices of this rank and their peers";
      }
      if (!e.empty()) { std::ostringstream s; s << "after weight migration " << k + 1 << ": " << e; e = s.str(); }
      ok = R.check(e);
    }
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
