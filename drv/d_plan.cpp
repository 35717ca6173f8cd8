// migration plans and weight migration plans against reference maps
#include "common.h"
#include <agiMigration.h>
static std::string agree(Ngraph* g, Migration* p, const std::map<GraphVertex*, int>& ref, const std::vector<GraphVertex*>& all) {
  if (p->size() != (lid_t)ref.size()) BAD("Migration::size is " << p->size() << " expected " << ref.size());
  for (size_t i = 0; i < all.size(); i++) {
    bool in = ref.count(all[i]) > 0;
    if (p->has(all[i]) != in) BAD("Migration::has(vertex lid " << g->localID(all[i]) << ") is " << p->has(all[i]));
    if (in && p->get(all[i]) != ref.find(all[i])->second) BAD("Migration::get(vertex lid " << g->localID(all[i]) << ") is " << p->get(all[i]) << " expected " << ref.find(all[i])->second);
  }
  std::set<GraphVertex*> seen;
  for (Migration::iterator it = p->begin(); it != p->end(); ++it) {
    if (!ref.count(*it)) BAD("Migration iteration yields an unplanned vertex");
    if (!seen.insert(*it).second) BAD("Migration iteration yields a vertex twice");
  }
  if (seen.size() != ref.size()) BAD("Migration iteration yields " << seen.size() << " of " << ref.size());
  return "";
}
typedef std::map<std::pair<GraphVertex*, GraphVertex*>, double> WRef;
static std::string wagree(Ngraph* g, WeightMigration* p, const WRef& ref, const std::vector<GraphVertex*>& all, bool tol) {
  double sum = 0;
  std::set<GraphVertex*> src;
  for (WRef::const_iterator i = ref.begin(); i != ref.end(); ++i) { sum += i->second; src.insert(i->first.first); }
  if (!tol && p->size() != (lid_t)sum) BAD("WeightMigration::size is " << p->size() << " expected the planned total " << sum);
  for (size_t a = 0; a < all.size(); a++) {
    if (p->has(all[a]) != (src.count(all[a]) > 0)) BAD("WeightMigration::has(v) for vertex lid " << g->localID(all[a]));
    for (size_t b = 0; b < all.size(); b++) {
      WRef::const_iterator k = ref.find(std::make_pair(all[a], all[b]));
      if (p->has(all[a], all[b]) != (k != ref.end())) BAD("WeightMigration::has(v,u)");
      if (k != ref.end() && p->get(all[a], all[b]) != k->second) BAD("WeightMigration::get is " << p->get(all[a], all[b]) << " expected " << k->second);
    }
  }
  std::set<std::pair<GraphVertex*, GraphVertex*> > seen;
  size_t n = 0;
  bool post = ref.size() % 2;
  for (WeightMigration::iterator it = p->begin(); it != p->end();) {
    if (++n > ref.size()) BAD("WeightMigration iteration yields too many pairs");
    WRef::const_iterator k = ref.find(std::make_pair(it.u(), it.v()));
    if (k == ref.end()) BAD("WeightMigration iteration yields an unplanned pair");
    if (it.weight() != k->second) BAD("WeightMigration iteration yields weight " << it.weight() << " expected " << k->second);
    if (!seen.insert(k->first).second) BAD("WeightMigration iteration repeats a pair");
    if (post) {
      WeightMigration::iterator o = it++;
      if (o.u() != k->first.first || o.v() != k->first.second) BAD("post-increment does not return the old position");
    } else ++it;
  }
  if (seen.size() != ref.size()) BAD("WeightMigration iteration yields " << seen.size() << " of " << ref.size());
  return "";
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_plan");
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 12347 + i * 7 + PCU_Comm_Peers());
    GenOpt o;
    Model m = gen(r, PCU_Comm_Peers(), o);
    R.begin(i, "plans over " + show(m));
    Ngraph* g = build(m, r, 0);
    Rng l(R.seed * 31 + i + PCU_Comm_Self() * 1013);
    std::vector<GraphVertex*> loc, all;
    VertexIterator* vi = g->begin();
    GraphVertex* v;
    while ((v = g->iterate(vi))) { loc.push_back(v); all.push_back(v); }
    GhostIterator* gi = g->beginGhosts();
    while ((v = g->iterate(gi))) all.push_back(v);
    if (loc.size() > 2) R.nontrivial++;
    std::string err;
    {
      Migration p(g);
      std::map<GraphVertex*, int> ref;
      int ops = (int)l.range(0, 20);
      err = agree(g, &p, ref, all);
      for (int k = 0; k < ops && err.empty(); k++) {
        if (l.coin(8)) { p.clear(); ref.clear(); }
        else if (loc.size()) {
          GraphVertex* x = loc[l.below(loc.size())];
          int d = l.coin(3) ? 0 : (int)l.below(100000);
          bool fresh = p.insert(std::make_pair(x, d));
          if (fresh != !ref.count(x)) { err = "Migration::insert reports the wrong freshness"; break; }
          ref[x] = d;
        }
        err = agree(g, &p, ref, all);
      }
    }
    if (err.empty()) {
      WeightMigration p(g);
      WRef ref;
      int ops = (int)l.range(0, 20);
      err = wagree(g, &p, ref, all, false);
      for (int k = 0; k < ops && err.empty(); k++) {
        if (l.coin(8)) { p.clear(); ref.clear(); }
        else if (all.size()) {
          GraphVertex *x = all[l.below(all.size())], *y = all[l.below(all.size())];
          double w = l.below(64) / 4.0;
          p.insert(x, y, w);
          ref[std::make_pair(x, y)] += w;
        }
        err = wagree(g, &p, ref, all, false);
      }
    }
    bool ok = R.check(err);
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
