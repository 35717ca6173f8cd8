// one selection step through the selector's interface, and whole balancer runs
#include "common.h"
#include <agiMigration.h>
#include <engpar.h>
#include <engpar_diffusive_input.h>
#include <engpar_sides.h>
#include <engpar_weights.h>
#include <engpar_targets.h>
#include <engpar_queue.h>
#include <engpar_selector.h>
#include <engpar_weightSelector.h>
#include <engpar_weight_input.h>
using namespace engpar;
static double partW(Ngraph* g, int dim) { return engpar::getWeight(g, dim, false); }
int main(int argc, char** argv) {
  Run R(argc, argv, "d_balance");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 8191 + i * 23 + P);
    GenOpt o;
    o.bothways = true;
    o.maxv = r.coin(3) ? 60 : 24;
    o.maxe = r.coin(3) ? 80 : 30;
    o.maxtypes = 2;
    Model m = gen(r, P, o);
    bool bothTypes = m.t.size() > 1;
    wholeWeights(m, r, r.coin(3) ? 1 : 6);
    // an uneven start
    if (r.coin()) for (int v = 0; v < m.n(); v++) if (!r.coin(3)) m.own[v] = 0;
    int T = (int)m.t.size();
    int mode = (int)r.below(6);   // 0,1 step; 2 balance; 3 weight balance
    if (mode > 3) mode -= 4;
    int dim = (int)r.range(-1, T - 1);
    double step = r.coin() ? (r.coin() ? 0.5 : 1.0) : (double)r.range(1, 8) / 8;
    int nc = mode == 1 ? (int)r.range(1, r.coin(4) ? 8 : 3) : 0;
    std::vector<int> cd;
    for (int k = 0; k < nc; k++) cd.push_back((int)r.range(-1, T - 1));
    double slack = (double)r.below(r.coin() ? 3 : 8);
    std::vector<double> slk;
    for (int k = 0; k < nc; k++) slk.push_back(r.coin() ? slack : slack + (double)r.below(30));
    bool dq = m.hyper && r.coin();
    int mincon = r.coin(4) ? 2 : 1;
    double cutlim = r.coin(4) ? 2.0 : 0;
    bool pw = r.coin(5);
    std::ostringstream d;
    d << (mode == 0 ? "selection" : mode == 1 ? "selection with completed criteria" : mode == 2 ? "balance" : "balanceWeights") << ", criterion " << dim << ", step " << step << (dq ? ", distance queue" : "")
      << ", minimum connectivity " << mincon << ", cut limit " << cutlim << (pw ? ", part weight balancer" : "") << ", slack " << slack << ", completed";
    for (int k = 0; k < nc; k++) d << ' ' << cd[k];
    d << ", " << show(m);
    R.begin(i, d.str());
    if (m.n() > 4 && P > 1) R.nontrivial++;
    (void)bothTypes;
    Rng copy = r;
    Ngraph* g = build(m, r, 0);
    std::vector<int> first = m.own;
    g->setOriginalOwners();
    std::string err;
    bool ok = true;
    DiffusiveInput* in = static_cast<DiffusiveInput*>(createDiffusiveInput(g, step));
    in->useDistanceQueue = dq;
    in->bfsPush = r.coin();
    in->minConnectivity = mincon;
    in->limitEdgeCutGrowth = cutlim;
    if (mode < 2) {
      std::vector<double> lim(nc);
      for (int k = 0; k < nc; k++) lim[k] = PCU_Max_Double(partW(g, cd[k])) + slk[k];
      Sides* s = makeSides(in);
      Weights* w = makeWeights(in, s, dim);
      std::vector<wgt_t> none;
      Targets* tg = makeTargets(in, s, w, 1 << 20, NULL, none);
      Queue* q = dq ? createDistanceQueue(in) : createIterationQueue(g);
      Selector* sel = makeSelector(in, q, &cd, &lim);
      Migration* plan = new Migration(g);
      wgt_t pwt = 0;
      std::ostringstream z;
      for (unsigned c = 2; c <= 12; c += 2) {
        wgt_t before = pwt;
        pwt = sel->select(tg, plan, pwt, c, dim);
        if (pwt < before) z << "planned weight decreased";
      }
      std::map<GraphVertex*, int> chosen;
      for (Migration::iterator p = plan->begin(); p != plan->end(); ++p) {
        int dst = plan->get(*p);
        chosen[*p] = dst;
        if (g->owner(*p) != me) z << "a vertex of another part was selected";
        if (!tg->has(dst) || !(tg->get(dst) > 0)) z << "vertex " << g->globalID(*p) << " is sent to part " << dst << " which has no positive target";
        if (!s->has(dst)) z << "vertex " << g->globalID(*p) << " is sent to part " << dst << " which is no neighbour";
        if (z.str().size()) break;
      }
      if (dim == -1 && z.str().empty()) {
        double sum = 0;
        for (Migration::iterator p = plan->begin(); p != plan->end(); ++p) sum += g->weight(*p);
        if (fabs(sum - pwt) > 1e-9) z << "planned weight is " << pwt << " but the selected vertices weigh " << sum;
      }
      // with one peer nothing is planned twice: without its last cavity (the vertices of one edge chosen last) the plan is below the target
      if (dim == -1 && P == 2 && plan->size() && z.str().empty()) {
        int dst = 1 - me;
        std::vector<GraphVertex*> seq;
        for (Migration::iterator p = plan->begin(); p != plan->end(); ++p) seq.push_back(*p);
        size_t best = 0;
        EdgeIterator* ei = g->edges(seq.back());
        for (GraphEdge* e; (e = g->iterate(ei));) {
          std::set<GraphVertex*> on;
          PinIterator* pi = g->pins(e);
          for (GraphVertex* v; (v = g->iterate(pi));) on.insert(v);
          g->destroy(pi);
          size_t k = 0;
          while (k < seq.size() && on.count(seq[seq.size() - 1 - k])) k++;
          best = std::max(best, k);
        }
        g->destroy(ei);
        double sum = 0;
        for (size_t k = 0; k + best < seq.size(); k++) sum += g->weight(seq[k]);
        if (best < seq.size() && sum >= tg->get(dst) + 1e-9 * (1 + sum)) z << "a cavity was started although " << sum << " was already planned for a target of " << tg->get(dst);
        if (best < seq.size() && sum == tg->get(dst)) z << "a cavity was started although the target " << sum << " was met exactly";
      }
      err = z.str();
      ok = R.check(err);
      if (ok) {
        if (mincon > 1) sel->selectDisconnected(plan, dim);
        for (Migration::iterator p = plan->begin(); p != plan->end(); ++p) chosen[*p] = plan->get(*p);
        if (nc) {
          Midd* cap = sel->trim(tg, plan);
          sel->cancel(plan, cap);
          for (Migration::iterator p = plan->begin(); p != plan->end(); ++p)
            if (!chosen.count(*p) || chosen[*p] != plan->get(*p)) err = "cancelling changed the destination of a vertex or added one";
        }
        delete sel; delete q; delete tg; delete w; delete s;
        int np = PCU_Add_Int(plan->size());
        if (np) g->migrate(plan); else delete plan;
        std::string e = regather(g, m);
        if (err.empty()) err = e;
        ok = R.check(err);
        if (ok && nc) {
          std::ostringstream y;
          for (int k = 0; k < nc; k++) {
            double now = partW(g, cd[k]);
            if (now > lim[k] + 1e-9) y << "weight of this part for the earlier criterion " << cd[k] << " is " << now << " over its limit " << lim[k];
          }
          ok = R.check(y.str());
        }
      }
      delete in;
    } else if (mode == 2) {
      int np = (int)r.range(1, 3);
      std::vector<int> pr;
      std::vector<double> tl;
      for (int k = 0; k < np; k++) { pr.push_back((int)r.range(-1, T - 1)); tl.push_back(1.0 + (double)r.range(1, 20) / 20); in->addPriority(pr[k], tl[k]); }
      bool cg = r.coin(4);
      in->maxIterations = 12;
      in->maxIterationsPerType = 6;
      in->runPartWeightBalancer = pw;
      in->countGhosts = cg;
      in->sides_edge_type = 0;
      // the same run stopped after the first criteria gives the limits the later ones have to respect (two ranks: the run is repeatable)
      std::vector<double> lim;
      if (P == 2 && !cg)
        for (int k = 0; k + 1 < np; k++) {
          Rng r2 = copy;
          Ngraph* h = build(m, r2, 0);
          DiffusiveInput* hin = static_cast<DiffusiveInput*>(createDiffusiveInput(h, step));
          hin->useDistanceQueue = in->useDistanceQueue; hin->bfsPush = in->bfsPush; hin->minConnectivity = mincon; hin->limitEdgeCutGrowth = cutlim;
          for (int j = 0; j <= k; j++) hin->addPriority(pr[j], tl[j]);
          hin->maxIterations = 12; hin->maxIterationsPerType = 6; hin->runPartWeightBalancer = pw; hin->countGhosts = cg; hin->sides_edge_type = 0;
          balance(hin, -1);
          double w = partW(h, pr[k]);
          lim.push_back(std::max(PCU_Max_Double(w), PCU_Add_Double(w) / P * tl[k]));
          destroyGraph(h);
        }
      balance(in, -1);
      err = regather(g, m);
      for (size_t k = 0; k < lim.size() && err.empty(); k++)
        if (partW(g, pr[k]) > lim[k] + 1e-6) {
          std::ostringstream z;
          z << "balancing criterion " << pr[np - 1] << " left this part with weight " << partW(g, pr[k]) << " for the earlier criterion " << pr[k] << ", over the accepted limit " << lim[k];
          err = z.str();
        }
      ok = R.check(err);
    } else {
      delete in;
      WeightInput* wi = createWeightInput(g, 1.05, step);
      wi->maxIterations = 8;
      double tot = partW(g, -1), all = PCU_Add_Double(tot);
      balanceWeights(wi, -1);
      double now = PCU_Add_Double(partW(g, -1));
      if (fabs(now - all) > 1e-6) { std::ostringstream z; z << "total vertex weight changed from " << all << " to " << now; err = z.str(); }
      std::string e = regather(g, m);
      if (err.empty()) err = e;
      for (int v = 0; v < m.n() && err.empty(); v++) if (m.own[v] != first[v]) err = "weight balancing moved a vertex";
      ok = R.check(err);
    }
    if (ok) {
      err = compare(g, m, mode == 3 ? (CK_ALL & ~(CK_WGT | CK_GHOSTW)) : CK_ALL);
      ok = R.check(err);
      if (ok && !(mode == 2 && P == 1)) ok = R.check(partsOk(g, m, first));
    }
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
