// reported metrics: weights, imbalances, partition evaluation, slope history, migration timers
#include "common.h"
#include <agiMigrationTimers.h>
#include <engpar.h>
#include <engpar_metrics.h>
#include <engpar_sd.h>
#include <unistd.h>
using namespace engpar;
static double partWeight(const Model& m, int p, int dim, bool ghosts) {
  double w = 0;
  if (dim < 0) {
    std::set<int> gs;
    for (int i = 0; i < m.n(); i++) if (m.own[i] == p) w += m.w[i];
    if (ghosts) {
      for (size_t t = 0; t < m.t.size(); t++) for (size_t e = 0; e < m.t[t].e.size(); e++) if (onRank(m, m.t[t].e[e], p))
        for (size_t k = 0; k < m.t[t].e[e].pins.size(); k++) if (m.own[m.t[t].e[e].pins[k]] != p) gs.insert(m.t[t].e[e].pins[k]);
      for (std::set<int>::iterator i = gs.begin(); i != gs.end(); ++i) w += m.w[*i];
    }
  } else for (size_t e = 0; e < m.t[dim].e.size(); e++) if (onRank(m, m.t[dim].e[e], p)) w += m.t[dim].e[e].w;
  return w;
}
static int root(std::vector<int>& p, int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }
static int disconnected(const Model& m, int p) {
  std::vector<int> f(m.n());
  for (int i = 0; i < m.n(); i++) f[i] = i;
  if (m.t.size()) for (size_t e = 0; e < m.t[0].e.size(); e++) {
    int a = -1;
    for (size_t k = 0; k < m.t[0].e[e].pins.size(); k++) {
      int v = m.t[0].e[e].pins[k];
      if (m.own[v] != p) continue;
      if (a < 0) a = v; else f[root(f, a)] = root(f, v);
    }
  }
  int c = 0;
  for (int i = 0; i < m.n(); i++) if (m.own[i] == p && root(f, i) == i) c++;
  return c ? c - 1 : 0;
}
static std::string captured(Ngraph* g, const std::string& name) {
  fflush(stdout);
  char path[] = "evalXXXXXX";
  int fd = mkstemp(path), old = dup(1);
  dup2(fd, 1);
  EnGPar_Set_Verbosity(0);
  evaluatePartition(g, name.c_str());
  EnGPar_Set_Verbosity(-1);
  fflush(stdout);
  dup2(old, 1);
  close(old);
  lseek(fd, 0, SEEK_SET);
  std::string s;
  char b[4096];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd);
  unlink(path);
  return s;
}
// numbers after key, e.g. "Neighbors: <max,min,avg,imb>"
static bool numbers(const std::string& s, const std::string& key, int n, std::vector<double>& out) {
  size_t p = s.find(key);
  out.clear();
  if (p == std::string::npos) return false;
  const char* q = s.c_str() + p + key.size();
  for (int i = 0; i < n; i++) { char* e; double d = strtod(q, &e); if (e == q) return false; out.push_back(d); q = e; }
  return true;
}
static bool near(double a, double b) { return (a != a && b != b) || a == b || fabs(a - b) <= 6e-4 + 1e-9 * fabs(b); }
static std::string slopes(Rng& r) {
  SDSlope sd;
  std::vector<double> h;
  int n = (int)r.range(0, 12);
  for (int k = 0; k < n; k++) {
    double v = r.real();
    sd.push(v);
    h.push_back(v);
    if (sd.isFull() != (h.size() >= 3)) BAD("slope history full after " << h.size() << " values");
    if (h.size() >= 3) {
      double a = h[h.size() - 3], b = h[h.size() - 2], c = h[h.size() - 1];
      double av = (a + b + c) / 3, sl = -1.5 * a + 2 * c - 0.5 * b;
      if (fabs(sd.average() - av) > 1e-7 * (1 + fabs(av))) BAD("average of the history is " << sd.average() << " expected " << av);
      if (fabs(sd.slope() - sl) > 1e-7 * (1 + fabs(a) + fabs(b) + fabs(c))) BAD("slope of the history is " << sd.slope() << " expected " << sl);
    }
  }
  return "";
}
static std::string timers(Rng& r, int P, int me) {   // same calls everywhere, different values
  agi::MigrationTimers t;
  std::vector<std::string> names;
  std::vector<std::vector<double> > sum;
  std::vector<std::vector<int> > cnt;
  for (int k = 0; k < 40; k++) {
    int op = (int)r.below(names.size() < 2 ? 1 : 8);
    if (op == 0 && names.size() < 24) {
      std::ostringstream s;
      s << "timer" << (char)('a' + r.below(26)) << names.size();
      names.push_back(s.str());
      sum.push_back(std::vector<double>(P, 0));
      cnt.push_back(std::vector<int>(P, 0));
      t.addTimer(s.str());
    } else if (op < 5) {
      int x = (int)r.below(names.size());
      for (int p = 0; p < P; p++) {
        int times = 1 + (int)r.below(2);
        for (int q = 0; q < times; q++) { double v = r.real(); sum[x][p] += v; cnt[x][p]++; if (p == me) t.update(names[x], v); }
      }
    }
    for (size_t x = 0; x < names.size(); x++) {
      if (t.getTime(names[x]) != sum[x][me]) BAD("time of " << names[x] << " is " << t.getTime(names[x]) << " expected " << sum[x][me]);
      if (t.getCount(names[x]) != cnt[x][me]) BAD("count of " << names[x] << " is " << t.getCount(names[x]) << " expected " << cnt[x][me]);
    }
  }
  std::ostringstream s;
  for (size_t x = 0; x < names.size(); x++) {
    double mx = 0, tot = 0, pm = 0, pt = 0;
    bool called = true;
    for (int p = 0; p < P; p++) {
      mx = std::max(mx, sum[x][p]);
      tot += sum[x][p];
      if (!cnt[x][p]) { called = false; continue; }
      pm = std::max(pm, sum[x][p] / cnt[x][p]);
      pt += sum[x][p] / cnt[x][p];
    }
    double a = t.processMax(names[x]), b = t.processAvg(names[x]);
    if (a != mx) s << "processMax is " << a << " expected " << mx << "; ";
    if (fabs(b - tot / P) > 1e-9 * (1 + tot)) s << "processAvg is " << b << " expected " << tot / P << "; ";
    if (called) {
      double c = t.perCallProcessMax(names[x]), d = t.perCallProcessAvg(names[x]);
      if (c != pm) s << "perCallProcessMax is " << c << " expected " << pm << "; ";
      if (fabs(d - pt / P) > 1e-9 * (1 + pt)) s << "perCallProcessAvg is " << d << " expected " << pt / P << "; ";
    }
  }
  return s.str();
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_metric");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 6949 + i * 19 + P);
    GenOpt o;
    o.bothways = true;
    o.maxtypes = r.coin(3) ? 6 : 3;
    o.maxe = r.coin() ? 16 : 6;
    Model m = gen(r, P, o);
    wholeWeights(m, r, r.coin(3) ? 1 : 9);
    if (r.coin(4)) for (int v = 0; v < m.n(); v++) if (m.own[v] == P - 1) m.own[v] = 0;
    int T = (int)m.t.size();
    R.begin(i, show(m));
    if (m.n() > 3 && P > 1) R.nontrivial++;
    std::string err = slopes(r);
    if (!R.check(err)) break;
    err = timers(r, P, me);
    if (!R.check(err)) break;
    Ngraph* g = build(m, r, 0);
    std::ostringstream z;
    std::vector<std::vector<double> > pw(T + 1), pg(T + 1);
    for (int dim = -1; dim < T; dim++) for (int p = 0; p < P; p++) { pw[dim + 1].push_back(partWeight(m, p, dim, false)); pg[dim + 1].push_back(partWeight(m, p, dim, true)); }
    std::vector<double> imb, imbg;
    for (int dim = -1; dim < T; dim++) {
      double w = getWeight(g, dim, false), wg = P > 1 || dim >= 0 ? getWeight(g, dim, true) : w;
      if (w != pw[dim + 1][me]) z << "weight of criterion " << dim << " is " << w << " expected " << pw[dim + 1][me] << "; ";
      if (P > 1 && wg != pg[dim + 1][me]) z << "weight of criterion " << dim << " with ghosts is " << wg << " expected " << pg[dim + 1][me] << "; ";
      for (int gh = 0; gh < 2; gh++) {
        double mx = 0, tot = 0;
        const std::vector<double>& q = gh ? pg[dim + 1] : pw[dim + 1];
        for (int p = 0; p < P; p++) { mx = std::max(mx, q[p]); tot += q[p]; }
        (gh ? imbg : imb).push_back(mx / (tot / P));
      }
      double a = EnGPar_Get_Imbalance(w);
      if (!(a != a && imb.back() != imb.back()) && fabs(a - imb.back()) > 1e-9) z << "imbalance of criterion " << dim << " is " << a << " expected " << imb.back() << "; ";
    }
    { // any value, not only weights: largest over average
      double mine = 0, mx = -1e300, tot = 0;
      for (int p = 0; p < P; p++) { double v = r.real() + 1; if (p == me) mine = v; mx = std::max(mx, v); tot += v; }
      double a = EnGPar_Get_Imbalance(mine);
      if (fabs(a - mx / (tot / P)) > 1e-9 * a) z << "imbalance of given values is " << a << " expected " << mx / (tot / P) << "; ";
    }
    for (int gh = 0; gh < (P > 1 ? 2 : 1); gh++) {
      char buf[400];
      buf[0] = 0;
      getImbalances(g, buf, gh);
      if (!me) {
        std::vector<double> x;
        const std::vector<double>& q = gh ? imbg : imb;
        if (!numbers(buf, "", T + 1, x)) z << "imbalance line lists fewer than " << T + 1 << " values: " << buf;
        else for (int k = 0; k <= T; k++) if (!near(x[k], q[k])) z << "imbalance line has " << x[k] << " for criterion " << k - 1 << " expected " << q[k] << "; ";
      }
    }
    bool ok = R.check(z.str());
    if (ok) {
      std::string name(r.below(9), 'n');
      std::string s = captured(g, name);
      std::ostringstream y;
      if (!me) {
        std::string pre = "PARTITION " + name + ": ";
        std::vector<double> x;
        // expected per part
        double emax, emin, etot, eavg;
        int empty = 0;
        std::vector<double> dis(P), nb(P);
        std::vector<std::vector<double> > cut(T, std::vector<double>(P, 0));
        for (int p = 0; p < P; p++) {
          dis[p] = disconnected(m, p);
          std::set<int> s0;
          for (int t = 0; t < T; t++) for (size_t e = 0; e < m.t[t].e.size(); e++) {
            const MEdge& q = m.t[t].e[e];
            if (!onRank(m, q, p)) continue;
            bool c = false;
            for (size_t k = 0; k < q.pins.size(); k++) { int ow = m.own[q.pins[k]]; if (ow != p) { c = true; if (!t) s0.insert(ow); } }
            if (c) cut[t][p] += q.w;
          }
          nb[p] = s0.size();
          bool has = false;
          for (int v = 0; v < m.n(); v++) has |= m.own[v] == p;
          if (!has) empty++;
        }
#define STAT(v) emax = emin = (v)[0], etot = 0; for (int p = 0; p < P; p++) { emax = std::max(emax, (v)[p]); emin = std::min(emin, (v)[p]); etot += (v)[p]; } eavg = etot / P;
#define LINE4(key) if (!numbers(s, key, 4, x)) y << "no line " << key << "; "; else if (!near(x[0], emax) || !near(x[1], emin) || !near(x[2], eavg) || !near(x[3], emax / eavg)) \
          y << key << " reports " << x[0] << ' ' << x[1] << ' ' << x[2] << ' ' << x[3] << " expected " << emax << ' ' << emin << ' ' << eavg << ' ' << emax / eavg << "; ";
#define LINE2(key) if (!numbers(s, key, 2, x)) y << "no line " << key << "; "; else if (!near(x[0], emax) || !near(x[1], etot)) \
          y << key << " reports " << x[0] << ' ' << x[1] << " expected " << emax << ' ' << etot << "; ";
        if (P == 1 || true) { if (!numbers(s, pre + "Empty Parts:", 1, x) || x[0] != empty) y << "empty parts reported " << (x.empty() ? -1 : x[0]) << " expected " << empty << "; "; }
        STAT(dis) LINE2(pre + "Disconnected Components: <max,tot>")
        STAT(nb) LINE4(pre + "Neighbors: <max,min,avg,imb>")
        STAT(pw[0]) LINE4(pre + "Local Vertex: <max,min,avg,imb>")
        STAT(pg[0]) LINE4(pre + "Total Vertex: <max,min,avg,imb>")
        for (int t = 0; t < T; t++) {
          std::ostringstream k;
          k << pre << "Edges type " << t;
          STAT(pw[t + 1]) LINE4(k.str() + ": <max,min,avg,imb>")
          STAT(cut[t]) LINE2(k.str() + " Cut: <max,tot>")
        }
        if (y.str().size()) y << " in: " << s;
      }
      ok = R.check(y.str());
    }
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
