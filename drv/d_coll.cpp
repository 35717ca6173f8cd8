// collectives against MPI's own, element by element
#include "common.h"
#include <unistd.h>
#include <limits.h>
#include <time.h>
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
template <class T> static std::string cmp(const char* op, const std::vector<T>& a, const std::vector<T>& b, const std::vector<T>& in) {
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) BAD(op << " of " << a.size() << " elements: element " << i << " is " << a[i] << " expected " << b[i] << " (own contribution " << in[i] << ")");
  return "";
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_coll");
  int me = PCU_Comm_Self(), np = PCU_Comm_Peers();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 7907 + i * 31 + np);
    int n = (int)r.range(0, 5);
    if (r.coin(10)) n = 3000;
    int op = (int)r.below(16);
    Rng q(r.next() + me * 131 + 1);
    std::ostringstream d;
    d << "operation " << op << " with " << n << " elements on " << np << " ranks";
    R.begin(i, d.str());
    if (np > 1) R.nontrivial++;
    std::string err;
    std::vector<double> fd(n + 1), rd(n + 1);
    std::vector<int> fi(n + 1), ri(n + 1);
    std::vector<long> fl(n + 1), rl(n + 1);
    std::vector<size_t> fs(n + 1), rs(n + 1);
    bool neg = r.coin();
    for (int k = 0; k <= n; k++) {
      fd[k] = (double)q.range(-100000, 100000) / 64.0;
      fi[k] = (int)q.range(-1000000, neg ? -1 : 1000000);
      fl[k] = (long)q.range(-(1ll << 50), neg ? -1 : (1ll << 50));
      fs[k] = (size_t)q.range(0, 1ll << 50);
    }
    std::vector<double> od(fd); std::vector<int> oi(fi); std::vector<long> ol(fl); std::vector<size_t> os(fs);
    if (!n) { }
#define MANY(CALL, v, ref, type, mop) do { CALL(v.data(), n); MPI_Allreduce(o##v.data(), ref.data(), n, type, mop, MPI_COMM_WORLD); ref[n] = o##v[n]; err = cmp(#CALL, v, ref, o##v); } while (0)
#define ofd od
#define ofi oi
#define ofl ol
#define ofs os
    if (op == 0) MANY(PCU_Add_Doubles, fd, rd, MPI_DOUBLE, MPI_SUM);
    else if (op == 1) MANY(PCU_Min_Doubles, fd, rd, MPI_DOUBLE, MPI_MIN);
    else if (op == 2) MANY(PCU_Max_Doubles, fd, rd, MPI_DOUBLE, MPI_MAX);
    else if (op == 3) MANY(PCU_Add_Ints, fi, ri, MPI_INT, MPI_SUM);
    else if (op == 4) MANY(PCU_Min_Ints, fi, ri, MPI_INT, MPI_MIN);
    else if (op == 5) MANY(PCU_Max_Ints, fi, ri, MPI_INT, MPI_MAX);
    else if (op == 6) MANY(PCU_Add_Longs, fl, rl, MPI_LONG, MPI_SUM);
    else if (op == 7) MANY(PCU_Add_SizeTs, fs, rs, MPI_UNSIGNED_LONG, MPI_SUM);
    else if (op == 8) MANY(PCU_Min_SizeTs, fs, rs, MPI_UNSIGNED_LONG, MPI_MIN);
    else if (op == 9) MANY(PCU_Max_SizeTs, fs, rs, MPI_UNSIGNED_LONG, MPI_MAX);
    else if (op == 10) {
      PCU_Exscan_Ints(fi.data(), n);
      MPI_Exscan(oi.data(), ri.data(), n, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
      if (!me) for (int k = 0; k < n; k++) ri[k] = 0;
      ri[n] = oi[n];
      err = cmp("PCU_Exscan_Ints", fi, ri, oi);
    } else if (op == 11) {
      PCU_Exscan_Longs(fl.data(), n);
      MPI_Exscan(ol.data(), rl.data(), n, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
      if (!me) for (int k = 0; k < n; k++) rl[k] = 0;
      rl[n] = ol[n];
      err = cmp("PCU_Exscan_Longs", fl, rl, ol);
    } else if (op == 12) {
      // scalars
      double xd = fd[0], yd; int xi = fi[0], yi; long xl = fl[0], yl; size_t xs = fs[0], ys;
#define ONE(CALL, x, y, type, mop) do { __typeof__(x) z = CALL(x); MPI_Allreduce(&x, &y, 1, type, mop, MPI_COMM_WORLD); if (z != y && err.empty()) { std::ostringstream s_; s_ << #CALL << "(" << x << ") is " << z << " expected " << y; err = s_.str(); } } while (0)
      ONE(PCU_Add_Double, xd, yd, MPI_DOUBLE, MPI_SUM);
      ONE(PCU_Min_Double, xd, yd, MPI_DOUBLE, MPI_MIN);
      ONE(PCU_Max_Double, xd, yd, MPI_DOUBLE, MPI_MAX);
      ONE(PCU_Add_Int, xi, yi, MPI_INT, MPI_SUM);
      ONE(PCU_Min_Int, xi, yi, MPI_INT, MPI_MIN);
      ONE(PCU_Max_Int, xi, yi, MPI_INT, MPI_MAX);
      ONE(PCU_Add_Long, xl, yl, MPI_LONG, MPI_SUM);
      ONE(PCU_Add_SizeT, xs, ys, MPI_UNSIGNED_LONG, MPI_SUM);
      ONE(PCU_Min_SizeT, xs, ys, MPI_UNSIGNED_LONG, MPI_MIN);
      ONE(PCU_Max_SizeT, xs, ys, MPI_UNSIGNED_LONG, MPI_MAX);
      yi = 0; yl = 0;
      MPI_Exscan(&xi, &yi, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
      MPI_Exscan(&xl, &yl, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
      if (!me) { yi = 0; yl = 0; }
      if (PCU_Exscan_Int(xi) != yi) err = "PCU_Exscan_Int";
      if (PCU_Exscan_Long(xl) != yl) err = "PCU_Exscan_Long";
    } else if (op == 13) {
      int c = q.coin(3) ? 1 : 0, y;
      int z = PCU_Or(c);
      MPI_Allreduce(&c, &y, 1, MPI_INT, MPI_LOR, MPI_COMM_WORLD);
      if (!!z != !!y) err = "PCU_Or";
    } else if (op == 14) {
      int c = q.coin(8) ? 0 : 1, y;
      int z = PCU_And(c);
      MPI_Allreduce(&c, &y, 1, MPI_INT, MPI_LAND, MPI_COMM_WORLD);
      if (!!z != !!y) err = "PCU_And";
    } else {
      // barrier: nobody leaves before everybody has entered
      int late = (int)r.below(np);
      if (me == late) usleep(3000);
      double in = now();
      PCU_Barrier();
      double out = now(), lin, fout;
      MPI_Allreduce(&in, &lin, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
      MPI_Allreduce(&out, &fout, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
      if (fout < lin) err = "PCU_Barrier: a rank leaves before another has entered";
    }
    if (!R.check(err)) break;
  }
  return R.finish();
}
