// binary file layer: values round-trip, bytes are big-endian in the file, swaps touch exactly the elements
#include "common.h"
#include <pcu_io.h>
#include <unistd.h>
static std::string swaps(Rng& r) {
  int n = (int)r.below(40), pad = 8;
  std::vector<unsigned char> a(4 * (n + 2 * pad)), b;
  for (size_t i = 0; i < a.size(); i++) a[i] = (unsigned char)r.next();
  b = a;
  pcu_swap_unsigneds((unsigned*)&a[4 * pad], n);
  for (size_t i = 0; i < a.size(); i++) {
    int q = (int)i - 4 * pad;
    unsigned char ex = q >= 0 && q < 4 * n ? b[4 * pad + (q / 4) * 4 + 3 - q % 4] : b[i];
    if (a[i] != ex) BAD("pcu_swap_unsigneds of " << n << " elements: byte " << q << " is " << (int)a[i] << " expected " << (int)ex);
  }
  n = (int)r.below(40);
  std::vector<uint64_t> c(n + 2 * pad), d;
  for (size_t i = 0; i < c.size(); i++) c[i] = r.next();
  d = c;
  pcu_swap_doubles((double*)&c[pad], n);
  for (size_t i = 0; i < c.size(); i++) {
    bool in = (int)i >= pad && (int)i < pad + n;
    uint64_t ex = in ? __builtin_bswap64(d[i]) : d[i];
    if (c[i] != ex) BAD("pcu_swap_doubles of " << n << " elements: element " << (int)i - pad);
  }
  return "";
}
struct Item { int kind; std::vector<unsigned> u; std::vector<uint64_t> d; std::string s; };
int main(int argc, char** argv) {
  Run R(argc, argv, "d_bio");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 32452843 + i * 29 + me * 1000 + P);
    R.begin(i, "random swaps, then a random sequence of unsigneds, doubles, strings and raw bytes written and read back");
    R.nontrivial++;
    std::string err;
    for (int k = 0; k < 10 && err.empty(); k++) err = swaps(r);
    std::vector<Item> items;
    int n = (int)r.range(1, 30);
    for (int k = 0; k < n; k++) {
      Item t;
      t.kind = (int)r.below(4);
      int c = r.coin(10) ? (int)r.below(3000) : (int)r.below(9);
      for (int q = 0; q < c; q++) { t.u.push_back((unsigned)r.next()); t.d.push_back(r.next()); }
      if (c && r.coin()) t.d[0] = 0x7ff8000000000001ull;
      for (int q = 0; q < c; q++) t.s += (char)r.range(1, 255);
      items.push_back(t);
    }
    std::ostringstream fn;
    fn << "bio" << P << "_" << me << ".bin";
    pcu_file* f = pcu_fopen(fn.str().c_str(), true, false);
    std::string bytes;
    for (int k = 0; k < n; k++) {
      Item t = items[k];
      if (t.kind == 0) { if (t.u.size() == 1 && r.coin()) { PCU_WRITE_UNSIGNED(f, t.u[0]); } else pcu_write_unsigneds(f, t.u.data(), t.u.size()); for (size_t q = 0; q < t.u.size(); q++) for (int b = 3; b >= 0; b--) bytes += (char)(items[k].u[q] >> (8 * b)); }
      if (t.kind == 1) { pcu_write_doubles(f, (double*)t.d.data(), t.d.size()); for (size_t q = 0; q < t.d.size(); q++) for (int b = 7; b >= 0; b--) bytes += (char)(items[k].d[q] >> (8 * b)); }
      if (t.kind == 2) { pcu_write_string(f, t.s.c_str()); bytes += t.s; bytes += '\0'; }
      if (t.kind == 3) { pcu_write(f, t.s.data(), t.s.size()); bytes += t.s; }
      if (t.u != items[k].u || t.d != items[k].d) err = "writing changes the caller's data";
    }
    pcu_fclose(f);
    std::string got;
    FILE* q = fopen(fn.str().c_str(), "rb");
    int ch;
    while ((ch = fgetc(q)) != EOF) got += (char)ch;
    fclose(q);
    if (err.empty() && got != bytes) {
      size_t x = 0;
      while (x < got.size() && x < bytes.size() && got[x] == bytes[x]) x++;
      std::ostringstream s;
      s << "file differs from the big-endian encoding at byte " << x << " (length " << got.size() << " expected " << bytes.size() << ")";
      err = s.str();
    }
    f = pcu_fopen(fn.str().c_str(), false, false);
    for (int k = 0; k < n && err.empty(); k++) {
      Item& t = items[k];
      std::ostringstream s;
      if (t.kind == 0) {
        std::vector<unsigned> u(t.u.size() + 2, 0xabcd1234u);
        pcu_read_unsigneds(f, u.data() + 1, t.u.size());
        if (u[0] != 0xabcd1234u || u[t.u.size() + 1] != 0xabcd1234u || !std::equal(t.u.begin(), t.u.end(), u.begin() + 1)) s << "unsigneds of item " << k << " (" << t.u.size() << ") read back differently";
      }
      if (t.kind == 1) {
        std::vector<uint64_t> u(t.d.size() + 2, 7);
        pcu_read_doubles(f, (double*)u.data() + 1, t.d.size());
        if (u[0] != 7 || u[t.d.size() + 1] != 7 || !std::equal(t.d.begin(), t.d.end(), u.begin() + 1)) s << "doubles of item " << k << " read back differently";
      }
      if (t.kind == 2) {
        char* p = NULL;
        pcu_read_string(f, &p);
        if (t.s != p) s << "string of item " << k << " (length " << t.s.size() << ") read back differently";
        free(p);
      }
      if (t.kind == 3) {
        std::vector<char> p(t.s.size() + 1);
        pcu_read(f, p.data(), t.s.size());
        if (t.s != std::string(p.data(), t.s.size())) s << "bytes of item " << k << " read back differently";
      }
      err = s.str();
    }
    pcu_fclose(f);
    unlink(fn.str().c_str());
    if (!R.check(err)) break;
  }
  return R.finish();
}
