// one stream over several: minimal intervals of the union, last operand's value
#include "drivers/hop.h"
#include "gcl/vector_hopper.h"
int main(int argc, char **argv) {
  D.args(argc, argv);
  long n = D.n(9000, 120000);
  for (long i = 0; i < n; i++) {
    Node x;
    int m = D.chance(1, 12) ? D.below(2) : 2 + D.below(D.chance(1, 6) ? 12 : 4);
    std::vector<El> all;
    std::vector<std::unique_ptr<Hopper>> hs;
    std::vector<std::vector<El>> es;
    x.d = "vector";
    addr base = D.chance(1, 10) ? minfinity + 1 : D.chance(1, 10) ? maxfinity - 1 - 40 : 0;
    int span = 6 + D.below(30);
    int mode = D.below(3);
    bool fixed = base == 0 && D.chance(1, 10);
    for (int j = 0; j < m; j++) {
      std::vector<El> e;
      if (fixed && j == 0) {
        addr w = 3 + D.below(6);
        hs.push_back(std::make_unique<FixedWidthHopper>(w));
        for (addr p = LO - 40; p <= HI + 40; p++)
          e.push_back({p, p + w - 1, 0});
        es.push_back(e);
        x.d += " width(" + S(w) + ")";
        continue;
      }
      int kind = D.below(8);
      if (kind == 0) {
        hs.push_back(std::make_unique<EmptyHopper>());
        x.d += " empty";
      } else {
        if (kind == 1 && !es.empty() && !es.back().empty() && es.back().size() < 40) {
          e = es.back(); // the same intervals again, other values
          for (auto &y : e)
            y.v = 1 + D.below(9);
        } else {
          e = gen_list(1 + D.below(8), base, base + span, 1 + D.below(5));
          for (auto &y : e)
            y.v = D.below(9);
        }
        if (mode == 0)
          for (auto &y : e)
            y.v = 0;
        hs.push_back(array(e, mode == 0 ? 0 : 1));
        x.d += " " + show(e);
      }
      es.push_back(e);
    }
    for (size_t j = es.size(); j > 0; j--)
      for (auto &y : es[j - 1])
        all.push_back(y);
    x.o.e = minimal(all);
    std::string err;
    bool null = m == 0 && D.chance(1, 2);
    x.h = gcl::VectorHopper::make(null ? nullptr : &hs, false, &err);
    if (x.h == nullptr) {
      D.fail("no stream for " + x.d);
      continue;
    }
    if (!null && !hs.empty())
      D.fail("operands not taken: " + x.d);
    D.at(x.d);
    if (m > 1 && x.o.e.size() > 1)
      D.nontrivial(x.d);
    if (i % 997 == 0)
      D.sample(x.d);
    int style = D.below(3); // sweep up, sweep down, jump about
    addr k = style == 1 ? base + span + 3 : base - (base == minfinity + 1 ? 0 : 2);
    std::string hist = "; earlier:";
    for (int j = 0; j < 26; j++) {
      int a = D.below(6);
      if (D.chance(1, 2))
        a = style == 1 ? 2 : 0;
      addr kk = D.chance(1, 20) ? (D.chance(1, 2) ? minfinity : maxfinity) : k;
      int form = D.below(3);
      if (fixed && (kk < LO || kk > HI))
        kk = D.range(LO, HI);
      if (!check(x, a, kk, form, hist, fixed))
        break;
      hist += std::string(" ") + MN[a] + "(" + S(kk) + ")";
      if (style == 0)
        k += D.below(4);
      else if (style == 1)
        k -= D.below(4);
      else
        k = base + D.below(span + 4) - (base == minfinity + 1 ? 0 : 2);
    }
  }
  return D.finish();
}
