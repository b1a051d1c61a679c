// operators of the interval algebra against a brute-force set oracle
#include "drivers/hop.h"
static Node tree(int depth, bool &fx) {
  if (depth == 0 || D.chance(1, 5)) {
    Node n = leaf(!fx); // one unbounded stream per tree: two can make a search endless
    if (n.d[0] == 'w')
      fx = true;
    return n;
  }
  int op = D.below(8);
  Node l = tree(depth - 1, fx), r = tree(depth - 1, fx);
  return combine(op, std::move(l), std::move(r));
}
static void probe(Node &x, bool clipped, int nq) {
  D.at(x.d);
  std::vector<addr> ks;
  for (addr k = -3; k <= 21; k++)
    ks.push_back(k);
  if (!clipped)
    for (addr k : {minfinity, minfinity + 1, maxfinity - 1, maxfinity})
      ks.push_back(k);
  for (addr h : D.hints)
    if (!clipped)
      ks.push_back(h);
  for (int i = 0; i < nq; i++) {
    addr k = ks[D.below(ks.size())];
    int m = D.below(6), form = D.below(3);
    if (!check(x, m, k, form, "", clipped))
      return;
  }
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  // every pair of small lists under every operator, every access at every point
  std::vector<std::vector<El>> small;
  std::vector<El> iv;
  for (addr p = 0; p < 4; p++)
    for (addr q = p; q < 4; q++)
      iv.push_back({p, q, 0});
  for (unsigned b = 0; b < (1u << iv.size()); b++) {
    std::vector<El> v;
    for (size_t i = 0; i < iv.size(); i++)
      if (b >> i & 1)
        v.push_back({iv[i].p, iv[i].q, (fval)(1 + i)});
    if (v.size() <= 4 && minimal(v).size() == v.size()) {
      std::sort(v.begin(), v.end(), [](const El &a, const El &c) { return a.p < c.p; });
      small.push_back(v);
    }
  }
  for (int op = 0; op < 8; op++)
    for (auto &a : small)
      for (auto &b : small) {
        auto mk = [&](const std::vector<El> &v) {
          Node n;
          n.o.e = v;
          if (v.empty())
            n.h = std::make_unique<EmptyHopper>();
          else
            n.h = array(v, 1);
          n.d = show(v);
          return n;
        };
        if (!D.thorough && D.chance(1, 2))
          continue;
        Node x = combine(op, mk(a), mk(b));
        D.at(x.d);
        if (a.size() && b.size())
          D.nontrivial(x.d);
        for (int i = 0; i < 40; i++) {
          int m = D.below(6);
          addr k = D.range(-2, 5);
          if (k == -2)
            k = D.chance(1, 2) ? minfinity : minfinity + 1;
          if (k == 5)
            k = D.chance(1, 2) ? maxfinity : maxfinity - 1;
          if (!check(x, m, k, D.below(3), "", false))
            break;
        }
      }
  long n = D.n(12000, 150000);
  for (long i = 0; i < n; i++) {
    bool fx = false;
    Node x = tree(1 + D.below(3), fx);
    if (x.o.e.size() > 1)
      D.nontrivial(x.d);
    if (i % 997 == 0)
      D.sample(x.d);
    probe(x, fx, 60);
  }
  // coordinates near both ends of the address range
  for (long i = 0; i < n / 6; i++) {
    auto mk = [&](int side) {
      std::vector<El> v;
      int c = 1 + D.below(5);
      for (int j = 0; j < c; j++) {
        addr p = side ? maxfinity - 1 - D.below(8) : minfinity + 1 + D.below(8);
        addr q = p;
        int w = D.below(4);
        while (w-- && q < maxfinity - 1)
          q++;
        v.push_back({p, q, 1});
      }
      Node nd;
      nd.o.e = minimal(v);
      nd.h = array(nd.o.e, 1);
      nd.d = show(nd.o.e);
      return nd;
    };
    int s = D.below(2);
    Node x = combine(D.below(8), mk(s), mk(s));
    D.at(x.d);
    for (int j = 0; j < 30; j++) {
      addr k = s ? maxfinity - D.below(10) : minfinity + D.below(10);
      if (!check(x, D.below(6), k, D.below(3), "", false))
        break;
    }
  }
  return D.finish();
}
