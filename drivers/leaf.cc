// leaf streams: galloping search over stored arrays, constants, fixed windows
#include "drivers/hop.h"
#include "src/simple_posting.h"
static std::vector<addr> probes(const std::vector<El> &e) {
  std::vector<addr> ks = {minfinity, minfinity + 1, maxfinity - 1, maxfinity, -1, 0, 1};
  for (auto &x : e)
    for (addr k : {x.p, x.q}) {
      ks.push_back(k);
      ks.push_back(k - 1);
      ks.push_back(k + 1);
    }
  for (addr h : D.hints)
    ks.push_back(h);
  return ks;
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  long n = D.n(4000, 60000);
  for (long i = 0; i < n; i++) {
    Node x;
    bool stored = D.chance(1, 3);
    int len = D.chance(1, 12) ? 1 + D.below(400) : 1 + D.below(14);
    addr p = D.chance(1, 8) ? minfinity + 1 + D.below(3) : D.range(-50, 50);
    addr q = p - 1;
    std::vector<El> e;
    int wide = D.below(4);
    for (int j = 0; j < len; j++) {
      addr a = p, b;
      b = wide == 0 ? a : a + D.below(wide * 3);
      if (b <= q)
        b = q + 1;
      if (wide == 0)
        b = a;
      e.push_back({a, b, (fval)D.below(5)});
      q = b;
      p = a + 1 + (D.chance(1, 5) ? D.below(1000) : D.below(3));
      if (wide == 0 && p <= q)
        p = q + 1;
    }
    if (D.chance(1, 10)) { // slide up against +inf
      addr d = maxfinity - 1 - D.below(2) - e.back().q;
      for (auto &y : e) {
        y.p += d;
        y.q += d;
      }
    }
    bool vals = D.chance(1, 2);
    if (!vals)
      for (auto &y : e)
        y.v = 0;
    x.o.e = e;
    x.d = show(e.size() > 12 ? std::vector<El>(e.begin(), e.begin() + 12) : e) + (e.size() > 12 ? "..." : "");
    if (stored) {
      std::string err;
      // the way an index hands out a stored posting list
      auto sp = SimplePostingFactory::make(nullptr, nullptr)->posting_from_feature(7);
      for (auto &y : e)
        sp->push(y.p, y.q, y.v);
      x.h = ArrayHopper::make(sp);
      x.d = "stored" + x.d;
    } else
      x.h = array(e, vals ? 1 : 0);
    if (x.h == nullptr) {
      D.fail("no stream for " + x.d);
      continue;
    }
    D.at(x.d);
    if (e.size() > 2)
      D.nontrivial(x.d);
    if (i % 701 == 0)
      D.sample(x.d);
    auto ks = probes(e);
    for (int j = 0; j < 80; j++)
      if (!check(x, D.below(6), ks[D.below(ks.size())], D.below(3), "", false))
        break;
  }
  for (long i = 0; i < n / 2; i++) {
    Node x;
    int k = D.below(3);
    if (k == 0) {
      x.h = std::make_unique<EmptyHopper>();
      x.d = "empty";
    } else {
      addr p = D.chance(1, 6) ? minfinity + 1 + D.below(3) : D.chance(1, 6) ? maxfinity - 5 + D.below(4) : D.range(-20, 20);
      addr q = p;
      for (int w = D.below(6); w > 0 && q < maxfinity - 1; w--)
        q++;
      fval f = D.below(3);
      x.h = std::make_unique<SingletonHopper>(p, q, f);
      x.o.e = {{p, q, f}};
      x.d = "single" + show(x.o.e);
    }
    D.at(x.d);
    auto ks = probes(x.o.e);
    for (int j = 0; j < 40; j++)
      if (!check(x, D.below(6), ks[D.below(ks.size())], D.below(3), "", false))
        break;
  }
  // windows of fixed width, at every kind of position: the oracle is arithmetic
  for (long i = 0; i < n * 4; i++) {
    addr w = D.chance(1, 10) ? 1 + (addr)(D.next() >> (1 + D.below(40))) % ((addr)1 << 62) : 1 + D.below(20);
    Node x;
    x.h = std::make_unique<FixedWidthHopper>(w);
    addr k;
    switch (D.below(6)) {
    case 0: k = minfinity + D.below(4); break;
    case 1: k = maxfinity - D.below(4); break;
    case 2: k = minfinity + w + D.range(-2, 2); break;
    case 3: k = maxfinity - w + D.range(-2, 2 > w ? w : 2); break;
    default: k = D.range(-1000, 1000);
    }
    __int128 lo = (__int128)minfinity + 1, hi = (__int128)maxfinity - 1, K = k;
    auto ok = [&](__int128 a) { return a >= lo && a + w - 1 <= hi; };
    int m = D.below(4);
    __int128 a = 0;
    bool some = true;
    addr s = 0;
    if (m == 0) { a = K < lo ? lo : K; some = ok(a) && k != minfinity; s = k == minfinity ? minfinity : maxfinity; }
    if (m == 1) { a = K - w + 1 < lo ? lo : K - w + 1; some = ok(a) && k != minfinity; s = k == minfinity ? minfinity : maxfinity; }
    if (m == 2) { a = (K > hi ? hi : K) - w + 1; some = ok(a) && k != maxfinity; s = k == maxfinity ? maxfinity : minfinity; }
    if (m == 3) { a = K + w - 1 > hi ? hi - w + 1 : K; some = ok(a) && k != maxfinity; s = k == maxfinity ? maxfinity : minfinity; }
    El r = ask(x.h.get(), m, k, D.below(2)), e = some ? El{(addr)a, (addr)(a + w - 1), 0} : El{s, s, 0};
    D.count("eval");
    if (r.p != e.p || r.q != e.q || r.v != 0)
      D.fail(std::string(MN[m]) + "(" + S(k) + ") on width(" + S(w) + ") gave (" + S(r.p) + "," + S(r.q) + ") expected (" + S(e.p) + "," + S(e.q) + ")");
  }
  return D.finish();
}
