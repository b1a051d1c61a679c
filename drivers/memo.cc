// answers do not depend on what was asked before: the same question to a fresh
// object and to one with a history, through every entry point
#include "drivers/hop.h"
int main(int argc, char **argv) {
  D.args(argc, argv);
  long n = D.n(6000, 80000);
  for (long i = 0; i < n; i++) {
    Node x;
    int c = D.below(3);
    if (c == 0)
      x = leaf(true);
    else {
      Node l = leaf(false), r = leaf(false);
      x = combine(D.below(8), std::move(l), std::move(r));
    }
    bool clipped = x.d[0] == 'w';
    D.at(x.d);
    std::vector<addr> ks;
    for (int j = 0; j < 3; j++)
      ks.push_back(D.range(-1, 19));
    if (!clipped) {
      ks.push_back(D.chance(1, 2) ? minfinity : minfinity + 1);
      ks.push_back(D.chance(1, 2) ? maxfinity : maxfinity - 1);
    }
    std::string hist = " after:";
    D.nontrivial(x.d + std::to_string(i));
    if (i % 997 == 0)
      D.sample(x.d);
    for (int j = 0; j < 40; j++) {
      int m = D.below(6);
      addr k = ks[D.below(ks.size())];
      if (!check(x, m, k, D.below(3), hist.size() > 300 ? hist.substr(hist.size() - 300) : hist, clipped))
        break;
      hist += std::string(" ") + MN[m] + S(k);
    }
  }
  return D.finish();
}
