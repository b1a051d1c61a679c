// interval streams: independent oracle (a finite list of intervals) and
// generators of real hoppers
#ifndef HOP_H
#define HOP_H
#include "drivers/drv.h"
#include "gcl/gcl.h"
#include "src/array_hopper.h"
#include "src/hopper.h"
#include <algorithm>
#include <memory>

using namespace cottontail;
struct El {
  addr p, q;
  fval v;
};
struct Orc { // the set, without sentinels; complete inside [lo,hi]
  std::vector<El> e;
};
struct Node {
  std::unique_ptr<Hopper> h;
  Orc o;
  std::string d;
};
static Drv D;
static addr LO = -6, HI = 24; // window in which oracles are complete

static std::vector<El> minimal(std::vector<El> v) {
  // keep intervals that contain no other; equal intervals: the first given
  std::vector<El> out;
  for (size_t i = 0; i < v.size(); i++) {
    bool keep = true;
    for (size_t j = 0; j < v.size() && keep; j++)
      if (i != j && v[j].p >= v[i].p && v[j].q <= v[i].q &&
          (v[j].p != v[i].p || v[j].q != v[i].q || j < i))
        keep = false;
    if (keep)
      out.push_back(v[i]);
  }
  std::sort(out.begin(), out.end(), [](const El &a, const El &b) { return a.p < b.p; });
  return out;
}
static bool in(const El &a, const El &b) { return b.p <= a.p && a.q <= b.q; }

static std::string show(const std::vector<El> &v) {
  std::string s = "[";
  for (auto &x : v)
    s += "(" + S(x.p) + "," + S(x.q) + ")";
  return s + "]";
}
static std::unique_ptr<Hopper> array(const std::vector<El> &v, int mode) {
  // mode 0: no values; 1: values; 2: shared P=Q array when possible
  size_t n = v.size();
  std::shared_ptr<addr> p = shared_array<addr>(n), q = shared_array<addr>(n);
  std::shared_ptr<fval> f = mode == 1 ? shared_array<fval>(n) : nullptr;
  bool same = true;
  for (size_t i = 0; i < n; i++) {
    p.get()[i] = v[i].p;
    q.get()[i] = v[i].q;
    if (f)
      f.get()[i] = v[i].v;
    same = same && v[i].p == v[i].q;
  }
  if (D.chance(1, 2)) {
    auto sp = std::make_shared<CacheRecord>();
    sp->n = n;
    sp->postings = p;
    sp->qostings = same ? p : q;
    sp->fostings = f;
    sp->release();
    return ArrayHopper::make(sp);
  }
  return ArrayHopper::make(n, p, same ? p : q, f);
}
static std::vector<El> gen_list(int maxn, addr lo, addr hi, int wmax) {
  std::vector<El> v;
  int n = 1 + D.below(maxn);
  for (int i = 0; i < n; i++) {
    addr p = D.range(lo, hi);
    addr q = p + (D.chance(1, 3) ? 0 : D.below(wmax));
    if (q > hi)
      q = hi;
    v.push_back({p, q, (fval)(1 + D.below(5))});
  }
  return minimal(v);
}
static Node leaf(bool fixed = true) {
  Node x;
  switch (D.below(fixed ? 8 : 6)) {
  case 0:
    x.h = std::make_unique<EmptyHopper>();
    x.d = "empty";
    break;
  case 1: {
    addr p = D.range(0, 16), q = p + D.below(5);
    fval f = D.below(4);
    x.h = std::make_unique<SingletonHopper>(p, q, f);
    x.o.e = {{p, q, f}};
    x.d = "single(" + S(p) + "," + S(q) + ")";
    break;
  }
  case 6: case 7: {
    addr w = 1 + D.below(5);
    x.h = std::make_unique<FixedWidthHopper>(w);
    for (addr p = LO - 8; p <= HI + 8; p++)
      x.o.e.push_back({p, p + w - 1, 0});
    x.d = "width(" + S(w) + ")";
    break;
  }
  default: {
    int mode = D.below(2);
    x.o.e = gen_list(1 + D.below(9), 0, 18, 1 + D.below(6));
    if (mode == 0)
      for (auto &y : x.o.e)
        y.v = 0;
    x.h = array(x.o.e, mode);
    x.d = "array" + show(x.o.e);
  }
  }
  return x;
}
static Node combine(int op, Node l, Node r) {
  Node x;
  static const char *nm[] = {"^", "+", "...", "<<", ">>", "!<<", "!>>", "merge"};
  x.d = std::string("(") + nm[op] + " " + l.d + " " + r.d + ")";
  std::vector<El> &A = l.o.e, &B = r.o.e, out;
  switch (op) {
  case 0:
    for (auto &a : A)
      for (auto &b : B)
        out.push_back({std::min(a.p, b.p), std::max(a.q, b.q), 0});
    out = minimal(out);
    x.h = std::make_unique<gcl::And>(std::move(l.h), std::move(r.h));
    break;
  case 1:
    for (auto &a : A)
      out.push_back({a.p, a.q, 0});
    for (auto &b : B)
      out.push_back({b.p, b.q, 0});
    out = minimal(out);
    x.h = std::make_unique<gcl::Or>(std::move(l.h), std::move(r.h));
    break;
  case 2:
    for (auto &a : A)
      for (auto &b : B)
        if (a.q < b.p)
          out.push_back({a.p, b.q, 0});
    out = minimal(out);
    x.h = std::make_unique<gcl::FollowedBy>(std::move(l.h), std::move(r.h));
    break;
  case 7:
    out = A;
    out.insert(out.end(), B.begin(), B.end());
    out = minimal(out);
    x.h = std::make_unique<gcl::Merge>(std::move(l.h), std::move(r.h));
    break;
  default:
    for (auto &a : A) {
      bool w = false;
      for (auto &b : B)
        w = w || ((op == 3 || op == 5) ? in(a, b) : in(b, a));
      if (w == (op <= 4))
        out.push_back(a);
    }
    if (op == 3)
      x.h = std::make_unique<gcl::ContainedIn>(std::move(l.h), std::move(r.h));
    else if (op == 4)
      x.h = std::make_unique<gcl::Containing>(std::move(l.h), std::move(r.h));
    else if (op == 5)
      x.h = std::make_unique<gcl::NotContainedIn>(std::move(l.h), std::move(r.h));
    else
      x.h = std::make_unique<gcl::NotContaining>(std::move(l.h), std::move(r.h));
  }
  x.o.e = out;
  return x;
}

// what an access must return; sentinels included
static El want(const Orc &o, int m, addr k) {
  const El lo{minfinity, minfinity, 0}, hi{maxfinity, maxfinity, 0};
  if (m < 2) { // tau, rho: first
    if (k == minfinity)
      return lo;
    for (auto &x : o.e)
      if ((m == 0 ? x.p : x.q) >= k)
        return x;
    return hi;
  }
  if (k == maxfinity)
    return hi;
  for (size_t i = o.e.size(); i > 0; i--)
    if ((m == 2 ? o.e[i - 1].q : o.e[i - 1].p) <= k)
      return o.e[i - 1];
  return lo;
}
static addr clip(addr x, addr lo, addr hi) {
  return x < lo ? minfinity : x > hi ? maxfinity : x;
}
static const char *MN[] = {"tau", "rho", "uat", "ohr", "L", "R"};

static El ask(Hopper *h, int m, addr k, int form) {
  addr p = 77, q = 77, n = 0;
  fval v = -1;
  if (m == 4)
    return {h->L(k), 0, 0};
  if (m == 5)
    return {0, h->R(k), 0};
  if (form == 0) {
    if (m == 0) h->tau(k, &p, &q, &v);
    if (m == 1) h->rho(k, &p, &q, &v);
    if (m == 2) h->uat(k, &p, &q, &v);
    if (m == 3) h->ohr(k, &p, &q, &v);
  } else if (form == 1) {
    if (m == 0) h->tau(k, &p, &q, &n);
    if (m == 1) h->rho(k, &p, &q, &n);
    if (m == 2) h->uat(k, &p, &q, &n);
    if (m == 3) h->ohr(k, &p, &q, &n);
    memcpy(&v, &n, 8);
  } else {
    if (m == 0) h->tau(k, &p, &q);
    if (m == 1) h->rho(k, &p, &q);
    if (m == 2) h->uat(k, &p, &q);
    if (m == 3) h->ohr(k, &p, &q);
  }
  return {p, q, v};
}
// one access on the real object against the oracle; window-clipped when the
// set is infinite
static bool check(Node &x, int m, addr k, int form, const std::string &hist, bool clipped) {
  El r = ask(x.h.get(), m, k, form);
  El w = want(x.o, m == 4 ? 2 : m == 5 ? 0 : m, k);
  addr lo = clipped ? LO : minfinity, hi = clipped ? HI : maxfinity;
  bool ok;
  D.count("eval");
  if (m == 4)
    ok = clip(r.p, lo, hi) == clip(w.p, lo, hi);
  else if (m == 5)
    ok = clip(r.q, lo, hi) == clip(w.q, lo, hi);
  else {
    addr a = clip(r.p, lo, hi), b = clip(w.p, lo, hi), c = clip(r.q, lo, hi), d = clip(w.q, lo, hi);
    ok = a == b && c == d;
    if (ok && form != 2 && b != minfinity && b != maxfinity && d != minfinity && d != maxfinity)
      ok = r.v == w.v;
    if (ok && form != 2 && !clipped)
      ok = r.v == w.v;
  }
  if (!ok)
    D.fail(std::string(MN[m]) + "(" + S(k) + ")" + (form == 1 ? "/addr" : form == 2 ? "/novalue" : "") + " on " + x.d + " gave (" + S(r.p) + "," + S(r.q) +
           ")=" + std::to_string(r.v) + " expected (" + S(w.p) + "," + S(w.q) + ")=" + std::to_string(w.v) + hist);
  return ok;
}
#endif
