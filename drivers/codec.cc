// every codec: expanding what was compressed gives the input back, inside the advertised room
#include "drivers/drv.h"
#include <algorithm>
#include "src/compressor.h"
using namespace cottontail;
static Drv D;
static std::string hex(const std::string &b) {
  std::string s;
  char t[4];
  for (size_t i = 0; i < b.size() && i < 96; i++) { snprintf(t, 4, "%02x", (unsigned char)b[i]); s += t; }
  return s + (b.size() > 96 ? "..." : "");
}
static std::string words(const std::vector<addr> &v) {
  return std::string((const char *)v.data(), v.size() * sizeof(addr));
}
static void run(const std::string &name, const std::string &recipe, const std::string &in, bool mayrefuse) {
  std::string e;
  std::shared_ptr<Compressor> c = Compressor::make(name, recipe, &e);
  std::string what = "codec " + name + "/" + recipe + " on " + std::to_string(in.size()) + " bytes " + hex(in);
  D.at(what);
  D.count("eval");
  if (c == nullptr) { D.fail("no codec: " + what); return; }
  size_t room = in.size() + c->extra(in.size());
  const size_t G = 64;
  std::vector<uint64_t> ib((in.size() + 15) / 8, 0), ob((room + 2 * G) / 8 + 2, 0xA5A5A5A5A5A5A5A5ull), rb((in.size() + 2 * G) / 8 + 2, 0x5A5A5A5A5A5A5A5Aull);
  memcpy(ib.data(), in.data(), in.size());
  char *out = (char *)ob.data() + G;
  size_t m = c->crush((char *)ib.data(), in.size(), out, room);
  if (m > room) { D.fail(what + " produced " + std::to_string(m) + " bytes, more than the advertised " + std::to_string(room)); return; }
  if (!c->destructive() && memcmp(ib.data(), in.data(), in.size())) D.fail(what + " changed its input");
  for (size_t i = 0; i < G; i++)
    if ((unsigned char)out[-1 - (long)i] != 0xA5 || (unsigned char)out[room + i] != 0xA5) { D.fail(what + " wrote outside the advertised room"); return; }
  if (mayrefuse && m == 0) return;
  if (in.size() && m == 0) { D.fail(what + " produced nothing"); return; }
  // expand from an exact copy, into exactly the room needed
  std::vector<uint64_t> cb(m / 8 + 10, 0x3C3C3C3C3C3C3C3Cull);
  memcpy(cb.data(), out, m);
  char *rest = (char *)rb.data() + G;
  size_t n = c->tang((char *)cb.data(), m, rest, in.size());
  if (n != in.size()) D.fail(what + " expanded to " + std::to_string(n) + " bytes");
  else if (memcmp(rest, in.data(), n)) D.fail(what + " expanded to " + hex(std::string(rest, n)));
  for (size_t i = 0; i < G; i++)
    if ((unsigned char)rest[-1 - (long)i] != 0x5A || (unsigned char)rest[in.size() + i] != 0x5A) { D.fail(what + ": expanding wrote outside the room"); return; }
  if (in.size() > 8) D.nontrivial(name + recipe + in);
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  const addr BIG = 0x40000000;
  auto num = [&](int kind) -> addr {
    switch (kind) {
    case 0: return D.below(200);
    case 1: return ((addr)1 << D.below(63)) - D.below(2);
    case 2: return D.next() >> (1 + D.below(62));
    case 3: return ((addr)1 << (7 * D.below(9))) - D.below(2);
    default: return maxfinity - D.below(3);
    }
  };
  // one number, every bit length and boundary
  for (int b = 0; b < 63; b++)
    for (int d = -2; d <= 2; d++) {
      addr x = ((addr)1 << b) + d;
      if (x >= 0) { run("post", "", words({x}), false); run("post", "", words({x, x}), false); }
      run("tfdf", "", words({x}), false);
      if (x > 0 && x <= BIG) run("tfdf", "component", words({x}), false);
    }
  run("post", "", words({0, maxfinity}), false);
  run("post", "", words({maxfinity}), false);
  run("tfdf", "", words({minfinity}), false);
  long n = D.n(6000, 60000);
  for (long i = 0; i < n; i++) {
    int len = D.chance(1, 20) ? D.below(3000) : D.below(24);
    int kind = D.below(5);
    std::vector<addr> v;
    // ascending lists
    for (int j = 0; j < len; j++) v.push_back(D.chance(1, 6) ? num(D.below(4)) : num(kind));
    if (D.chance(1, 3) && !v.empty()) v[D.below(v.size())] = v[0];
    std::sort(v.begin(), v.end());
    run("post", "", words(v), false);
    // small steps
    addr x = D.below(1000);
    for (auto &y : v) y = x += D.below(D.chance(1, 10) ? 20000 : 3);
    run("post", "", words(v), false);
    // positive numbers, in any order
    std::vector<addr> w;
    int top = 1 + D.below(30);
    for (int j = 0; j < len; j++) w.push_back(D.chance(1, 20) ? BIG - D.below(2) : 1 + D.below((addr)1 << top));
    run("tfdf", "", words(w), false);
    run("tfdf", "component", words(w), false);
    // not encodable: stored as they are
    if (!w.empty()) {
      addr bad[] = {0, -1, BIG + 1, minfinity, maxfinity, (addr)D.next()};
      w[D.below(w.size())] = bad[D.below(6)];
      run("tfdf", "", words(w), false);
      run("tfdf", "component", words(w), true);
    }
    // bytes
    std::string s;
    int sl = D.chance(1, 50) ? D.below(200000) : D.below(300);
    int alpha = D.chance(1, 3) ? 256 : 1 + D.below(30);
    for (int j = 0; j < sl; j++) s += (char)(alpha == 256 ? D.below(256) : 'a' + D.below(alpha));
    run("zlib", "", s, false);
    run("", "", s, false);
    run("null", "", s, false);
    run("bad", "", s, false);
    if (i % 997 == 0) D.sample("bytes " + hex(s));
  }
  for (const char *nm : {"", "zlib", "null", "post", "tfdf", "bad", "tfidf", "Zlib"})
    for (const char *rc : {"", "component", "x"}) {
      std::string e;
      bool ok = Compressor::check(nm, rc, &e);
      auto c = Compressor::make(nm, rc, &e);
      D.count("eval");
      if (ok && c == nullptr) D.fail(std::string("codec accepted by check but not made: ") + nm + "/" + rc);
      if (c != nullptr && (c->name() != nm || c->recipe() != rc)) D.fail(std::string("codec does not report what it was made from: ") + nm + "/" + rc);
    }
  return D.finish();
}
