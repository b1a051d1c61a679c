// tokenizing, skipping and splitting one text agree, for any bytes
#include "drivers/drv.h"
#include <algorithm>
#include "src/featurizer.h"
#include "src/tokenizer.h"
#include "src/unicode.h"
using namespace cottontail;
static Drv D;
struct Ref { size_t at, len; std::string low, orig; bool both; };
static std::string show(const std::string &b) {
  std::string s;
  char t[8];
  for (size_t i = 0; i < b.size() && i < 120; i++) {
    unsigned char c = b[i];
    if (c >= 32 && c < 127 && c != '\\') s += c;
    else { snprintf(t, 8, "\\x%02x", c); s += t; }
  }
  return s + (b.size() > 120 ? "..." : "");
}
static bool al(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool an(unsigned char c) { return al(c) || (c >= '0' && c <= '9'); }
static std::string lower(std::string s) {
  for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
// words; with markup, tags (a token named after the tag) and entities (no token)
static std::vector<Ref> ascii(const std::string &x, bool xml) {
  std::vector<Ref> r;
  size_t n = x.size();
  for (size_t i = 0; i < n;) {
    if (an(x[i])) {
      size_t j = i;
      while (j < n && an(x[j])) j++;
      std::string w = x.substr(i, j - i);
      bool both = std::any_of(w.begin() + 1, w.end(), [](char c) { return c >= 'A' && c <= 'Z'; });
      r.push_back({i, j - i, lower(w), w, both});
      i = j;
      continue;
    }
    if (xml && x[i] == '<') {
      size_t a = i + 1;
      if (a < n && x[a] == '/') a++;
      if (a < n && (al(x[a]) || x[a] == '_')) {
        size_t b = a + 1;
        while (b < n && (an(x[b]) || x[b] == '-' || x[b] == '_' || x[b] == '.')) b++;
        size_t c = b;
        while (c < n && x[c] != '\n' && x[c] != '>') c++;
        if (c < n && x[c] == '>') {
          std::string t = x.substr(i, b - i) + ">";
          r.push_back({i, c + 1 - i, t, t, false});
          i = c + 1;
          continue;
        }
      }
    } else if (xml && x[i] == '&') {
      size_t c = i + 1;
      while (c < n && x[c] != ' ' && x[c] != '\n' && x[c] != ';') c++;
      if (c < n && x[c] == ';') i = c;
    }
    i++;
  }
  return r;
}
static std::vector<uint8_t> cls;
static std::map<uint32_t, uint32_t> fold;
static std::string enc(uint32_t c) {
  std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
// well-formed text, given as code points
static std::vector<Ref> utf8(const std::vector<uint32_t> &x) {
  std::vector<Ref> r;
  size_t at = 0;
  bool in = false;
  for (uint32_t c : x) {
    std::string e = enc(c);
    int k = cls[c];
    if (k == 1 || k == 2) {
      auto f = fold.find(c);
      std::string low = k == 2 && f != fold.end() ? enc(f->second) : e;
      if (!in) r.push_back({at, 0, "", "", false});
      r.back().len += e.size();
      r.back().low += low;
      in = true;
    } else {
      in = false;
      if (k == 3 || k == 4) r.push_back({at, e.size(), e, e, false});
    }
    at += e.size();
  }
  return r;
}
static std::shared_ptr<Featurizer> F;
static std::string flat(const std::vector<Token> &t) {
  std::string s;
  for (size_t i = 0; i < t.size() && i < 40; i++) s += "(" + S(t[i].address) + "@" + S(t[i].offset) + "+" + S(t[i].length) + ")";
  return s;
}
static void run(std::shared_ptr<Tokenizer> T, const std::string &nm, const std::string &x, const std::vector<Ref> *ref) {
  std::string what = nm + " on \"" + show(x) + "\"";
  D.at(what);
  D.count("eval");
  // an exact block: anything outside the text is out of bounds
  const size_t G = 64;
  std::string b0 = std::string(G, 'a') + x + std::string(G, 'a'), b = b0;
  std::vector<Token> t = T->tokenize(F, &b[G], x.size());
  if (b.compare(0, G, b0, 0, G) || b.compare(G + x.size(), G, b0, G + x.size(), G)) D.fail(what + ": tokenizing wrote outside the text");
  if (!T->destructive() && b != b0) D.fail(what + ": tokenizing changed the text");
  {
    std::string y = x;
    std::vector<Token> u = T->tokenize(F, y);
    if (y != x || flat(u) != flat(t)) D.fail(what + ": tokens " + flat(t) + " and, of a copy, " + flat(u));
  }
  std::vector<size_t> at, len;
  std::vector<std::set<addr>> fs;
  size_t end = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i].offset + t[i].length > x.size() || t[i].length == 0) { D.fail(what + ": token outside the text " + flat(t)); return; }
    if (t[i].address == (addr)at.size()) {
      if (t[i].offset < end) { D.fail(what + ": tokens overlap " + flat(t)); return; }
      at.push_back(t[i].offset);
      len.push_back(t[i].length);
      fs.push_back({});
      end = t[i].offset + t[i].length;
    } else if (t[i].address + 1 != (addr)at.size() || t[i].offset != at.back() || t[i].length != len.back()) { D.fail(what + ": tokens not numbered in order " + flat(t)); return; }
    fs.back().insert(t[i].feature);
  }
  size_t n = at.size();
  // skipping
  for (addr k = -1; k <= (addr)n + 2; k++) {
    size_t w = k < 0 ? (n ? at[0] : x.size()) : k < (addr)n ? at[k] : x.size();
    if (n > 30 && k > 6 && k < (addr)n - 6 && D.chance(9, 10)) continue;
    const char *p = T->skip(&b0[G], x.size(), k);
    if (p != &b0[G] + w) { D.fail(what + ": skipping " + S(k) + " tokens stops at " + S(p - &b0[G]) + ", token starts at " + S(w)); return; }
    std::string y = x, z = T->skip(y, k);
    if (z != x.substr(w)) { D.fail(what + ": skipping " + S(k) + " tokens leaves \"" + show(z) + "\""); return; }
    if (k >= 0 && k <= (addr)n) {
      // in two steps
      addr j = D.below(4);
      size_t w2 = k + j < (addr)n ? at[k + j] : x.size();
      const char *q = T->skip(p, &b0[G] + x.size() - p, j);
      if (q != &b0[G] + w2) { D.fail(what + ": skipping " + S(k) + " then " + S(j) + " tokens stops at " + S(q - &b0[G]) + ", not " + S(w2)); return; }
    }
  }
  // splitting
  std::vector<std::string> s = T->split(x);
  if (s.size() != n) { D.fail(what + ": split into " + S(s.size()) + ", tokenized into " + S(n)); return; }
  for (size_t i = 0; i < n; i++)
    if (!fs[i].count(F->featurize(s[i]))) { D.fail(what + ": term " + S(i) + " \"" + show(s[i]) + "\" is not indexed there"); return; }
  if (ref) {
    if (ref->size() != n) { D.fail(what + ": " + S(n) + " tokens " + flat(t) + ", expected " + S(ref->size())); return; }
    for (size_t i = 0; i < n; i++) {
      const Ref &r = (*ref)[i];
      std::set<addr> e = {F->featurize(r.low)};
      if (r.both) e.insert(F->featurize(r.orig));
      if (at[i] != r.at || len[i] != r.len) { D.fail(what + ": token " + S(i) + " at " + S(at[i]) + "+" + S(len[i]) + ", expected " + S(r.at) + "+" + S(r.len)); return; }
      if (fs[i] != e) { D.fail(what + ": token " + S(i) + " is not indexed as \"" + show(r.low) + "\"" + (r.both ? " and \"" + show(r.orig) + "\"" : "")); return; }
      if (s[i] != (r.both ? r.orig : r.low)) { D.fail(what + ": term " + S(i) + " is \"" + show(s[i]) + "\""); return; }
    }
  }
  if (n > 1) D.nontrivial(nm + x);
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  std::string e;
  F = Featurizer::make("hashing", "", &e);
  std::shared_ptr<Tokenizer> A[2] = {Tokenizer::make("ascii", "noxml", &e), Tokenizer::make("ascii", "xml", &e)}, U = Tokenizer::make("utf8", "", &e);
  if (!F || !A[0] || !A[1] || !U) { D.fail("no tokenizer"); return D.finish(); }
  for (auto &c : compressed_actions) for (size_t i = 0; i < c.n; i++) cls.push_back(c.action);
  for (auto &f : compressed_folds) fold[f.src] = f.dst;
  auto both = [&](const std::string &x) {
    for (int m = 0; m < 2; m++) { auto r = ascii(x, m); run(A[m], m ? "ascii xml" : "ascii", x, &r); }
    bool plain = true;
    std::vector<uint32_t> cp;
    for (unsigned char c : x) { plain &= c < 0x80; cp.push_back(c); }
    auto r = plain ? utf8(cp) : std::vector<Ref>();
    run(U, "utf8", x, plain ? &r : nullptr);
  };
  // every text of up to k characters that matter
  const std::string small = "aZ7<>/&; \n_-";
  int k = D.n(4, 5);
  for (int len = 0; len <= k; len++) {
    long total = 1;
    for (int i = 0; i < len; i++) total *= small.size();
    for (long v = 0; v < total; v++) {
      std::string x;
      long w = v;
      for (int i = 0; i < len; i++) { x += small[w % small.size()]; w /= small.size(); }
      both(x);
    }
  }
  // longer ones
  static const char *bits[] = {"a", "Cat", "dOG", "X", "x9", "42", "<", ">", "/", "</", "<a>", "</b-c.d>", "<T x='1'>", "<_q\n>", "<9>", "<a<b>", "&", "&amp;", "&lt", ";", "&#38;", " ", "\n", "\t", "-", "_", ".", "!?", "\xc3\xa9", "\xe2\x82", "\xf0\x9f\x98\x80", "\xff", "\x80", "@", "[", "`", "{", "/0", "9:"};
  for (long i = 0; i < D.n(20000, 200000); i++) {
    std::string x;
    for (int j = D.below(14); j >= 0; j--) x += bits[D.below(sizeof bits / sizeof *bits)];
    if (D.chance(1, 8)) x[D.below(x.size())] = D.below(256);
    both(x);
  }
  // every byte, alone and between letters; every code point likewise
  for (int c = 0; c < 256; c++) { both(std::string(1, c)); both("a" + std::string(1, c) + "B"); both("q " + std::string(1, c)); both(std::string(1, c) + "z" + std::string(1, c)); }
  if (cls.size() != 2097152) D.fail("the table covers " + S(cls.size()) + " code points");
  for (uint32_t c = 0; c < 0x200000; c += c < 0x3000 || c % 0x10000 >= 0xFFF0 || D.thorough || (cls[c] == 2 && D.chance(1, 4)) ? 1 : 1 + D.below(800)) {
    std::vector<uint32_t> x = {'a', c, 'B', ' ', c};
    std::string s;
    for (auto y : x) s += enc(y);
    auto r = utf8(x);
    run(U, "utf8", s, &r);
  }
  for (long i = 0; i < D.n(15000, 150000); i++) {
    std::vector<uint32_t> x;
    std::string s;
    int mode = D.below(4);
    for (int j = D.below(16); j >= 0; j--) {
      uint32_t c = mode == 0 ? D.below(0x200000) : mode == 1 ? D.below(0x800) : D.below(128);
      if (D.chance(1, 4)) { c = compressed_folds[D.below(sizeof compressed_folds / sizeof *compressed_folds)].src; }
      else if (D.chance(1, 4)) c = D.range(0x4E00, 0x4E40);
      else if (D.chance(1, 5)) c = D.range(0x1F300, 0x1F340);
      else if (D.chance(1, 5)) c = ' ';
      x.push_back(c);
      s += enc(c);
    }
    auto r = utf8(x);
    run(U, "utf8", s, &r);
    // malformed: cut, or a byte changed
    if (D.chance(1, 2)) s = s.substr(0, D.below(s.size() + 1));
    else if (s.size()) s[D.below(s.size())] = D.below(256);
    run(U, "utf8", s, nullptr);
    run(A[1], "ascii xml", s, nullptr);
  }
  return D.finish();
}
