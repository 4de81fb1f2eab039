// Independent executable reference model of (urgent-epsilon) deterministic timed automata.
// Exact integer arithmetic (1 time unit = 2^40 ticks); shares no code with LearnTA.
#pragma once
#include <cstdint>
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <sstream>
#include <algorithm>
#include "prng.hh"
namespace ref {
  using i64 = std::int64_t;
  constexpr int UBITS = 40;
  constexpr i64 UNIT = i64(1) << UBITS;
  enum Op { LT, LE, GE, GT };
  struct Guard { int clk; int op; int c; };
  struct Reset { int dst; bool copy; int src; i64 val; };
  struct Tr { int dst; std::vector<Guard> g; std::vector<Reset> r; };
  struct Loc { bool acc = false; std::map<char, std::vector<Tr>> out; };
  struct Aut { int nclk = 0; int init = -1; std::vector<Loc> locs; };
  // tau_0 a_1 tau_1 ... a_n tau_n
  struct Word { std::string w; std::vector<i64> d; };

  inline double toD(i64 t) { return std::ldexp(double(t), -UBITS); }
  inline bool fromD(double d, i64 &t) { // exact conversion; false if d is not a multiple of one tick
    const double x = std::ldexp(d, UBITS);
    if (!(std::fabs(x) < 9e15) || x != std::floor(x)) return false;
    t = i64(x); return true;
  }
  inline bool sat(const Guard &g, i64 v) {
    const i64 c = i64(g.c) * UNIT;
    switch (g.op) { case LT: return v < c; case LE: return v <= c; case GE: return v >= c; default: return v > c; }
  }
  inline bool sat(const std::vector<Guard> &g, const std::vector<i64> &v) {
    for (auto &x: g) if (!sat(x, v[x.clk])) return false;
    return true;
  }
  inline void applyResets(const std::vector<Reset> &r, std::vector<i64> &v) {
    if (r.empty()) return;
    const auto old = v;
    for (auto &x: r) v[x.dst] = x.copy ? old[x.src] : x.val;
  }
  // earliest delay at which the guard holds: (ticks, strict)
  inline std::optional<std::pair<i64, bool>> earliest(const std::vector<Guard> &g, const std::vector<i64> &v) {
    std::pair<i64, bool> lo{0, false}; i64 up = INT64_MAX; bool upStrict = false;
    for (auto &x: g) {
      const i64 b = i64(x.c) * UNIT - v[x.clk];
      if (x.op == GE || x.op == GT) lo = std::max(lo, std::make_pair(b, x.op == GT));
      else if (b < up || (b == up && x.op == LT)) { up = b; upStrict = x.op == LT; }
    }
    if (up == INT64_MAX) return lo;
    if (lo.first > up || (lo.first == up && (lo.second || upStrict))) return std::nullopt;
    return lo;
  }
  struct Exec {
    const Aut *a; int loc; std::vector<i64> v; long eps = 0; bool ambiguous = false;
    explicit Exec(const Aut &aut) : a(&aut) { reset(); }
    void reset() { loc = a->init; v.assign(a->nclk, 0); eps = 0; ambiguous = false; }
    bool acc() const { return loc >= 0 && a->locs[loc].acc; }
    bool step(char c) {
      if (loc < 0) return false;
      auto it = a->locs[loc].out.find(c);
      if (it != a->locs[loc].out.end())
        for (auto &t: it->second) if (sat(t.g, v)) { applyResets(t.r, v); loc = t.dst; return acc(); }
      loc = -1; return false;
    }
    bool delay(i64 d) {
      if (loc < 0) return false;
      int fuel = 1000;
      while (d > 0 && fuel-- > 0) {
        auto it = a->locs[loc].out.find('\0');
        const Tr *best = nullptr; std::pair<i64, bool> bd{};
        if (it != a->locs[loc].out.end())
          for (auto &t: it->second) { auto e = earliest(t.g, v); if (e && (!best || *e < bd)) { best = &t; bd = *e; } else if (e && best && *e == bd) ambiguous = true; }
        if (best && (bd.first < d || (bd.first == d && !bd.second))) {
          if (bd.second) ambiguous = true; // strict lower bound: fires at an infimum
          for (auto &x: v) x += bd.first;
          applyResets(best->r, v); loc = best->dst; d -= bd.first; ++eps;
          continue;
        }
        for (auto &x: v) x += d;
        d = 0;
      }
      return acc();
    }
    bool run(const Word &w) {
      reset();
      bool r = delay(w.d[0]);
      if (w.d[0] == 0) r = acc();
      for (std::size_t i = 0; i < w.w.size(); ++i) { step(w.w[i]); r = delay(w.d[i + 1]); }
      return r;
    }
  };
  inline std::string show(const Word &w) {
    if (w.d.empty()) return "-";
    std::ostringstream o; o.precision(15); o << toD(w.d[0]);
    for (std::size_t i = 0; i < w.w.size(); ++i) o << " " << w.w[i] << " " << toD(w.d[i + 1]);
    return o.str();
  }
  inline std::string show(const Aut &a) {
    static const char *ops[] = {"<", "<=", ">=", ">"};
    std::ostringstream o; o << "clocks " << a.nclk << " init " << a.init << "\n";
    for (std::size_t i = 0; i < a.locs.size(); ++i) {
      o << "loc " << i << (a.locs[i].acc ? " acc" : "") << "\n";
      for (auto &[c, ts]: a.locs[i].out) for (auto &t: ts) {
        o << "  " << i << " -" << (c ? std::string(1, c) : "eps") << "-> " << t.dst << " {";
        for (auto &g: t.g) o << " x" << g.clk << ops[g.op] << g.c;
        o << " } reset {";
        for (auto &r: t.r) { o << " x" << r.dst << ":="; if (r.copy) o << "x" << r.src; else o << toD(r.val); }
        o << " }\n";
      }
    }
    return o.str();
  }

  // parser of the format printed by show()
  inline Aut parse(std::istream &in) {
    Aut a; std::string line;
    auto op = [](const std::string &t, std::size_t p, int &o) -> std::size_t {
      if (t[p] == '<') { if (t[p + 1] == '=') { o = LE; return p + 2; } o = LT; return p + 1; }
      if (t[p + 1] == '=') { o = GE; return p + 2; } o = GT; return p + 1; };
    while (std::getline(in, line)) {
      std::istringstream l(line); std::string k; if (!(l >> k)) break;
      if (k == "clocks") { l >> a.nclk >> k >> a.init; continue; }
      if (k == "loc") { int i; std::string f; l >> i; a.locs.resize(std::max<std::size_t>(a.locs.size(), i + 1)); if (l >> f) a.locs[i].acc = f == "acc"; continue; }
      const int src = std::stoi(k); std::string lab, tok; Tr t; l >> lab >> t.dst;
      a.locs.resize(std::max<std::size_t>(a.locs.size(), src + 1));
      while (l >> tok && tok != "}") if (tok[0] == 'x') { Guard g; std::size_t p = tok.find_first_of("<>"); g.clk = std::stoi(tok.substr(1, p - 1)); p = op(tok, p, g.op); g.c = std::stoi(tok.substr(p)); t.g.push_back(g); }
      while (l >> tok && tok != "}") if (tok[0] == 'x') { Reset r{}; const auto p = tok.find(":="); r.dst = std::stoi(tok.substr(1, p - 1)); const auto v = tok.substr(p + 2); r.copy = v[0] == 'x'; if (r.copy) r.src = std::stoi(v.substr(1)); else r.val = i64(std::ldexp(std::stod(v), UBITS)); t.r.push_back(r); }
      a.locs[src].out[lab == "-eps->" ? '\0' : lab[1]].push_back(t);
    }
    return a;
  }
  // ---- exact language equivalence by exploration of the region graph of the product -------------------------
  struct Product {
    const Aut &A, &B; const std::string alphabet; int n, S = 1, T, M;
    using Vec = std::vector<int>;
    struct Node { int la, lb; Vec v; };
    struct Edge { int parent; char label; };
    std::vector<Node> nodes; std::vector<Edge> from;
    bool capped = false, unsupported = false, flipA = false; // flipA: compare with the complement of A
    std::vector<std::vector<int>> mxA, mxB; // per location and clock: the largest constant it can still be compared with, -1 if dead
    static std::vector<std::vector<int>> maxima(const Aut &X, int S) {
      std::vector<std::vector<int>> m(X.locs.size(), std::vector<int>(X.nclk, -1));
      for (bool ch = true; ch;) {
        ch = false;
        auto up = [&](int l, int x, int v) { if (m[l][x] < v) { m[l][x] = v; ch = true; } };
        for (std::size_t l = 0; l < X.locs.size(); ++l) for (auto &[c, ts]: X.locs[l].out) for (auto &t: ts) {
          for (auto &g: t.g) up(int(l), g.clk, g.c * S);
          for (int y = 0; y < X.nclk; ++y) {
            int src = y; for (auto &r: t.r) if (r.dst == y) src = r.copy ? r.src : -1;
            if (src >= 0 && m[t.dst][y] >= 0) up(int(l), src, m[t.dst][y]);
          }
        }
      }
      return m;
    }
    Product(const Aut &a, const Aut &b, std::string al) : A(a), B(b), alphabet(std::move(al)) {
      n = A.nclk + B.nclk; M = 0;
      for (auto *x: {&A, &B}) for (auto &l: x->locs) for (auto &[c, ts]: l.out) for (auto &t: ts) {
        for (auto &r: t.r) if (!r.copy) {
          while (S <= 64 && r.val % (UNIT / S)) S *= 2;
          if (S > 64 || r.val < 0) { unsupported = true; S = 1; return; }
        }
      }
      for (auto *x: {&A, &B}) for (auto &l: x->locs) for (auto &[c, ts]: l.out) for (auto &t: ts) {
        for (auto &g: t.g) M = std::max(M, g.c * S);
        for (auto &r: t.r) if (!r.copy) M = std::max<i64>(M, r.val / (UNIT / S));
      }
      T = 2 * (n + 1);
      mxA = maxima(A, S); mxB = maxima(B, S);
    }
    bool inf(int v) const { return v > M * T; }
    bool gsat(const std::vector<Guard> &g, const Vec &v, int off) const {
      for (auto &x: g) {
        const int c = x.c * S * T, y = v[off + x.clk];
        if (x.op == LT ? !(y < c) : x.op == LE ? !(y <= c) : x.op == GE ? !(y >= c) : !(y > c)) return false;
      }
      return true;
    }
    void reset(const std::vector<Reset> &r, Vec &v, int off) const {
      const Vec old = v;
      for (auto &x: r) v[off + x.dst] = x.copy ? old[off + x.src] : int(x.val / (UNIT / S)) * T;
    }
    void canon(Node &s) const {
      if (s.la < 0) for (int i = 0; i < A.nclk; ++i) s.v[i] = M * T + T;
      if (s.lb < 0) for (int i = A.nclk; i < n; ++i) s.v[i] = M * T + T;
      if (s.la >= 0) for (int i = 0; i < A.nclk; ++i) if (s.v[i] > mxA[s.la][i] * T) s.v[i] = M * T + T;
      if (s.lb >= 0) for (int i = A.nclk; i < n; ++i) if (s.v[i] > mxB[s.lb][i - A.nclk] * T) s.v[i] = M * T + T;
      std::vector<int> fr;
      for (auto &v: s.v) { if (inf(v)) v = M * T + T; else if (v % T) fr.push_back(v % T); }
      std::sort(fr.begin(), fr.end()); fr.erase(std::unique(fr.begin(), fr.end()), fr.end());
      for (auto &v: s.v) if (!inf(v) && v % T)
        v = v / T * T + 2 * int(std::lower_bound(fr.begin(), fr.end(), v % T) - fr.begin() + 1);
    }
    void letter(Node &s, char c) const {
      for (int side = 0; side < 2; ++side) {
        int &l = side ? s.lb : s.la; const Aut &X = side ? B : A; const int off = side ? A.nclk : 0;
        if (l < 0) continue;
        auto it = X.locs[l].out.find(c); int nl = -1;
        if (it != X.locs[l].out.end()) for (auto &t: it->second) if (gsat(t.g, s.v, off)) { reset(t.r, s.v, off); nl = t.dst; break; }
        l = nl;
      }
    }
    bool zeroFrac(const Vec &v) const { for (auto x: v) if (!inf(x) && x % T == 0) return true; return false; }
    bool allInf(const Vec &v) const { for (auto x: v) if (!inf(x)) return false; return true; }
    bool epsOnce(Node &s, bool after) const { // fire at most one epsilon per side; after: also those enabled just after
      bool any = false;
      for (int side = 0; side < 2; ++side) {
        int &l = side ? s.lb : s.la; const Aut &X = side ? B : A; const int off = side ? A.nclk : 0;
        if (l < 0) continue;
        auto it = X.locs[l].out.find('\0');
        if (it == X.locs[l].out.end()) continue;
        const Tr *f = nullptr;
        for (auto &t: it->second) if (gsat(t.g, s.v, off)) { f = &t; break; }
        if (!f && after) {
          Vec w = s.v; if (zeroFrac(w)) for (auto &x: w) if (!inf(x)) x += 1;
          for (auto &t: it->second) if (gsat(t.g, w, off)) { f = &t; break; }
        }
        if (f) { reset(f->r, s.v, off); l = f->dst; any = true; }
      }
      return any;
    }
    // one elementary time step
    void time(Node &s) const {
      int fuel = 50;
      while (fuel-- > 0 && epsOnce(s, true)) canon(s);
      canon(s);
      if (zeroFrac(s.v)) { for (auto &x: s.v) if (!inf(x)) x += 1; }
      else { int mx = 0; for (auto x: s.v) if (!inf(x)) mx = std::max(mx, x % T); if (mx) for (auto &x: s.v) if (!inf(x)) x += T - mx; }
      // values just above M stay on the grid until canonicalised
      canon(s);
      epsOnce(s, false);
      canon(s);
    }
    bool accA(const Node &s) const { return (s.la >= 0 && A.locs[s.la].acc) != flipA; }
    bool accB(const Node &s) const { return s.lb >= 0 && B.locs[s.lb].acc; }
    struct VH { std::size_t operator()(const Vec &v) const { std::size_t h = 1469598103934665603ULL; for (int x: v) { h ^= std::size_t(x + 7); h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
    // explore; collect up to maxBad node ids where the two disagree
    std::vector<int> explore(std::size_t cap, std::size_t maxBad) {
      std::vector<int> bad; std::unordered_map<Vec, int, VH> seen;
      auto add = [&](Node s, int p, char c) {
        canon(s); Vec k = s.v; k.push_back(s.la); k.push_back(s.lb);
        if (!seen.emplace(std::move(k), int(nodes.size())).second) return;
        if (accA(s) != accB(s)) bad.push_back(int(nodes.size()));
        nodes.push_back(std::move(s)); from.push_back({p, c});
      };
      add(Node{A.init, B.init, Vec(n, 0)}, -1, 0);
      for (std::size_t i = 0; i < nodes.size(); ++i) {
        if (bad.size() >= maxBad) break;
        if (nodes.size() > cap) { capped = true; break; }
        if (nodes[i].la < 0 && nodes[i].lb < 0) continue;
        for (char c: alphabet) { Node s = nodes[i]; letter(s, c); add(std::move(s), int(i), c); }
        { Node s = nodes[i]; time(s); add(std::move(s), int(i), 0); }
      }
      return bad;
    }
    // a concrete word reaching node id; rng (if given) varies the delays inside the regions
    std::optional<Word> concretise(int id, sim::Prng *rng = nullptr) const {
      std::string lab; std::vector<char> path;
      for (int i = id; from[i].parent >= 0; i = from[i].parent) path.push_back(from[i].label);
      std::reverse(path.begin(), path.end());
      Exec ea(A), eb(B); Word w; w.d = {0};
      const i64 u = UNIT / S;
      auto stepEps = [&](Exec &e) { // epsilons enabled at (or just after) the current point
        int fuel = 50;
        while (fuel-- > 0 && e.loc >= 0) {
          auto it = e.a->locs[e.loc].out.find('\0'); if (it == e.a->locs[e.loc].out.end()) return;
          const Tr *b = nullptr; std::pair<i64, bool> bd{};
          for (auto &t: it->second) { auto x = earliest(t.g, e.v); if (x && x->first == 0 && (!b || *x < bd)) { b = &t; bd = *x; } }
          if (!b) return;
          applyResets(b->r, e.v); e.loc = b->dst;
        }
      };
      for (char c: path) {
        if (c) { ea.step(c); eb.step(c); w.w.push_back(c); w.d.push_back(0); continue; }
        Exec pa = ea, pb = eb; stepEps(pa); stepEps(pb);
        bool zero = false; i64 mx = 0; bool any = false;
        auto look = [&](const Exec &e) { if (e.loc >= 0) for (int i = 0; i < e.a->nclk; ++i) if (const auto v = e.v[i]; v <= i64((e.a == &A ? mxA : mxB)[e.loc][i]) * u) { any = true; if (v % u == 0) zero = true; mx = std::max(mx, v % u); } };
        look(pa); look(pb);
        if (!any) { ea = pa; eb = pb; ea.delay(u); eb.delay(u); w.d.back() += u; continue; }
        i64 d;
        if (zero) { const i64 gap = u - mx; d = gap / 2; if (rng) { d = gap / 8 * i64(1 + rng->below(7)); } if (d == 0) return std::nullopt; }
        else d = u - mx;
        ea.delay(d); eb.delay(d); w.d.back() += d;
      }
      return w;
    }
  };
  struct Eq { bool decided = false; bool equal = false; Word cex; std::size_t nodes = 0; };
  inline Eq equivalent(const Aut &a, const Aut &b, const std::string &alphabet, std::size_t cap = 400000, bool flipA = false) {
    Eq r; Product p(a, b, alphabet); p.flipA = flipA;
    if (p.unsupported) return r;
    auto bad = p.explore(cap, 1); r.nodes = p.nodes.size();
    if (!bad.empty()) { auto w = p.concretise(bad[0]); r.decided = bool(w); if (w) r.cex = *w; return r; }
    if (p.capped) return r;
    r.decided = r.equal = true; return r;
  }

  // the product automaton (both must be free of unobservable transitions)
  inline Aut product(const Aut &a, const Aut &b) {
    Aut r; r.nclk = a.nclk + b.nclk; if (a.init < 0 || b.init < 0) { r.init = -1; return r; }
    const int n = int(b.locs.size()); r.locs.resize(a.locs.size() * b.locs.size()); r.init = a.init * n + b.init;
    for (int i = 0; i < int(a.locs.size()); ++i) for (int j = 0; j < n; ++j) {
      auto &l = r.locs[i * n + j]; l.acc = a.locs[i].acc && b.locs[j].acc;
      for (auto &[c, ts]: a.locs[i].out) { auto it = b.locs[j].out.find(c); if (it == b.locs[j].out.end()) continue;
        for (auto &t: ts) for (auto &u: it->second) { Tr x; x.dst = t.dst * n + u.dst; x.g = t.g; for (auto g: u.g) { g.clk += a.nclk; x.g.push_back(g); } x.r = t.r; for (auto q: u.r) { q.dst += a.nclk; if (q.copy) q.src += a.nclk; x.r.push_back(q); } l.out[c].push_back(x); } }
    }
    return r;
  }
  inline bool hasEps(const Aut &a) { for (auto &l: a.locs) { auto it = l.out.find('\0'); if (it != l.out.end() && !it->second.empty()) return true; } return false; }
}
