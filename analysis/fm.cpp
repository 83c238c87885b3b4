// Emptiness test of the polyhedral domain (same algorithm as lin.py_infeasible): equality elimination followed by
// Fourier-Motzkin projection with integer tightening, on 128-bit coefficients.  Returns 1 = empty, 0 = not shown empty,
// 2 = coefficient overflow (the caller falls back to the unbounded implementation).
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef __int128 I;

struct Term { int a; I k; };
struct Row { std::vector<Term> t; I c; };

static std::vector<Row> pool;
static bool ovf;

static inline I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) { ovf = true; return 0; } return r; }
static inline I addx(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) { ovf = true; return 0; } return r; }
static inline I iabs(I a) { return a < 0 ? -a : a; }
static I gcdi(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
static inline I fdiv(I a, I b) { I q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }

// x*kx + y*ky
static void comb(const Row &x, I kx, const Row &y, I ky, Row &o) {
  o.t.clear();
  o.c = addx(mul(x.c, kx), mul(y.c, ky));
  size_t i = 0, j = 0;
  while (i < x.t.size() || j < y.t.size()) {
    if (j == y.t.size() || (i < x.t.size() && x.t[i].a < y.t[j].a)) { o.t.push_back({x.t[i].a, mul(x.t[i].k, kx)}); i++; }
    else if (i == x.t.size() || y.t[j].a < x.t[i].a) { o.t.push_back({y.t[j].a, mul(y.t[j].k, ky)}); j++; }
    else { I k = addx(mul(x.t[i].k, kx), mul(y.t[j].k, ky)); if (k) o.t.push_back({x.t[i].a, k}); i++; j++; }
  }
}

static inline uint64_t hashrow(const Row &r, bool negate) {
  uint64_t h = 1469598103934665603ull;
  for (auto &t : r.t) {
    I k = negate ? -t.k : t.k;
    h = (h ^ (uint64_t)t.a) * 1099511628211ull;
    h = (h ^ (uint64_t)k) * 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}
static inline bool same(const Row &a, const Row &b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].a != b.t[i].a || a.t[i].k != b.t[i].k) return false;
  return true;
}
static inline bool opp(const Row &a, const Row &b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].a != b.t[i].a || a.t[i].k != -b.t[i].k) return false;
  return true;
}

struct Sys {
  std::vector<Row> rows;
  std::unordered_multimap<uint64_t, int> idx;
  // false: contradiction
  bool put(Row &r) {
    if (!r.t.empty()) {
      I g = 0;
      for (auto &t : r.t) { g = gcdi(g, t.k); if (g == 1) break; }
      if (g > 1) { for (auto &t : r.t) t.k /= g; r.c = fdiv(r.c, g); }
    } else return r.c >= 0;
    uint64_t h = hashrow(r, false);
    auto p = idx.equal_range(h);
    for (auto it = p.first; it != p.second; ++it)
      if (same(rows[it->second], r)) { if (r.c < rows[it->second].c) rows[it->second].c = r.c; else return true; 
        return !clash(r); }
    idx.emplace(h, (int)rows.size());
    rows.push_back(r);
    return !clash(r);
  }
  bool tight = false;  // an inequality and its opposite meet: an implied equality
  bool clash(const Row &r) {
    uint64_t h = hashrow(r, true);
    auto p = idx.equal_range(h);
    for (auto it = p.first; it != p.second; ++it)
      if (opp(rows[it->second], r)) {
        if (rows[it->second].c + r.c < 0) return true;
        if (rows[it->second].c + r.c == 0) tight = true;
      }
    return false;
  }
  // index of a row that is an implied equality with a unit coefficient, or -1
  int implied(int &a, I &k) {
    int best = -1;
    for (size_t i = 0; i < rows.size(); i++) {
      const Row &r = rows[i];
      if (best >= 0 && r.t.size() >= rows[best].t.size()) continue;
      int ua = -1; I uk = 0;
      for (auto &t : r.t) if (t.k == 1 || t.k == -1) { ua = t.a; uk = t.k; break; }
      if (ua < 0) continue;
      auto p = idx.equal_range(hashrow(r, true));
      for (auto it = p.first; it != p.second; ++it)
        if (opp(rows[it->second], r) && rows[it->second].c + r.c == 0) { best = i; a = ua; k = uk; break; }
    }
    return best;
  }
};

extern "C" int fm_reg(int n, const int32_t *a, const int64_t *kl, const int64_t *kh, int64_t cl, int64_t ch) {
  Row r;
  r.t.resize(n);
  for (int i = 0; i < n; i++) r.t[i] = {a[i], (I)(((unsigned __int128)(uint64_t)kh[i] << 64) | (uint64_t)kl[i])};
  r.c = (I)(((unsigned __int128)(uint64_t)ch << 64) | (uint64_t)cl);
  pool.push_back(std::move(r));
  return (int)pool.size() - 1;
}

extern "C" void fm_reset() { pool.clear(); pool.shrink_to_fit(); }

extern "C" int fm_infeasible(int n, const int32_t *ids, int limit, int penalty) {
  ovf = false;
  std::vector<Row> eqs, ges;
  for (int i = 0; i < n; i++) {
    if (ids[i] & 1) eqs.push_back(pool[ids[i] >> 1]); else ges.push_back(pool[ids[i] >> 1]);
  }
  Row tmp;
  while (!eqs.empty()) {
    int bi = -1, ba = -1; I bk = 0; size_t cost = 0; bool empty = false;
    for (size_t i = 0; i < eqs.size(); i++) {
      if (eqs[i].t.empty()) { if (eqs[i].c != 0) return 1; bi = i; empty = true; break; }
      for (auto &t : eqs[i].t) if (t.k == 1 || t.k == -1) {
        if (bi < 0 || eqs[i].t.size() < cost) { bi = i; ba = t.a; bk = t.k; cost = eqs[i].t.size(); }
        break;
      }
    }
    if (bi < 0) {
      for (auto &l : eqs) {
        I g = 0;
        for (auto &t : l.t) g = gcdi(g, t.k);
        if (g && l.c % g != 0) return 1;
        Row m = l;
        for (auto &t : m.t) t.k = -t.k;
        m.c = -m.c;
        ges.push_back(l);
        ges.push_back(m);
      }
      break;
    }
    Row l = eqs[bi];
    eqs.erase(eqs.begin() + bi);
    if (empty) continue;
    // row + f*l with f chosen to cancel ba
    auto sub = [&](std::vector<Row> &v) {
      for (auto &x : v) {
        for (auto &t : x.t) if (t.a == ba) {
          I f = bk == 1 ? -t.k : t.k;
          comb(x, 1, l, f, tmp);
          std::swap(x, tmp);
          break;
        }
      }
    };
    sub(eqs); sub(ges);
    if (ovf) return 2;
  }
  Sys s;
  for (auto &l : ges) if (!s.put(l)) return 1;
  std::vector<int> P, N, D, pos, neg;
  bool cut = true;
  while (true) {
    if (s.rows.empty()) return ovf ? 2 : 0;
    if (cut) {
      // integer cuts between floor divisions of the same expression: e - k d + c >= 0 and -e + k d' + c' >= 0
      cut = false;
      std::unordered_map<uint64_t, std::vector<int>> by;
      size_t n0 = s.rows.size();
      std::vector<int> big(n0, -1);
      for (size_t i = 0; i < n0; i++) {
        const Row &r = s.rows[i];
        if (r.t.size() < 2) continue;
        int b = 0;
        for (size_t j = 1; j < r.t.size(); j++) if (iabs(r.t[j].k) > iabs(r.t[b].k)) b = j;
        if (iabs(r.t[b].k) < 2) continue;
        big[i] = b;
        if (r.t[b].k > 0) continue;
        uint64_t h = 17;
        for (size_t j = 0; j < r.t.size(); j++) if ((int)j != b) h = (h ^ ((uint64_t)r.t[j].a * 31 + (uint64_t)r.t[j].k)) * 1099511628211ull;
        by[h ^ (uint64_t)(-r.t[b].k)].push_back(i);
      }
      std::vector<Row> add;
      for (size_t i = 0; i < n0; i++) {
        int b = big[i];
        if (b < 0 || s.rows[i].t[b].k < 0) continue;
        const Row &r = s.rows[i];
        uint64_t h = 17;
        for (size_t j = 0; j < r.t.size(); j++) if ((int)j != b) h = (h ^ ((uint64_t)r.t[j].a * 31 + (uint64_t)(-r.t[j].k))) * 1099511628211ull;
        auto it = by.find(h ^ (uint64_t)(r.t[b].k));
        if (it == by.end()) continue;
        for (int j : it->second) {
          comb(r, 1, s.rows[j], 1, tmp);
          if (tmp.t.size() == 2) add.push_back(tmp);
        }
      }
      for (auto &x : add) if (!s.put(x)) return 1;
    }
    if (s.tight) {
      int ea; I ek;
      int e = s.implied(ea, ek);
      if (e >= 0) {
        Row l = s.rows[e];
        Sys nx;
        for (auto &x : s.rows) {
          I f = 0;
          for (auto &t : x.t) if (t.a == ea) { f = ek == 1 ? -t.k : t.k; break; }
          if (f != 0) { comb(x, 1, l, f, tmp); if (ovf) return 2; if (tmp.t.empty() && tmp.c >= 0) continue; if (!nx.put(tmp)) return 1; }
          else if (!nx.put(x)) return 1;
        }
        std::swap(s, nx);
        cut = true;
        continue;
      }
      s.tight = false;
    }
    std::unordered_map<int, int> loc;
    std::vector<int> ats; P.clear(); N.clear(); D.clear();
    for (auto &r : s.rows) for (auto &t : r.t) {
      auto it = loc.find(t.a);
      int j;
      if (it == loc.end()) { j = ats.size(); loc[t.a] = j; ats.push_back(t.a); P.push_back(0); N.push_back(0); D.push_back(0); } else j = it->second;
      if (t.k > 0) { P[j]++; if (t.k > 1) D[j] |= 1; } else { N[j]++; if (t.k < -1) D[j] |= 2; }
    }
    long best = 0; int ba = -1;
    for (size_t j = 0; j < ats.size(); j++) {
      long c = (long)P[j] * N[j] - P[j] - N[j] + (D[j] == 3 ? penalty : 0);
      if (ba < 0 || c < best) { best = c; ba = ats[j]; }
    }
    pos.clear(); neg.clear();
    Sys nx;
    std::vector<I> kv(s.rows.size());
    for (size_t i = 0; i < s.rows.size(); i++) {
      I k = 0;
      for (auto &t : s.rows[i].t) if (t.a == ba) { k = t.k; break; }
      kv[i] = k;
      if (k > 0) pos.push_back(i); else if (k < 0) neg.push_back(i);
      else { nx.idx.emplace(hashrow(s.rows[i], false), (int)nx.rows.size()); nx.rows.push_back(std::move(s.rows[i])); }
    }
    if ((long)pos.size() * neg.size() + nx.rows.size() > (size_t)limit) return ovf ? 2 : 0;
    for (int i : pos) for (int j : neg) {
      I kp = kv[i], kn = -kv[j], g = gcdi(kp, kn);
      comb(s.rows[i], kn / g, s.rows[j], kp / g, tmp);
      if (ovf) return 2;
      if (!nx.put(tmp)) return 1;
    }
    std::swap(s, nx);
  }
}
