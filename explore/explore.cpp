// Replay and bounded exploration against the real headers of /repo.
//
// A script is a list of operations with integer parameters. It is executed on
// real caches and on a plain reference model written from the properties; the
// first observable difference is a divergence. Nothing here decides a property
// that the verifier discharges: it turns failed obligations into concrete
// failing histories, and stands in (bounded) where the verifier is undecided.
//
//   explore run <seed> <seconds> <statefile>   random scripts
//   explore replay <script>                    one script
#include <algorithm>
#include <array>
#include <bitset>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <cassert>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

inline long g_now = 1000000;      // fake clock, nanoseconds
inline long g_tick = 0;           // advance per reading
#if PART == 0
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  g_now += g_tick;
  return time_point(duration(g_now));
}
}
}
}
#endif

#include <lru/lru.hpp>

// ------------------------------------------------------------------ key, value
struct Key {
  int* box;     // heap storage: use of a dead key is caught by ASan
  int tag;      // tells apart keys that compare equal
  explicit Key(int v = 0, int t = 0) : box(new int(v)), tag(t) {}
  Key(const Key& o) : box(new int(*o.box)), tag(o.tag) {}
  Key(Key&& o) : box(new int(*o.box)), tag(o.tag) { *o.box = -7777; o.tag = -1; }
  Key& operator=(const Key& o) { *box = *o.box; tag = o.tag; return *this; }
  Key& operator=(Key&& o) { if (this != &o) { *box = *o.box; tag = o.tag; *o.box = -7777; } return *this; }
  ~Key() { *box = -6666; delete box; }
  int v() const { return *box; }
  bool operator==(const Key& o) const { return *box == *o.box; }
  bool operator!=(const Key& o) const { return *box != *o.box; }
};
namespace std {
template <> struct hash<Key> { size_t operator()(const Key& k) const { return size_t(k.v()) * 7; } };
}
struct Val {
  int* box;
  Val(int v = 0) : box(new int(v)) {}
  Val(const Val& o) : box(new int(*o.box)) {}
  Val(Val&& o) : box(new int(*o.box)) { *o.box = -8888; }
  Val& operator=(const Val& o) { *box = *o.box; return *this; }
  Val& operator=(Val&& o) { if (this != &o) { *box = *o.box; *o.box = -8888; } return *this; }
  ~Val() { *box = -6666; delete box; }
  int v() const { return *box; }
  // values that compare equal need not be identical
  static int cls(int x) { return x >= 60 ? x | 1 : x; }
  bool operator==(const Val& o) const { return cls(*box) == cls(*o.box); }
  bool operator!=(const Val& o) const { return !(*this == o); }
};
struct Hs {
  int m = 0;
  size_t operator()(const Key& k) const { return m ? size_t(((k.v() % m) + m) % m) : size_t(k.v()); }
};
struct Eq {
  int m = 0;
  static int norm(int v, int m) { return m ? ((v % m) + m) % m : v; }
  bool operator()(const Key& a, const Key& b) const { return norm(a.v(), m) == norm(b.v(), m); }
};

using Pairs = std::vector<std::pair<Key, Val>>;

// ------------------------------------------------------------------ script
struct Op { std::string name; std::vector<long> a; };
struct Script { std::string kind; std::vector<Op> ops; };

struct Diverged { std::string what, tags; };
[[noreturn]] static void bad(const std::string& tags, const std::string& what) { throw Diverged{what, tags}; }
#define NEED(cond, tags, what) do { if (!(cond)) bad(tags, what); } while (0)

// ------------------------------------------------------------------ model
struct MStats {
  long acc = 0, hits = 0;
  std::map<int, std::pair<long, long>> keys;
};
struct MEntry { int k, tag, x; long time; const void* obj; };
struct MCache {
  std::vector<MEntry> e;          // least recently used first
  size_t cap = 0;
  int m = 0;                      // key equality modulus
  double ttl = 0;
  std::shared_ptr<MStats> st;
  std::vector<int> cb[3];         // hit, miss, access
  int find(int k) const {
    for (size_t i = 0; i < e.size(); i++) if (Eq::norm(e[i].k, m) == Eq::norm(k, m)) return int(i);
    return -1;
  }
};
struct Call { int kind, id, key, val; bool operator==(const Call& o) const { return kind == o.kind && id == o.id && key == o.key && val == o.val; } };
inline std::vector<Call> g_calls;

template <class C> struct Traits;
using CacheU = LRU::Cache<Key, Val, Hs, Eq>;
using CacheT = LRU::TimedCache<Key, Val, std::chrono::duration<double, std::milli>, Hs, Eq>;
using CacheI = LRU::TimedCache<Key, Val, std::chrono::duration<long, std::milli>, Hs, Eq>;
template <> struct Traits<CacheU> { static constexpr bool timed = false; };
template <> struct Traits<CacheT> { static constexpr bool timed = true; using D = std::chrono::duration<double, std::milli>; };
template <> struct Traits<CacheI> { static constexpr bool timed = true; using D = std::chrono::duration<long, std::milli>; };

inline volatile int* g_at = nullptr;       // current op, shared with the parent
static std::string str(long x) { return std::to_string(x); }

template <class C>
struct World {
  static constexpr bool timed = Traits<C>::timed;
  static constexpr int N = 3;
  std::unique_ptr<C> c[N];
  MCache m[N];
  bool dirtyloose = false;
  struct Held { int slot, k; Val* p; };
  std::vector<Held> held;
  int nextcb = 1;
  bool exactstats = true;

  const C& cc(int i) { return *c[i]; }
  static std::string K(int k) { return "key " + str(k); }

  bool expired(const MCache& M, const MEntry& e) const { return expiredAt(M, e, g_now); }
  bool expiredAt(const MCache& M, const MEntry& e, long now) const {
    if constexpr (timed) {
      using D = typename Traits<C>::D;
      auto el = std::chrono::steady_clock::duration(now - e.time);
      return std::chrono::duration_cast<D>(el).count() > M.ttl;
    }
    (void)M; (void)e; (void)now;
    return false;
  }
  static auto ttlOf(long ns) {
    if constexpr (timed) return std::chrono::duration_cast<typename Traits<C>::D>(std::chrono::nanoseconds(ns));
    else return 0;
  }
  template <class... A> std::unique_ptr<C> mk(long ttl, A&&... a) {
    if constexpr (timed) return std::make_unique<C>(ttlOf(ttl), std::forward<A>(a)...);
    else return std::make_unique<C>(std::forward<A>(a)...);
  }
  static double mttl(long ttl) {
    if constexpr (timed) return double(ttlOf(ttl).count());
    else return 0;
  }

  // ---------------- model operations
  void mtouch(MCache& M, int i) { MEntry e = M.e[i]; M.e.erase(M.e.begin() + i); M.e.push_back(e); }
  bool minsert(MCache& M, int k, int tag, int x, bool* stored = nullptr) {
    if (stored) *stored = M.cap != 0;
    if (M.cap == 0) return false;
    int i = M.find(k);
    if (i >= 0) { M.e[i].x = x; M.e[i].time = g_now; mtouch(M, i); return false; }
    if (M.e.size() >= M.cap) M.e.erase(M.e.begin());
    M.e.push_back({k, tag, x, g_now, nullptr});
    return true;
  }
  std::vector<Call> want;
  void mcount(MCache& M, int k, bool hit, int val) {
    if (M.st) {
      M.st->acc++;
      if (hit) M.st->hits++;
      auto it = M.st->keys.find(k);
      if (it != M.st->keys.end()) (hit ? it->second.first : it->second.second)++;
    }
    for (int id : M.cb[hit ? 0 : 1]) want.push_back({hit ? 0 : 1, id, k, hit ? val : 0});
    for (int id : M.cb[2]) want.push_back({2, id, k, hit});
  }
  // returns index of the entry after touching, or -1
  int mlookup(MCache& M, int k, bool* wasexp = nullptr) {
    int i = M.find(k);
    bool hit = i >= 0 && !expired(M, M.e[i]);
    if (wasexp) *wasexp = i >= 0 && !hit;
    mcount(M, k, hit, hit ? M.e[i].x : 0);
    if (!hit) return -1;
    mtouch(M, i);
    return int(M.e.size()) - 1;
  }
  void mshrink(MCache& M, size_t n) { while (M.e.size() > n) M.e.erase(M.e.begin()); }

  // ---------------- comparison
  std::string T(const char* base) { return base; }
  void compare(int s, bool full, const std::string& tags) {
    C& c = *this->c[s];
    const C& k = c;
    MCache& M = m[s];
    std::string w = " (cache " + str(s) + ")";
    NEED(k.size() == M.e.size(), "C01 " + tags, "size() is " + str(k.size()) + ", expected " + str(M.e.size()) + w);
    NEED(k.capacity() == M.cap, "C01 C05 C12 " + tags, "capacity() is " + str(k.capacity()) + ", expected " + str(M.cap) + w);
    NEED(k.size() <= k.capacity(), "C01 " + tags, "size exceeds capacity" + w);
    NEED(k.is_empty() == M.e.empty(), "C01 " + tags, "is_empty() is wrong" + w);
    NEED(k.is_full() == (M.e.size() == M.cap), "C01 " + tags, "is_full() is wrong" + w);
    NEED(k.space_left() == M.cap - M.e.size(), "C01 " + tags, "space_left() is wrong" + w);
    NEED(k.is_monitoring() == bool(M.st), "C13 " + tags, "is_monitoring() is wrong" + w);
    if (!full) return;
    // ordered
    size_t i = 0;
    for (auto it = k.ordered_begin(); it != k.ordered_end(); ++it, ++i) {
      NEED(i < M.e.size(), "C04 C09 C18 C01 " + tags, "ordered iteration yields too many entries" + w);
      NEED(it->first.v() == M.e[i].k, "C04 C18 C03 " + tags, "ordered iteration yields key " + str(it->first.v()) + " at position " + str(i) + ", expected " + str(M.e[i].k) + w);
      NEED(it->first.tag == M.e[i].tag, "C23 C02 " + tags, "the key object stored was replaced" + w);
      NEED(it->second.v() == M.e[i].x, "C02 C18 " + tags, "value under key " + str(M.e[i].k) + " is " + str(it->second.v()) + ", expected " + str(M.e[i].x) + w);
    }
    NEED(i == M.e.size(), "C04 C09 C18 C01 " + tags, "ordered iteration yields too few entries" + w);
    std::set<int> seen;
    for (auto it = k.unordered_begin(); it != k.unordered_end(); ++it) {
      int key = it->first.v();
      int j = M.find(key);
      NEED(j >= 0 && M.e[j].k == key, "C18 C01 C02 " + tags, "unordered iteration yields key " + str(key) + ", which is not stored" + w);
      NEED(seen.insert(key).second, "C18 " + tags, "unordered iteration yields a key twice" + w);
      NEED(it->second.v() == M.e[j].x, "C02 C18 " + tags, "value under key " + str(key) + " in unordered iteration" + w);
    }
    NEED(seen.size() == M.e.size(), "C18 C01 " + tags, "unordered iteration misses entries" + w);
    if constexpr (!timed) {
      if (!M.e.empty()) {
        NEED(k.front().v() == M.e.back().k, "C04 " + tags, "front() is not the most recently used key" + w);
        NEED(k.back().v() == M.e.front().k, "C04 " + tags, "back() is not the least recently used key" + w);
      }
    } else {
      bool all = true;
      for (auto& e : M.e) {
        bool x = expired(M, e);
        all = all && x;
        NEED(k.has_expired(Key(e.k)) == x, "C17 C16 " + tags, "has_expired(key " + str(e.k) + ") is wrong" + w);
      }
      NEED(k.all_expired() == all, "C17 C16 " + tags, "all_expired() is wrong" + w);
    }
    NEED(k.hash_function().m == M.m && k.key_equal().m == M.m, "C23 " + tags, "the hash or key equality function is not the one supplied" + w);
    NEED(k.hit_callbacks().size() == M.cb[0].size() && k.miss_callbacks().size() == M.cb[1].size() && k.access_callbacks().size() == M.cb[2].size(),
         "C15 " + tags, "number of registered callbacks" + w);
    if (M.st) {
      auto& st = k.stats();
      auto& S = *M.st;
      NEED(long(st.total_accesses()) == S.acc && long(st.total_hits()) == S.hits && long(st.total_misses()) == S.acc - S.hits,
           "C13 C14 " + tags, "totals counted: " + str(st.total_accesses()) + "/" + str(st.total_hits()) + ", expected " + str(S.acc) + "/" + str(S.hits) + w);
      if (S.acc) {
        double hr = st.hit_rate(), mr = st.miss_rate();
        NEED(hr >= 0 && hr <= 1 && mr >= -1e-12 && mr <= 1 && std::abs(hr - double(S.hits) / S.acc) < 1e-9 && std::abs(hr + mr - 1) < 1e-9, "C14", "hit_rate/miss_rate" + w);
      }
      NEED(st.number_of_monitored_keys() == S.keys.size() && st.is_monitoring_keys() == !S.keys.empty(), "C14 " + tags, "number of monitored keys" + w);
      for (auto& p : S.keys) {
        Key q(p.first);
        NEED(st.is_monitoring(q), "C14 " + tags, "a monitored key is not monitored" + w);
        NEED(long(st.hits_for(q)) == p.second.first && long(st.misses_for(q)) == p.second.second && long(st.accesses_for(q)) == p.second.first + p.second.second
                 && long(st[q].hits) == p.second.first && long(st.stats_for(q).misses) == p.second.second,
             "C13 C14 " + tags, "counters of key " + str(p.first) + w);
      }
    }
  }
  void checkHeld() {
    for (auto& h : held) {
      int i = m[h.slot].find(h.k);
      if (i < 0) continue;
      NEED(h.p->v() == m[h.slot].e[i].x, "C11 C18 C09", "a reference to a stored value no longer shows it");
    }
  }
  void pruneHeld() {
    held.erase(std::remove_if(held.begin(), held.end(), [&](const Held& h) { return !c[h.slot] || m[h.slot].find(h.k) < 0; }), held.end());
  }
  void dropHeld(int s) {
    held.erase(std::remove_if(held.begin(), held.end(), [&](const Held& h) { return h.slot == s; }), held.end());
  }
  void swapHeld(int a, int b) { for (auto& h : held) h.slot = h.slot == a ? b : h.slot == b ? a : h.slot; }

  Pairs pairs(const std::vector<long>& a, size_t from) {
    Pairs p;
    for (size_t i = from; i + 1 < a.size(); i += 2) p.emplace_back(Key(int(a[i]), int(500 + i)), Val(int(a[i + 1])));
    return p;
  }
  size_t mbulk(MCache& M, const Pairs& p) {
    size_t n = 0;
    for (auto& x : p) n += minsert(M, x.first.v(), x.first.tag, x.second.v());
    return n;
  }

  template <class It> void checkIter(int s, It it, int k, const std::string& tags) {
    int i = m[s].find(k);
    NEED(it != c[s]->end(), tags, "the iterator returned is past the end");
    NEED(it->first.v() == m[s].e[i].k && it->second.v() == m[s].e[i].x, tags, "the iterator returned shows " + str(it->first.v()) + "," + str(it->second.v()));
    NEED((*it).first.v() == m[s].e[i].k, tags, "dereferencing the iterator returned");
  }

  // the iterator of the entry with key k (k is stored)
  template <class CC> auto uit(CC& x, int k) {
    auto it = x.unordered_begin();
    while (it->first.v() != k) ++it;
    return it;
  }
  template <class CC> auto oit(CC& x, int k) {
    auto it = x.ordered_begin();
    while (it->first.v() != k) ++it;
    return it;
  }

  void lookupOp(const Op& op, int s, int k) {
    C& x = *c[s];
    const C& y = x;
    MCache& M = m[s];
    const std::string L = "C02 C08 C16 C23";
    Key key(k, 99);
    const Key* kp = &key;
    Key alias(k, 98);
    // sometimes pass a reference into the cache itself
    if (op.a.size() > 2 && op.a[2] == 1 && M.find(k) >= 0) {
      for (auto it = y.unordered_begin(); it != y.unordered_end(); ++it)
        if (Eq::norm(it->first.v(), M.m) == Eq::norm(k, M.m)) kp = &it->first;
    }
    k = kp->v();
    bool wasexp = false;
    int i = mlookup(M, k, &wasexp);
    const std::string n = op.name;
    if (n == "find") {
      auto it = x.find(*kp);
      NEED((it != x.end()) == (i >= 0), L, "find(" + K(k) + ") " + (i >= 0 ? "did not find a stored key" : "found an absent key"));
      if (i >= 0) checkIter(s, it, k, L + " C18");
    } else if (n == "cfind") {
      auto it = y.find(*kp);
      NEED((it != y.end()) == (i >= 0), L, "find(" + K(k) + ") const is wrong");
      if (i >= 0) NEED(it->first.v() == M.e[i].k && it->second.v() == M.e[i].x, L + " C18", "find const shows another entry");
    } else if (n == "contains") {
      bool r = y.contains(*kp);
      NEED(r == (i >= 0), L, "contains(" + K(k) + ") is " + str(r));
    } else {
      std::string err;
      const Val* r = nullptr;
      try {
        if (n == "lookup") { Val& v = x.lookup(*kp); r = &v; }
        else if (n == "clookup") r = &y.lookup(*kp);
        else if (n == "index") { Val& v = x[*kp]; r = &v; }
        else r = &y[*kp];
      } catch (LRU::Error::KeyNotFound&) { err = "KeyNotFound"; }
      catch (LRU::Error::KeyExpired&) { err = "KeyExpired"; }
      catch (std::exception& ex) { err = ex.what(); if (err.empty()) err = "?"; }
      if (i >= 0) {
        NEED(err.empty(), L + " C19", n + "(" + K(k) + ") of a stored key threw " + err);
        NEED(r->v() == M.e[i].x, L, n + "(" + K(k) + ") yields " + str(r->v()) + ", expected " + str(M.e[i].x));
        if (n == "lookup" || n == "index") held.push_back({s, M.e[i].k, const_cast<Val*>(r)});
      } else {
        NEED(!err.empty(), L + " C19", n + "(" + K(k) + ") of an absent key did not throw");
        NEED(err == "KeyNotFound" || (err == "KeyExpired" && wasexp), "C19", n + " threw " + err);
      }
    }
  }

  void step(const Op& op) {
    const auto& a = op.a;
    const std::string& n = op.name;
    int s = int(a.at(0)) % N;
    auto A = [&](size_t i) { return i < a.size() ? a[i] : 0L; };
    C& x = *c[s];
    const C& y = x;
    MCache& M = m[s];
    if (n == "find" || n == "cfind" || n == "contains" || n == "lookup" || n == "clookup" || n == "index" || n == "cindex") {
      lookupOp(op, s, int(A(1)));
    } else if (n == "insert" || n == "emplace" || n == "emplace3" || n == "emplacem" || n == "insertalias" || n == "emplacealias") {
      int k = int(A(1)), v = int(A(2)), tag = int(A(3));
      const std::string L = "C06 C02 C03 C23";
      const Key* kp = nullptr;
      const Val* vp = nullptr;
      Key key(k, tag); Val val(v);
      kp = &key; vp = &val;
      if ((n == "insertalias" || n == "emplacealias") && !M.e.empty()) {
        int j = int(size_t(k) % M.e.size());
        auto it = uit(x, M.e[j].k);
        if (A(4) & 1) { kp = &it->first; k = kp->v(); tag = kp->tag; }
        if (A(4) & 2) { int l = int(size_t(v) % M.e.size()); vp = &uit(x, M.e[l].k)->second; v = vp->v(); }
      }
      bool stored = false;
      bool nw = minsert(M, k, tag, v, &stored);
      auto chk = [&](auto r) {
        NEED(r.was_inserted() == nw && bool(r) == nw, L, n + "(" + K(k) + ") reports " + str(r.was_inserted()));
        if (stored) { auto it = r.iterator(); checkIter(s, it, k, L + " C18"); NEED(r.first == nw && r.second == it, L, "insertion result"); }
        else NEED(r.iterator() == x.end(), L, n + " into a cache of capacity 0 returned an entry");
      };
      if (n == "insert" || n == "insertalias") chk(x.insert(*kp, *vp));
      else if (n == "emplace" || n == "emplacealias") chk(x.emplace(*kp, *vp));
      else if (n == "emplacem") chk(x.emplace(Key(k, tag), Val(v)));
      else chk(x.emplace(std::piecewise_construct, std::forward_as_tuple(k, tag), std::forward_as_tuple(v)));
    } else if (n == "erase") {
      int k = int(A(1));
      int i = M.find(k);
      Key key(k, 97);
      const Key* kp = &key;
      if (A(2) && i >= 0) kp = &uit(x, M.e[i].k)->first;
      if (i >= 0) M.e.erase(M.e.begin() + i);
      bool r = x.erase(*kp);
      NEED(r == (i >= 0), "C07 C08 C23", "erase(" + K(k) + ") returned " + str(r));
    } else if (n == "eraseu" || n == "eraseo") {
      bool end = M.e.empty() || A(2) == 7;
      std::string err;
      try {
        if (end) {
          if (n == "eraseu") { if (A(2) & 1) x.erase(y.unordered_cend()); else x.erase(x.unordered_end()); }
          else { if (A(2) & 1) x.erase(y.ordered_cend()); else x.erase(typename C::OrderedConstIterator(x.ordered_end())); }
        } else {
          int j = int(size_t(A(1)) % M.e.size());
          int k = M.e[j].k;
          if (n == "eraseu") { auto it = uit(y, k); if (A(2) & 1) x.erase(it); else x.erase(uit(x, k)); }
          else { auto it = oit(y, k); if (A(2) & 2) { ++it; --it; } if (A(2) & 1) x.erase(it); else x.erase(typename C::OrderedConstIterator(oit(x, k))); }
          M.e.erase(M.e.begin() + j);
        }
      } catch (LRU::Error::InvalidIterator&) { err = "InvalidIterator"; }
      catch (std::exception& e) { err = "another error"; }
      NEED(err == (end ? "InvalidIterator" : ""), "C07 C19", n + " threw '" + err + "'");
    } else if (n == "clear") {
      x.clear(); M.e.clear();
    } else if (n == "shrink") {
      x.shrink(size_t(A(1))); mshrink(M, size_t(A(1)));
    } else if (n == "capacity") {
      x.capacity(size_t(A(1))); mshrink(M, size_t(A(1))); M.cap = size_t(A(1));
    } else if (n == "bulk") {
      Pairs p = pairs(a, 2);
      Pairs q = p;
      const Pairs& cp = p;
      dropHeld(s);
      size_t w = mbulk(M, p), r = 0;
      switch (A(1) % 6) {
        case 0: r = x.insert(p); break;
        case 1: r = x.insert(cp); break;
        case 2: r = x.insert(p.begin(), p.end()); break;
        case 3: r = x.insert(std::move(p)); break;
        case 4: { std::list<std::pair<Key, Val>> l(p.begin(), p.end()); r = x.insert(l.begin(), l.end()); break; }
        case 5:
          if (q.size() == 0) r = x.insert(typename C::InitializerList{});
          else if (q.size() == 1) r = x.insert({q[0]});
          else if (q.size() == 2) r = x.insert({q[0], q[1]});
          else if (q.size() == 3) r = x.insert({q[0], q[1], q[2]});
          else r = x.insert(p);
          break;
      }
      NEED(r == w, "C06", "bulk insertion returned " + str(r) + ", expected " + str(w));
      if (A(1) % 6 != 3) NEED(p == q, "C06 C12", "bulk insertion changed its source");
    } else if (n == "assign") {
      Pairs p = pairs(a, 2);
      Pairs q = p;
      const Pairs& cp = p;
      M.e.clear();
      M.cap = std::max(M.cap, p.size());
      mbulk(M, p);
      switch (A(1) % 4) {
        case 0: x = p; break;
        case 1: x = cp; break;
        case 2: x = std::move(p); break;
        case 3:
          if (q.size() == 1) x = {q[0]};
          else if (q.size() == 2) x = {q[0], q[1]};
          else if (q.size() == 3) x = {q[0], q[1], q[2]};
          else x = p;
          break;
      }
      if (A(1) % 4 != 2) NEED(p == q, "C12", "range assignment changed its source");
      dropHeld(s);
    } else if (n == "make") {           // make slot form m cap ttl pairs...
      int form = int(A(1)) % 9;
      Hs h; Eq e; h.m = e.m = int(A(2));
      size_t cap = size_t(A(3));
      long ttl = A(4);
      Pairs p = pairs(a, 5);
      Pairs q = p;
      const Pairs& cp = p;
      dropHeld(s);
      M = MCache();
      M.m = int(A(2)); M.ttl = mttl(ttl);
      c[s].reset();
      switch (form) {
        case 0: M.cap = cap; c[s] = mk(ttl, cap, h, e); break;
        case 1: M.cap = cap; c[s] = mk(ttl, cap, p.begin(), p.end(), h, e); break;
        case 2: M.cap = std::max<size_t>(p.size(), LRU::Internal::DEFAULT_CAPACITY); c[s] = mk(ttl, p.begin(), p.end(), h, e); break;
        case 3: M.cap = cap; c[s] = mk(ttl, cap, p, h, e); break;
        case 4: M.cap = std::max<size_t>(p.size(), LRU::Internal::DEFAULT_CAPACITY); c[s] = mk(ttl, cp, h, e); break;
        case 5: M.cap = cap; c[s] = mk(ttl, cap, Pairs(p), h, e); break;
        case 6: M.cap = p.size(); c[s] = mk(ttl, Pairs(p), h, e); break;
        case 7: {
          M.cap = cap;
          while (p.size() < 2) p.emplace_back(Key(int(p.size()), 3), Val(1));
          p.resize(2); q = p;
          typename C::InitializerList l = {p[0], p[1]};
          c[s] = mk(ttl, cap, l, h, e);
          break;
        }
        case 8: {
          while (p.size() < 2) p.emplace_back(Key(int(p.size()), 3), Val(1));
          p.resize(2); q = p;
          M.cap = 2;
          typename C::InitializerList l = {p[0], p[1]};
          c[s] = mk(ttl, l, h, e);
          break;
        }
      }
      if (form != 0) mbulk(M, p);
      NEED(p == q, "C12", "construction changed its source");
    } else if (n == "copy" || n == "copyassign" || n == "move" || n == "moveassign" || n == "swap" || n == "destroycopy") {
      int t = int(A(1)) % N;
      if (n == "copy") {
        if (t == s) return;
        dropHeld(s);
        c[s] = A(2) & 1 ? std::make_unique<C>(*c[t]) : std::make_unique<C>(static_cast<const C&>(*c[t]));
        M = m[t];
      } else if (n == "copyassign") {
        if (t != s) dropHeld(s);
        if (A(2) & 1) *c[s] = *c[t]; else *c[s] = static_cast<const C&>(*c[t]);
        if (t != s) M = m[t];
      } else if (n == "destroycopy") {   // the original goes away after copying
        if (t == s) return;
        dropHeld(s); dropHeld(t);
        c[s] = A(2) & 1 ? std::make_unique<C>(*c[t]) : std::make_unique<C>(static_cast<const C&>(*c[t]));
        M = m[t];
        c[t] = mk(1000000, size_t(2), Hs(), Eq());
        m[t] = MCache(); m[t].cap = 2; m[t].ttl = mttl(1000000);
      } else if (n == "move") {
        if (t == s) return;
        dropHeld(s);
        for (auto& h : held) if (h.slot == t) h.slot = s;
        alignas(C) static unsigned char junk[1];
        (void)junk;
        c[s] = std::make_unique<C>(std::move(*c[t]));
        auto st = M.st; (void)st;
        MCache old = M;
        M = m[t];
        // statistics and callbacks after a move are not specified
        M.st = nullptr; c[s]->stop_monitoring();
        for (int i = 0; i < 3; i++) M.cb[i].clear();
        c[s]->clear_all_callbacks();
        // the source: empty, within its own capacity; then replaced
        NEED(c[t]->size() == 0, "C11 C01", "a moved-from cache still holds entries");
        NEED(c[t]->size() <= c[t]->capacity(), "C11 C01", "a moved-from cache exceeds its capacity");
        NEED(c[t]->ordered_begin() == c[t]->ordered_end() && c[t]->unordered_begin() == c[t]->unordered_end(), "C11", "a moved-from cache iterates over entries");
        size_t mc = c[t]->capacity();
        NEED(mc <= std::max<size_t>(M.cap, LRU::Internal::DEFAULT_CAPACITY), "C11 C01", "a moved-from cache has an arbitrary capacity");
        m[t] = MCache(); m[t].m = c[t]->key_equal().m; m[t].cap = mc;
        if (c[t]->hash_function().m != m[t].m) bad("C11 C23", "a moved-from cache has inconsistent functors");
        c[t]->stop_monitoring(); c[t]->clear_all_callbacks();
        if (A(2) & 1) {   // keep using it
          for (int i = 0; i < 4; i++) { c[t]->insert(Key(i), Val(i)); c[t]->contains(Key(i)); }
          NEED(c[t]->size() <= c[t]->capacity(), "C11 C01", "a moved-from cache exceeds its capacity");
        }
        c[t] = mk(1000000, size_t(2), Hs(), Eq());
        m[t] = MCache(); m[t].cap = 2; m[t].ttl = mttl(1000000);
        dropHeld(t);
      } else if (n == "moveassign") {
        if (t == s) return;
        dropHeld(s);
        for (auto& h : held) if (h.slot == t) h.slot = s;
        *c[s] = std::move(*c[t]);
        {
          MCache src = m[t];
          src.st = nullptr;
          for (int i = 0; i < 3; i++) src.cb[i].clear();
          M = src;
        }
        c[s]->stop_monitoring(); c[s]->clear_all_callbacks();
        NEED(c[t]->size() <= c[t]->capacity(), "C11 C01", "a moved-from cache exceeds its capacity");
        c[t]->stop_monitoring(); c[t]->clear_all_callbacks();
        if (A(2) & 1) {
          for (int i = 0; i < 4; i++) { c[t]->insert(Key(i), Val(i)); c[t]->contains(Key(i)); }
          NEED(c[t]->size() <= c[t]->capacity(), "C11 C01", "a moved-from cache exceeds its capacity");
        }
        c[t] = mk(1000000, size_t(2), Hs(), Eq());
        m[t] = MCache(); m[t].cap = 2; m[t].ttl = mttl(1000000);
        dropHeld(t);
      } else {
        if (A(2) & 1) { using std::swap; swap(*c[s], *c[t]); } else c[s]->swap(*c[t]);
        if (s != t) {
          // swap does not exchange statistics and callbacks
          std::swap(m[s].e, m[t].e); std::swap(m[s].cap, m[t].cap); std::swap(m[s].m, m[t].m); std::swap(m[s].ttl, m[t].ttl);
          swapHeld(s, t);
        }
      }
    } else if (n == "monitor") {
      switch (A(1) % 5) {
        case 0: x.monitor(); M.st = std::make_shared<MStats>(); break;
        case 1: x.monitor(Key(int(A(2)))); M.st = std::make_shared<MStats>(); M.st->keys[int(A(2))]; break;
        case 2: x.monitor(Key(int(A(2))), Key(int(A(3)))); M.st = std::make_shared<MStats>(); M.st->keys[int(A(2))]; M.st->keys[int(A(3))]; break;
        case 3: {
          int t = int(A(2)) % N;
          auto p = c[t]->shared_stats();
          if (A(3) & 1) x.monitor(p); else x.monitor(std::move(p));
          M.st = m[t].st;
          break;
        }
        case 4: {
          int k = int(A(2)), l = int(A(3));
          std::shared_ptr<LRU::Statistics<Key>> p;
          M.st = std::make_shared<MStats>(); M.st->keys[k]; M.st->keys[l];
          std::vector<Key> v{Key(k), Key(l), Key(k), Key(k), Key(k + l), Key(l + 1)};
          std::list<Key> li(v.begin(), v.end());
          switch ((k * 3 + l) % 5) {
            case 0: p = std::make_shared<LRU::Statistics<Key>>(std::vector<Key>{Key(k), Key(l)}); break;
            case 1: p = std::make_shared<LRU::Statistics<Key>>(v); M.st->keys[k + l]; M.st->keys[l + 1]; break;
            case 2: p = std::make_shared<LRU::Statistics<Key>>(li.begin(), li.end()); M.st->keys[k + l]; M.st->keys[l + 1]; break;
            case 3: p.reset(new LRU::Statistics<Key>{Key(k), Key(k), Key(l)}); break;
            case 4: p = std::make_shared<LRU::Statistics<Key>>(std::initializer_list<Key>{Key(k), Key(l), Key(k), Key(l), Key(k + l)}); M.st->keys[k + l]; break;
          }
          x.monitor(p);
          NEED(x.shared_stats() == p && &x.stats() == p.get() && y.shared_stats() == p && &y.stats() == p.get(), "C13", "the attached statistics object is another one");
          break;
        }
      }
    } else if (n == "stop") {
      x.stop_monitoring(); M.st = nullptr;
    } else if (n == "stats") {
      std::string err;
      int k = int(A(2));
      std::string want;
      if (!M.st) want = "NotMonitoring";
      try {
        auto& st = x.stats();
        if (M.st) {
          auto it = M.st->keys.find(k);
          bool in = it != M.st->keys.end();
          switch (A(1) % 8) {
            case 0: M.st->keys[k]; st.monitor(Key(k)); break;
            case 1: if (in) M.st->keys.erase(it); else want = "UnmonitoredKey"; st.unmonitor(Key(k)); break;
            case 2: M.st->keys.clear(); st.unmonitor_all(); break;
            case 3: if (in) it->second = {0, 0}; else want = "UnmonitoredKey"; st.reset_key(Key(k)); break;
            case 4: for (auto& p : M.st->keys) p.second = {0, 0}; st.reset_all(); break;
            case 5: if (!in) want = "UnmonitoredKey"; st.hits_for(Key(k)); break;
            case 6: if (!in) want = "UnmonitoredKey"; st.stats_for(Key(k)); break;
            case 7: NEED(st.is_monitoring(Key(k)) == in, "C14", "is_monitoring(key)"); break;
          }
        }
      } catch (LRU::Error::NotMonitoring&) { err = "NotMonitoring"; }
      catch (LRU::Error::UnmonitoredKey&) { err = "UnmonitoredKey"; }
      catch (std::exception&) { err = "another error"; }
      NEED(err == want, "C14 C19 C13", "statistics operation " + str(A(1) % 8) + " threw '" + err + "', expected '" + want + "'");
    } else if (n == "callback") {
      int id = nextcb++;
      switch (A(1) % 3) {
        case 0: x.hit_callback([id](const Key& k, const Val& v) { g_calls.push_back({0, id, k.v(), v.v()}); }); break;
        case 1: x.miss_callback([id](const Key& k) { g_calls.push_back({1, id, k.v(), 0}); }); break;
        case 2: x.access_callback([id](const Key& k, bool f) { g_calls.push_back({2, id, k.v(), f}); }); break;
      }
      M.cb[A(1) % 3].push_back(id);
    } else if (n == "clearcb") {
      switch (A(1) % 4) {
        case 0: x.clear_hit_callbacks(); M.cb[0].clear(); break;
        case 1: x.clear_miss_callbacks(); M.cb[1].clear(); break;
        case 2: x.clear_access_callbacks(); M.cb[2].clear(); break;
        case 3: x.clear_all_callbacks(); for (auto& v : M.cb) v.clear(); break;
      }
    } else if (n == "sleep") {
      g_now += A(1);
    } else if (n == "ends") {
      if constexpr (!timed) {
        std::string e1, e2;
        try { y.front(); } catch (LRU::Error::EmptyCache&) { e1 = "E"; } catch (std::exception&) { e1 = "?"; }
        try { y.back(); } catch (LRU::Error::EmptyCache&) { e2 = "E"; } catch (std::exception&) { e2 = "?"; }
        NEED(e1 == (M.e.empty() ? "E" : "") && e2 == e1, "C19", "front/back errors");
      }
    } else if (n == "expiry") {
      if constexpr (timed) {
        if (A(1) % 3 == 0) {
          size_t before = M.e.size();
          bool none = before == 0;
          (void)none;
          M.e.erase(std::remove_if(M.e.begin(), M.e.end(), [&](const MEntry& e) { return expired(M, e); }), M.e.end());
          size_t r = x.clear_expired();
          NEED(r == before - M.e.size(), "C17", "clear_expired() returned " + str(r) + ", expected " + str(before - M.e.size()));
        } else if (A(1) % 3 == 1) {
          NEED(!y.has_expired(y.ordered_end()) && !y.has_expired(y.unordered_end()), "C17", "a past-the-end iterator has expired");
          NEED(M.m || !y.has_expired(Key(424242)), "C17", "an absent key has expired");
        }
      }
      // validity of iterators
      for (auto& e : M.e) {
        bool xp = expired(M, e);
        auto u = uit(y, e.k);
        auto o = oit(y, e.k);
        if constexpr (timed) NEED(y.has_expired(u) == xp && y.has_expired(o) == xp, "C17 C16", "has_expired(iterator)");
        NEED(y.is_valid(u) == !xp && y.is_valid(o) == !xp, "C17 C18", "is_valid(iterator)");
        for (int z = 0; z < 2; z++) {
          std::string err;
          try { if (z) y.throw_if_invalid(u); else y.throw_if_invalid(o); }
          catch (LRU::Error::KeyExpired&) { err = "KeyExpired"; }
          catch (std::exception&) { err = "?"; }
          NEED(err == (xp ? "KeyExpired" : ""), "C17 C19", "throw_if_invalid threw '" + err + "'");
        }
      }
      NEED(!y.is_valid(y.unordered_end()) && !y.is_valid(y.ordered_end()), "C18 C17", "a past-the-end iterator is valid");
    } else if (n == "iterate") {
      iterate(s, A(1), int(A(2)));
    } else if (n == "equal") {
      int t = int(A(1)) % N;
      if (m[s].m != 0 || m[t].m != 0) return;
      bool w = m[s].e.size() == m[t].e.size();
      for (size_t i = 0; w && i < m[s].e.size(); i++) {
        auto &p = m[s].e[i], &q = m[t].e[i];
        w = p.k == q.k && Val::cls(p.x) == Val::cls(q.x) && (!timed || p.time == q.time);
      }
      if (w || !timed) {
        bool r = *c[s] == *c[t];
        // information compares the list position as well (see DESIGN.md)
        NEED(r == w, "C22", std::string("== of caches is ") + (r ? "true" : "false"));
        NEED((*c[s] != *c[t]) == !r, "C22", "!= is not the negation of ==");
      } else {
        bool r = *c[s] == *c[t];
        NEED(!r, "C22", "different caches compare equal");
        NEED((*c[s] != *c[t]) == !r, "C22", "!= is not the negation of ==");
      }
    }
  }

  template <class F> static std::string err(F f) {
    try { f(); } catch (LRU::Error::InvalidIterator&) { return "InvalidIterator"; }
    catch (LRU::Error::InvalidIteratorConversion&) { return "InvalidIteratorConversion"; }
    catch (LRU::Error::KeyExpired&) { return "KeyExpired"; }
    catch (std::exception&) { return "?"; }
    return "";
  }

  void iterate(int s, long mode, int v) {
    C& x = *c[s];
    const C& y = x;
    MCache& M = m[s];
    const std::string T = "C18";
    switch (mode % 6) {
      case 0: {   // forwards and backwards
        std::vector<int> f, b;
        for (auto it = x.ordered_begin(); it != x.ordered_end(); it++) f.push_back((*it).first.v());
        for (auto it = x.ordered_end(); it != x.ordered_begin();) { --it; b.push_back(it->first.v()); NEED(it->second.v() == M.e[M.find(it->first.v())].x, T, "value shown"); }
        std::reverse(b.begin(), b.end());
        NEED(f == b && f.size() == M.e.size(), T, "backward iteration differs from forward");
        for (size_t i = 0; i < f.size(); i++) NEED(f[i] == M.e[i].k, T + " C04", "ordered iteration order");
        size_t n = 0;
        for (auto it = x.begin(); it != x.end(); it++) n++;
        for (auto it = y.cbegin(); it != y.cend(); ++it) n++;
        for (auto it = y.ordered_cend(); it != y.ordered_cbegin(); it--) n++;
        NEED(n == 3 * M.e.size(), T, "iteration count");
        break;
      }
      case 1: {   // conversions and comparisons
        for (auto& e : M.e) {
          auto u = uit(x, e.k);
          auto cu = uit(y, e.k);
          bool pre = v & 1;
          if (pre) { (void)u->second; (void)cu->second; }
          typename C::OrderedIterator o(u);
          typename C::OrderedConstIterator co(cu), co2(u), co3(o);
          NEED(o->first.v() == e.k && o->second.v() == e.x, T, "converted iterator shows another entry");
          NEED(co->first.v() == e.k && co2->first.v() == e.k && co3->second.v() == e.x, T, "converted iterator shows another entry");
          NEED(o == oit(x, e.k) && co == oit(y, e.k), T, "converted iterator denotes another entry");
          NEED(o == u && u == o && !(o != u) && !(u != o), T, "mixed comparison");
          ++o;
          NEED(o != u && !(o == u), T, "mixed comparison");
          if (o != x.ordered_end()) NEED(o->first.v() == M.e[M.find(e.k) + 1].k, T, "increment of a converted iterator");
          typename C::UnorderedConstIterator cu2(u);
          NEED(cu2 == cu && cu2->first.v() == e.k, T, "const conversion");
          ++u;
          if (u != x.unordered_end()) { int kk = u->first.v(); NEED(kk != e.k, T, "an incremented iterator shows the previous entry"); NEED(u->second.v() == M.e[M.find(kk)].x, T, "an incremented iterator shows another entry's value"); }
        }
        NEED(err([&] { typename C::OrderedIterator o(x.unordered_end()); }) == "InvalidIteratorConversion", T + " C19", "conversion of a past-the-end iterator");
        NEED(err([&] { typename C::OrderedConstIterator o(y.unordered_cend()); }) == "InvalidIteratorConversion", T + " C19", "conversion of a past-the-end iterator");
        NEED(x.ordered_end() == x.unordered_end() && x.unordered_end() == x.ordered_end(), T, "past-the-end iterators differ");
        break;
      }
      case 2: {   // key(), value(), entry()
        for (auto& e : M.e) {
          bool xp = expired(M, e);
          std::string w = xp ? "KeyExpired" : "";
          auto u = uit(x, e.k);
          auto o = oit(x, e.k);
          int k = 0, val = 0;
          if (v & 1) { u = uit(x, e.k); o = oit(x, e.k); auto u2 = u; auto o2 = o; u = u2; o = o2; }
          NEED(err([&] { k = u.key().v(); }) == w && (xp || k == e.k), T, "key() of an unordered iterator");
          NEED(err([&] { val = u.value().v(); }) == w && (xp || val == e.x), T, "value() of an unordered iterator");
          NEED(err([&] { k = u.entry().first.v(); }) == w && (xp || k == e.k), T, "entry() of an unordered iterator");
          NEED(err([&] { k = o.key().v(); }) == w && (xp || k == e.k), T, "key() of an ordered iterator");
          NEED(err([&] { val = o.value().v(); }) == w && (xp || val == e.x), T, "value() of an ordered iterator");
          NEED(err([&] { val = o.entry().second.v(); }) == w && (xp || val == e.x), T, "entry() of an ordered iterator");
        }
        auto u = x.unordered_end(); auto o = x.ordered_end(); auto cu = y.unordered_end(); auto co = y.ordered_end();
        const char* w = "InvalidIterator";
        NEED(err([&] { u.key(); }) == w && err([&] { u.value(); }) == w && err([&] { u.entry(); }) == w, T + " C19", "past-the-end unordered iterator");
        NEED(err([&] { o.key(); }) == w && err([&] { o.value(); }) == w && err([&] { o.entry(); }) == w, T + " C19", "past-the-end ordered iterator");
        NEED(err([&] { cu.key(); }) == w && err([&] { cu.value(); }) == w && err([&] { co.key(); }) == w && err([&] { co.value(); }) == w, T + " C19", "past-the-end const iterator");
        break;
      }
      case 3: {   // write through iterators
        if (M.e.empty()) break;
        int j = int(size_t(v) % M.e.size());
        auto u = uit(x, M.e[j].k);
        u->second = Val(v); M.e[j].x = v;
        int l = int(size_t(v / 3) % M.e.size());
        auto o = oit(x, M.e[l].k);
        o->second = Val(v + 1); M.e[l].x = v + 1;
        NEED(uit(y, M.e[l].k)->second.v() == v + 1, T, "assigning through an iterator");
        break;
      }
      case 4: {   // copies, moves, assignments of iterators
        if (M.e.size() < 2) break;
        auto a = uit(x, M.e[0].k), b = uit(x, M.e[1].k);
        (void)(a->first.v() + b->first.v());
        auto cpy = a; NEED(cpy == a && cpy->first.v() == M.e[0].k, T, "a copied iterator");
        a = b; NEED(a == b && a->first.v() == M.e[1].k && a->second.v() == M.e[1].x, T, "an assigned iterator shows another entry");
        auto mv = std::move(cpy); NEED(mv->first.v() == M.e[0].k, T, "a moved iterator");
        a.swap(mv); NEED(a->first.v() == M.e[0].k && mv->first.v() == M.e[1].k, T, "swapped iterators");
        auto p = oit(x, M.e[0].k), q = oit(x, M.e[1].k);
        (void)(p->first.v() + q->first.v());
        auto pc = p; NEED(pc == p && pc->first.v() == M.e[0].k, T, "a copied ordered iterator");
        p = q; NEED(p == q && p->first.v() == M.e[1].k && p->second.v() == M.e[1].x, T, "an assigned ordered iterator shows another entry");
        p = std::move(pc); NEED(p->first.v() == M.e[0].k && p->second.v() == M.e[0].x, T, "a move-assigned ordered iterator");
        ++p; NEED(p->first.v() == M.e[1].k && p == q, T, "an incremented iterator shows another entry");
        auto old = p--; NEED(old->first.v() == M.e[1].k && p->first.v() == M.e[0].k, T, "post-decrement");
        old = p++; NEED(old->first.v() == M.e[0].k && p->first.v() == M.e[1].k, T, "post-increment");
        typename C::UnorderedConstIterator ca = a;
        (void)ca->first.v();
        ca = mv; NEED(ca->first.v() == M.e[1].k, T, "assigning across constness");
        typename C::OrderedConstIterator cp = q;
        NEED(cp->first.v() == M.e[1].k, T, "converting across constness");
        --cp; NEED(cp->first.v() == M.e[0].k && cp->second.v() == M.e[0].x, T, "decrement");
        break;
      }
      case 5: {   // entries as pairs
        for (auto& e : M.e) {
          auto u = uit(x, e.k);
          std::pair<const Key&, Val&> pr = *u;
          NEED(pr.first.v() == e.k && &pr.second == &u->second && u->key().v() == e.k && u->value().v() == e.x, T, "an entry as a pair");
          NEED(*u == std::make_pair(Key(e.k), Val(e.x)) && *u != std::make_pair(Key(e.k), Val(e.x + 2)), T, "comparing entries");
        }
        break;
      }
    }
  }

  void init() {
    for (int i = 0; i < N; i++) {
      c[i] = mk(2500000, size_t(3), Hs(), Eq());
      m[i] = MCache(); m[i].cap = 3; m[i].ttl = mttl(2500000);
    }
  }
  static std::string tagsOf(const std::string& n) {
    static const std::map<std::string, std::string> t = {
      {"find", "C02 C04 C08"}, {"cfind", "C02 C04 C08"}, {"contains", "C02 C04 C08"}, {"lookup", "C02 C04 C08"}, {"clookup", "C02 C04 C08"},
      {"index", "C02 C04 C08"}, {"cindex", "C02 C04 C08"}, {"insert", "C02 C03 C04 C06"}, {"emplace", "C02 C03 C04 C06"}, {"emplacem", "C02 C03 C04 C06"},
      {"emplace3", "C02 C03 C04 C06"}, {"insertalias", "C02 C03 C04 C06 C09"}, {"emplacealias", "C02 C03 C04 C06 C09"},
      {"erase", "C07 C09"}, {"eraseu", "C07 C09"}, {"eraseo", "C07 C09"}, {"clear", "C07 C08"}, {"shrink", "C05"}, {"capacity", "C05"},
      {"bulk", "C06"}, {"assign", "C12"}, {"make", "C12"}, {"copy", "C10"}, {"copyassign", "C10"}, {"destroycopy", "C10 C09"}, {"move", "C11"}, {"moveassign", "C11"},
      {"swap", "C11"}, {"monitor", "C13 C14"}, {"stop", "C13"}, {"stats", "C14"}, {"callback", "C15"}, {"clearcb", "C15"}, {"expiry", "C17"}, {"iterate", "C18"},
      {"equal", "C22"}, {"ends", "C19"}, {"sleep", "C16"}};
    auto i = t.find(n);
    return i == t.end() ? "" : i->second;
  }
  // A divergence found by a comparison belongs to every kind of operation done
  // since the last full comparison.
  void run(const Script& sc) {
    g_now = 1000000; g_tick = 0; g_calls.clear();
    init();
    std::set<std::string> since;
    size_t idx = 0;
    for (auto& op : sc.ops) {
      if (g_at) *g_at = int(idx);
      idx++;
      since.insert(op.name);
      want.clear(); g_calls.clear();
      std::string tags;
      if (op.name == "look") {
        for (auto& n : since) tags += tagsOf(n) + " ";
        for (int i = 0; i < N; i++) compare(i, true, tags);
        since.clear();
        continue;
      }
      step(op);
      NEED(want == g_calls, "C15 " + (op.name == "copy" ? std::string("C10") : std::string()), "callbacks called by " + op.name + ": " + str(g_calls.size()) + ", expected " + str(want.size()) + describe());
      tags = tagsOf(op.name);
      for (int i = 0; i < N; i++) compare(i, false, tags);
      pruneHeld();
      checkHeld();
    }
    std::string tags;
    for (auto& n : since) tags += tagsOf(n) + " ";
    for (int i = 0; i < N; i++) compare(i, true, tags);
  }
  std::string describe() {
    std::string r;
    for (auto& x : g_calls) r += " got(" + str(x.kind) + "," + str(x.id) + "," + str(x.key) + "," + str(x.val) + ")";
    for (auto& x : want) r += " want(" + str(x.kind) + "," + str(x.id) + "," + str(x.key) + "," + str(x.val) + ")";
    return r;
  }
};

void exec_cache(const Script&);
void exec_timed(const Script&);
void exec_timedi(const Script&);
#if PART == 1
void exec_cache(const Script& s) { World<CacheU> w; w.run(s); }
#elif PART == 2
void exec_timed(const Script& s) { World<CacheT> w; w.run(s); }
#elif PART == 3
void exec_timedi(const Script& s) { World<CacheI> w; w.run(s); }
#else

// ------------------------------------------------------------------ wrap
struct WrapWorld {
  // model of one wrapper: caches by signature
  struct MW { int fn; bool timed; size_t cap; double ttl; std::map<std::string, std::vector<std::tuple<std::string, long, long>>> mem; };
  static long& calls() { static long n = 0; return n; }
  struct Boom {};
  static bool& thrower() { static bool t = false; return t; }
  static void called() { calls()++; if (thrower()) { thrower() = false; throw Boom{}; } }
  static int fadd(int x, int y) { called(); return x * 31 + y; }
  static int fsub(int x, int y) { called(); return x * 31 - y; }
  struct Poly {
    int k;
    long operator()(std::string s) const { called(); std::string own = std::move(s); long r = k; for (char c : own) r = r * 3 + c; return r; }   // takes its argument
    // another type of result for arguments passed differently
    std::string operator()(std::bitset<64>& x) const { called(); return std::string(30, 'c') + str(x.to_ulong() * 5 + k); }
    long operator()(std::bitset<64>&& x) const { called(); return long(x.to_ulong()) * 7 + k; }
    template <class... T> long operator()(T... t) const { called(); long r = k; using X = int[]; (void)X{0, (r = r * 131 + long(t) * 7, 0)...}; return r; }
  };
  void run(const Script& sc) {
    g_now = 1000000; g_tick = 0;
    using D = std::chrono::milliseconds;
    auto mkplain = [](size_t n) { return LRU::wrap(fadd, n); };
    auto mkpoly = [](int k, size_t n) { return LRU::wrap(Poly{k}, n); };
    auto mktimed = [](int k, long ms, size_t n) { return LRU::timed_wrap(Poly{k}, D(ms), n); };
    using WP = decltype(mkplain(1));
    using WQ = decltype(mkpoly(1, 1));
    using WT = decltype(mktimed(1, 1, 1));
    std::vector<std::unique_ptr<WP>> wp; std::vector<std::unique_ptr<WQ>> wq; std::vector<std::unique_ptr<WT>> wt;
    struct Mem { size_t cap; double ttl; bool timed; std::map<std::string, std::vector<std::tuple<std::vector<long>, long>>> m; };
    std::vector<Mem> mp, mq, mt;
    std::vector<int (*)(int, int)> fp; std::vector<int> kq, kt;
    auto model = [&](Mem& M, const std::string& sig, const std::vector<long>& key) {   // expected number of calls
      auto& v = M.m[sig];
      for (size_t i = 0; i < v.size(); i++)
        if (std::get<0>(v[i]) == key) {
          bool ex = M.timed && std::chrono::duration<double, std::milli>(std::chrono::nanoseconds(g_now - std::get<1>(v[i]))).count() > M.ttl;
          auto e = v[i];
          v.erase(v.begin() + long(i));
          if (ex) { std::get<1>(e) = g_now; v.push_back(e); return 1; }
          v.push_back(e);
          return 0;
        }
      if (M.cap) { if (v.size() >= M.cap) v.erase(v.begin()); v.emplace_back(key, g_now); }
      return 1;
    };
    size_t idx = 0;
    for (auto& op : sc.ops) {
      if (g_at) *g_at = int(idx);
      idx++;
      auto A = [&](size_t i) { return i < op.a.size() ? op.a[i] : 0L; };
      if (op.name == "sleep") { g_now += A(0); continue; }
      if (op.name == "wnew") {
        size_t cap = size_t(A(1));
        switch (A(0) % 3) {
          case 0: {
            auto f = A(2) & 1 ? fadd : fsub;
            wp.push_back(std::make_unique<WP>(LRU::wrap(f, cap))); mp.push_back({cap, 0, false, {}}); fp.push_back(f); break;
          }
          case 1: wq.push_back(std::make_unique<WQ>(mkpoly(int(A(2)), cap))); mq.push_back({cap, 0, false, {}}); kq.push_back(int(A(2))); break;
          case 2: wt.push_back(std::make_unique<WT>(mktimed(int(A(2)), A(3), cap))); mt.push_back({cap, double(A(3)), true, {}}); kt.push_back(int(A(2))); break;
        }
        // use up stack that dangling references could point into
        volatile char fill[2048]; for (auto& b : fill) b = 0x5a;
        continue;
      }
      if (op.name == "wcall") {
        long c0 = calls();
        long r = 0, w = 0; int n = 0;
        int a = int(A(2)), b = int(A(3));
        Mem* used = nullptr; Mem before;
        auto note = [&](Mem& M) { used = &M; before = M; };
        thrower() = A(6);
        try {
        if (A(0) % 3 == 0) {
          if (wp.empty()) { thrower() = false; continue; }
          size_t i = size_t(A(1)) % wp.size();
          note(mp[i]);
          n = model(mp[i], "ii", {a, b});
          r = (*wp[i])(a, b); long c1 = calls(); thrower() = false; w = fp[i](a, b); calls() = c1;
        } else {
          bool T = A(0) % 3 == 2;
          if (T ? wt.empty() : wq.empty()) { thrower() = false; continue; }
          size_t i = size_t(A(1)) % (T ? wt.size() : wq.size());
          Mem& M = T ? mt[i] : mq[i];
          note(M);
          Poly p{T ? kt[i] : kq[i]};
          auto call = [&](auto... t) {
            r = T ? (*wt[i])(t...) : (*wq[i])(t...);
            long c1 = calls(); thrower() = false; w = p(t...); calls() = c1;
          };
          switch (A(4) % 7) {
            case 0: n = model(M, "", {}); call(); break;
            case 1: n = model(M, "i", {a}); call(a); break;
            case 2: n = model(M, "ii", {a, b}); call(a, b); break;
            case 3: n = model(M, "il", {a, b}); call(a, long(b)); break;
            case 4: n = model(M, "lii", {a, b, a}); call(long(a), b, a); break;
            case 5: {
              auto arg = [&] { return std::string(size_t(20 + a), char('a' + b)); };
              n = model(M, "s", {a, b});
              if (A(5)) { const std::string x = arg(); r = T ? (*wt[i])(x) : (*wq[i])(x); }
              else r = T ? (*wt[i])(arg()) : (*wq[i])(arg());
              long c1 = calls(); thrower() = false; w = p(arg()); calls() = c1;
              break;
            }
            case 6: {
              std::bitset<64> x(static_cast<unsigned long>(a));
              n = model(M, A(5) ? "b&" : "b", {a});
              long c1 = 0;
              if (A(5)) {
                std::string got = T ? (*wt[i])(x) : (*wq[i])(x);
                c1 = calls();
                thrower() = false;
                r = got != p(x);
                w = 0;
              } else {
                r = T ? (*wt[i])(std::bitset<64>(x)) : (*wq[i])(std::bitset<64>(x));
                c1 = calls();
                thrower() = false;
                w = p(std::bitset<64>(x));
              }
              calls() = c1;
              break;
            }
          }
        }
        } catch (Boom&) {
          // nothing is remembered of a call that threw
          NEED(n == 1 && used, "C20", "a call that needs no computation threw");
          *used = before;
          r = w;
        }
        thrower() = false;
        NEED(r == w, "C20", "a wrapped function returned " + str(r) + ", the original returns " + str(w));
        NEED(calls() - c0 == n, "C20", "a wrapped call made " + str(calls() - c0) + " calls of the original, expected " + str(n));
        continue;
      }
      if (op.name == "wrec") {
        // an original that calls its own wrapper
        std::function<long(long)> self;
        auto fib = [&](long k) -> long { return k < 2 ? k : self(k - 1) + self(k - 2) * 3; };
        std::vector<long> want{0, 1};
        long top = 2 + A(0);
        for (long k = 2; k <= top; k++) want.push_back(want[size_t(k - 1)] + want[size_t(k - 2)] * 3);
        auto f = LRU::wrap(fib, size_t(A(1)));
        auto g = LRU::timed_wrap(fib, D(A(2)), size_t(A(1)));
        for (int round = 0; round < 2; round++) {
          self = [&](long k) { return f(k); };
          for (long k : {top, A(3) % (top + 1)}) NEED(f(k) == want[size_t(k)], "C20", "a recursive wrapped function returned another result");
          self = [&](long k) { return g(k); };
          for (long k : {top, A(3) % (top + 1)}) NEED(g(k) == want[size_t(k)], "C20", "a recursive timed wrapped function returned another result");
        }
        continue;
      }
      if (op.name == "hash") {
        auto h = [](auto t) { return std::hash<decltype(t)>{}(t); };
        int a = int(A(0)), b = int(A(1)), c = int(A(2));
        volatile char fill[1024]; for (auto& z : fill) z = char(a);
        auto t1 = std::make_tuple(a, b, long(c)), t2 = std::make_tuple(a, b, long(c));
        NEED(h(t1) == h(t2) && h(t1) == h(t1), "C21", "equal tuples hash differently");
        NEED(h(std::make_tuple()) == 0, "C21", "the empty tuple's hash");
        NEED(h(std::make_tuple(std::make_tuple(a), b)) == h(std::make_tuple(std::make_tuple(a), b)), "C21", "nested tuples");
        // for a single element, the element's hash must matter; adjacent values hash apart
        NEED(h(std::make_tuple(a)) != h(std::make_tuple(a + 1)), "C21", "a tuple's hash ignores its element");
        NEED(h(std::make_tuple(a, b)) != h(std::make_tuple(a + 1, b)), "C21", "a tuple's hash ignores its first element");
        bool any = false, any3 = false;
        for (int d = 1; d <= 512 && !(any && any3); d <<= 1) {
          any = any || h(std::make_tuple(a, b)) != h(std::make_tuple(a, b + d));
          any3 = any3 || h(std::make_tuple(a, b, c)) != h(std::make_tuple(a, b, c + d));
        }
        NEED(any && any3, "C21", "a tuple's hash ignores its last element");
        for (int d = 0; d < 63; d++) {
          long l = c + long(a) * 1048576L;
          NEED(h(std::make_tuple(l)) != h(std::make_tuple(l ^ (1L << d))), "C21", "a tuple's hash ignores bit " + str(d) + " of its element's hash");
          bool some = false;
          for (int e = 0; e < 8 && !some; e++) some = h(std::make_tuple(a + e, l * (e + 1))) != h(std::make_tuple(a + e, (l * (e + 1)) ^ (1L << d)));
          NEED(some, "C21", "a tuple's hash ignores bit " + str(d) + " of its last element's hash");
        }
        std::string s1 = "ab" + str(a), s2 = "ab" + str(a);
        NEED(h(std::make_tuple(s1, b)) == h(std::make_tuple(s2, b)), "C21", "tuples of strings");
        // long tuples: every position matters
        auto wide = [&](const std::array<long, 20>& e) { return std::apply([&](auto... x) { return h(std::make_tuple(x...)); }, e); };
        std::array<long, 20> e;
        std::mt19937_64 mix(a * 31 + b);
        for (auto& x : e) x = long(mix());
        size_t whole = wide(e);
        NEED(whole == wide(e), "C21", "equal tuples hash differently");
        for (size_t i = 0; i < e.size(); i++) {
          bool some = false;
          for (int d = 0; d < 40 && !some; d++) { auto f = e; f[i] = long(mix()); some = wide(f) != whole; }
          NEED(some, "C21", "a tuple's hash ignores element " + str(i) + " of 20");
        }
      }
    }
  }
};

// ------------------------------------------------------------------ generation
struct Gen {
  std::mt19937_64 r;
  explicit Gen(uint64_t s) : r(s) {}
  long in(long a, long b) { return a + long(r() % uint64_t(b - a + 1)); }
  Script wrap() {
    Script s; s.kind = "wrap";
    int n = int(in(3, 25));
    for (int i = 0; i < 2; i++) s.ops.push_back({"wnew", {in(0, 2), in(0, 29) ? in(0, 3) : -1L, in(0, 3), in(0, 4)}});
    for (int i = 0; i < n; i++) {
      switch (in(0, 10)) {
        case 10: s.ops.push_back({"wrec", {in(0, 8), in(0, 9) ? in(0, 4) : -1L, in(0, 1) * 1000, in(0, 10)}}); break;
        case 0: s.ops.push_back({"wnew", {in(0, 2), in(0, 29) ? in(0, 3) : -1L, in(0, 3), in(0, 4)}}); break;
        case 1: s.ops.push_back({"sleep", {in(0, 3) * 1000000 + in(0, 1)}}); break;
        case 2: s.ops.push_back({"hash", {in(-3, 300), in(-3, 300), in(-3, 3)}}); break;
        default: s.ops.push_back({"wcall", {in(0, 2), in(0, 3), in(0, 2), in(0, 2), in(0, 6), in(0, 1), in(0, 4) == 0}});
      }
    }
    return s;
  }
  Script cache() {
    Script s;
    int kd = int(in(0, 4));
    s.kind = kd < 2 ? "cache" : kd < 4 ? "timed" : "timedi";
    bool large = in(0, 19) == 0;       // many entries, few operations
    int nk = large ? int(in(20, 250)) : int(in(2, 7));
    int big = large ? nk : 0;
    int len = int(in(0, 9) == 0 && !large ? in(30, 80) : in(2, 22));
    int focus = int(in(0, 9));
    auto key = [&] { return in(0, nk); };
    auto slot = [&] { return in(0, 9) < 7 ? 0L : in(0, 2); };
    auto tagv = [&] { return in(1, 90); };
    auto capv = [&](int hi) { return in(0, 29) == 0 ? -1L : in(0, hi + big); };   // -1: the largest capacity there is
    auto plist = [&](std::vector<long> a, int lo = 0) { int n = int(in(lo, 5 + big)); for (int i = 0; i < n; i++) { a.push_back(key()); a.push_back(in(0, 99)); } return a; };
    auto val = [&] { return in(0, 3) ? in(0, 99) : in(70, 71); };
    long ttl = in(0, 5) == 0 ? 0 : in(0, 4) * 1000000 + (in(0, 1) ? 500000 : 0);
    bool cust = in(0, 4) == 0;
    for (int i = 0; i < 3; i++)
      if (in(0, 2)) s.ops.push_back({"make", {long(i), 0, cust ? in(2, 4) : 0, capv(4), ttl}});
    if (in(0, 2) == 0) s.ops.push_back({"callback", {0, in(0, 2)}});
    if (in(0, 2) == 0) s.ops.push_back({"monitor", {0, in(0, 4), key(), key()}});
    for (int i = 0; i < len; i++) {
      int what = int(in(0, 99));
      if (large && what < 40) what = int(in(55, 65));
      if (focus == 0 && what >= 80) what = int(in(66, 73));
      long sl = slot();
      static const char* L[] = {"find", "cfind", "contains", "lookup", "clookup", "index", "cindex"};
      static const char* I[] = {"insert", "insert", "emplace", "emplacem", "emplace3", "insertalias", "emplacealias"};
      if (what < 22) s.ops.push_back({L[in(0, 6)], {sl, key(), in(0, 5) == 0 ? 1L : 0L}});
      else if (what < 46) s.ops.push_back({I[in(0, 6)], {sl, key(), val(), tagv(), in(0, 3)}});
      else if (what < 50) s.ops.push_back({"erase", {sl, key(), in(0, 1)}});
      else if (what < 54) s.ops.push_back({in(0, 1) ? "eraseu" : "eraseo", {sl, in(0, 9), in(0, 7)}});
      else if (what < 55) s.ops.push_back({"clear", {sl}});
      else if (what < 57) s.ops.push_back({"shrink", {sl, capv(4)}});
      else if (what < 59) s.ops.push_back({"capacity", {sl, capv(5)}});
      else if (what < 62) s.ops.push_back({"bulk", plist({sl, in(0, 5)})});
      else if (what < 64) s.ops.push_back({"assign", plist({sl, in(0, 3)})});
      else if (what < 66) s.ops.push_back({"make", plist({sl, in(0, 8), cust ? in(2, 4) : 0, capv(4), ttl})});
      else if (what < 74) {
        static const char* Q[] = {"copy", "copyassign", "move", "moveassign", "swap", "destroycopy"};
        s.ops.push_back({Q[in(0, 5)], {in(0, 2), in(0, 2), in(0, 1)}});
      } else if (what < 76) s.ops.push_back({"monitor", {sl, in(0, 4), in(0, 2), key()}});
      else if (what < 77) s.ops.push_back({"stop", {sl}});
      else if (what < 79) s.ops.push_back({"stats", {sl, in(0, 7), key()}});
      else if (what < 81) s.ops.push_back({"callback", {sl, in(0, 2)}});
      else if (what < 82) s.ops.push_back({"clearcb", {sl, in(0, 3)}});
      else if (what < 87) s.ops.push_back({"sleep", {0, in(0, 3) * 1000000 + (in(0, 1) ? 500000 : 0) + in(-1, 1) + 1}});
      else if (what < 90) s.ops.push_back({"expiry", {sl, in(0, 2)}});
      else if (what < 93) s.ops.push_back({"iterate", {sl, in(0, 5), in(0, 99)}});
      else if (what < 95) s.ops.push_back({"equal", {in(0, 2), in(0, 2)}});
      else if (what < 96) s.ops.push_back({"ends", {sl}});
      else s.ops.push_back({"look", {0}});
    }
    return s;
  }
  Script make() { return in(0, 11) == 0 ? wrap() : cache(); }
};

static std::string text(const Script& s) {
  std::ostringstream o;
  o << s.kind << "\n";
  for (auto& op : s.ops) { o << op.name; for (long x : op.a) o << ' ' << x; o << "\n"; }
  return o.str();
}
static Script parse(std::istream& in) {
  Script s;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w; l >> w;
    if (s.kind.empty()) { s.kind = w; continue; }
    Op op; op.name = w;
    for (long x; l >> x;) op.a.push_back(x);
    s.ops.push_back(op);
  }
  return s;
}
static void exec(const Script& s) {
  if (s.kind == "wrap") { WrapWorld w; w.run(s); }
  else if (s.kind == "cache") exec_cache(s);
  else if (s.kind == "timed") exec_timed(s);
  else exec_timedi(s);
}
static int report(const Diverged& d, int at) {
  std::set<std::string> t;
  std::istringstream l(d.tags);
  for (std::string x; l >> x;) t.insert(x);
  printf("DIVERGENCE at operation %d\nTAGS", at);
  for (auto& x : t) printf(" %s", x.c_str());
  printf("\nWHAT %s\n", d.what.c_str());
  fflush(stdout);
  return 3;
}

int main(int argc, char** argv) {
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    alarm(20);
    FILE* f = fopen(argv[2], "r");
    if (!f) return 9;
    std::string s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    std::istringstream in(s);
    Script sc = parse(in);
    static int at = 0; g_at = &at;
    try { exec(sc); } catch (Diverged& d) { return report(d, at); }
    catch (std::exception& e) { return report({std::string("unexpected exception ") + e.what(), "C19"}, at); }
    printf("OK %zu operations\n", sc.ops.size());
    return 0;
  }
  if (argc < 5) return 9;
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  double secs = atof(argv[3]);
  // shared page: current operation and script text, so that the parent can
  // reproduce a crash
  int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
  const size_t SZ = 1 << 16;
  if (fd < 0 || ftruncate(fd, SZ)) return 9;
  char* mem = static_cast<char*>(mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  g_at = reinterpret_cast<int*>(mem);
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto el = [&] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec); };
  Gen g(seed * 1000003 + 17);
  long scripts = 0, ops = 0, lookups = 0;
  while (el() < secs) {
    Script s = g.make();
    std::string t = text(s);
    if (t.size() + 16 > SZ) continue;
    memcpy(mem + 16, t.c_str(), t.size() + 1);
    alarm(10);
    scripts++; ops += long(s.ops.size());
    try { exec(s); }
    catch (Diverged& d) { int r = report(d, *g_at); printf("COUNT %ld %ld\n", scripts, ops); return r; }
    catch (std::exception& e) { return report({std::string("unexpected exception ") + e.what(), "C19"}, *g_at); }
    alarm(0);
  }
  (void)lookups;
  printf("OK\nCOUNT %ld %ld\n", scripts, ops);
  return 0;
}
#endif
