// Instantiates the library with opaque key, value, hash and equality types.
// Nothing is known about them except their declarations, so what is proved
// about these instantiations is proved for every such type (parametricity).
#include "lru/lru.hpp"

namespace LRUvf {
struct K {
  K(const K&);
  K(K&&);
  K& operator=(const K&);
  K& operator=(K&&);
  ~K();
  friend bool operator==(const K&, const K&);
  friend bool operator!=(const K&, const K&);
};
struct V {
  V(const V&);
  V(V&&);
  V& operator=(const V&);
  V& operator=(V&&);
  ~V();
  friend bool operator==(const V&, const V&);
  friend bool operator!=(const V&, const V&);
};
struct H {
  H();
  std::size_t operator()(const K&) const;
};
struct E {
  E();
  bool operator()(const K&, const K&) const;
};
struct F {
  V operator()() const;
  V operator()(const K&) const;
  V operator()(K&&) const;  // may take what it is given
  V operator()(const K&, const K&) const;
  V operator()(K&&, const K&) const;
};
struct V2 {  // another type of result
  V2();
  V2(const V2&);
  V2(V2&&);
  V2& operator=(const V2&);
  V2& operator=(V2&&);
  ~V2();
  friend bool operator==(const V2&, const V2&);
  friend bool operator!=(const V2&, const V2&);
};
struct F2 {
  V operator()(const K&) const;
  V2 operator()(K&&) const;
};
}  // namespace LRUvf
namespace std {
template <>
struct hash<LRUvf::K> {
  size_t operator()(const LRUvf::K&) const;
};
template <>
struct hash<LRUvf::V> {
  size_t operator()(const LRUvf::V&) const;
};
}  // namespace std

namespace LRUvf {
using Cache = LRU::Cache<K, V, H, E>;
using Timed = LRU::TimedCache<K, V, std::chrono::duration<double, std::milli>, H, E>;
using TimedI = LRU::TimedCache<K, V, std::chrono::milliseconds, H, E>;
using Vec = std::vector<std::pair<K, V>>;
using Stats = LRU::Statistics<K>;
using Hit = std::function<void(const K&, const V&)>;
using Miss = std::function<void(const K&)>;
using Access = std::function<void(const K&, bool)>;
}  // namespace LRUvf

template class LRU::Cache<LRUvf::K, LRUvf::V, LRUvf::H, LRUvf::E>;
template class LRU::TimedCache<LRUvf::K, LRUvf::V, std::chrono::duration<double, std::milli>, LRUvf::H, LRUvf::E>;
template class LRU::TimedCache<LRUvf::K, LRUvf::V, std::chrono::milliseconds, LRUvf::H, LRUvf::E>;
template class LRU::Statistics<LRUvf::K>;
template class LRU::Internal::StatisticsMutator<LRUvf::K>;
template class LRU::Internal::CallbackManager<LRUvf::K, LRUvf::V>;
template struct LRU::Entry<const LRUvf::K, LRUvf::V>;
template struct LRU::Entry<const LRUvf::K, const LRUvf::V>;

namespace LRUvf {
// Uses of member templates, so that they are instantiated.
template <typename C>
void use_common(C& c, const C& cc, C& other, const K& k, const V& v, K&& kr, V&& vr, Vec& vec, const Vec& cvec, Vec&& rvec,
                std::initializer_list<std::pair<K, V>> list, std::shared_ptr<Stats> sp) {
  c.insert(k, v);
  c.insert(vec.begin(), vec.end());
  c.insert(cvec.begin(), cvec.end());
  c.insert(vec);
  c.insert(cvec);
  c.insert(std::move(rvec));
  c.insert(list);
  c.emplace(k, v);
  c.emplace(std::move(kr), std::move(vr));
  c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
  c = vec;
  c = cvec;
  c = std::move(rvec);
  c = list;
  c.monitor();
  c.monitor(k);
  c.monitor(k, k);
  c.monitor(sp);
  c.monitor(std::move(sp));
  Hit h;
  Miss m;
  Access a;
  c.hit_callback(h);
  c.miss_callback(m);
  c.access_callback(a);
  c.hit_callback(std::move(h));
  c.miss_callback(std::move(m));
  c.access_callback(std::move(a));
  swap(c, other);
  C copy(cc);
  C moved(std::move(other));
  copy = cc;
  copy = std::move(moved);
  (void)(c == cc);
  (void)(c != cc);
}

template <typename C>
void use_iterators(C& c, const C& cc, const K& k, const V& v) {
  typename C::UnorderedIterator u = c.unordered_begin();
  typename C::UnorderedConstIterator uc = cc.unordered_begin();
  typename C::UnorderedConstIterator uc2 = u;
  typename C::OrderedIterator o = c.ordered_begin();
  typename C::OrderedConstIterator oc = cc.ordered_begin();
  typename C::OrderedConstIterator oc2 = o;
  typename C::OrderedIterator ou(u);
  typename C::OrderedConstIterator ocu(u);
  typename C::OrderedConstIterator ocuc(uc);
  typename C::UnorderedIterator u_copy(u);
  typename C::UnorderedIterator u_move(std::move(u_copy));
  typename C::OrderedIterator o_copy(o);
  typename C::OrderedIterator o_move(std::move(o_copy));
  u_copy = u;
  u_copy = std::move(u_move);
  o_copy = o;
  o_copy = std::move(o_move);
  uc = u;
  oc = o;
  u.swap(u_copy);
  o.swap(o_copy);
  swap(u, u_copy);
  swap(o, o_copy);
  (void)u.operator->();
  (void)o.operator->();
  (void)uc.operator->();
  (void)oc.operator->();
  (void)(u == u_copy);
  (void)(u != u_copy);
  (void)(uc == uc2);
  (void)(uc != uc2);
  (void)(o == o_copy);
  (void)(o != o_copy);
  (void)(oc == oc2);
  (void)(oc != oc2);
  (void)(o == u);
  (void)(u == o);
  (void)(o != u);
  (void)(u != o);
  (void)(oc == uc);
  (void)(uc == oc);
  (void)(oc != uc);
  (void)(uc != oc);
  ++u; u++; ++uc; uc++; ++o; o++; --o; o--; ++oc; oc++; --oc; oc--;
  (void)*u; (void)u->first; (void)u.entry(); (void)u.key(); (void)u.value();
  (void)*uc; (void)uc->first; (void)uc.entry(); (void)uc.key(); (void)uc.value();
  (void)*o; (void)o->first; (void)o.entry(); (void)o.key(); (void)o.value();
  (void)*oc; (void)oc->first; (void)oc.entry(); (void)oc.key(); (void)oc.value();
  c.erase(u);
  c.erase(uc);
  c.erase(o);
  c.erase(oc);
  std::pair<const K&, V&> p = *u;
  (void)p;
  std::pair<K, V> q(k, v);
  (void)(*u == q);
  (void)(*u != q);
  (void)(q == *u);
  (void)(q != *u);
  (void)c.is_monitoring();
  (void)c.begin(); (void)c.end(); (void)cc.begin(); (void)cc.end(); (void)c.cbegin(); (void)c.cend();
  (void)c.unordered_begin(); (void)c.unordered_end(); (void)cc.unordered_begin(); (void)cc.unordered_end(); (void)c.unordered_cbegin(); (void)c.unordered_cend();
  (void)c.ordered_begin(); (void)c.ordered_end(); (void)cc.ordered_begin(); (void)cc.ordered_end(); (void)c.ordered_cbegin(); (void)c.ordered_cend();
  c.clear_hit_callbacks(); c.clear_miss_callbacks(); c.clear_access_callbacks(); c.clear_all_callbacks();
  (void)c.hit_callbacks(); (void)c.miss_callbacks(); (void)c.access_callbacks();
  (void)c.stats(); (void)cc.stats(); (void)c.shared_stats(); (void)cc.shared_stats();
  (void)c[k]; (void)cc[k]; (void)c.lookup(k); (void)cc.lookup(k); (void)c.find(k); (void)cc.find(k); (void)c.contains(k); c.erase(k);
  (void)c.is_valid(uc); (void)c.is_valid(oc); c.throw_if_invalid(uc); c.throw_if_invalid(oc);
  c.clear(); c.shrink(1); c.capacity(1); (void)c.capacity(); (void)c.size(); (void)c.space_left(); (void)c.is_empty(); (void)c.is_full();
  (void)c.hash_function(); (void)c.key_equal(); (void)C::tag(); c.stop_monitoring();
  const auto result = c.insert(k, v);
  (void)result.was_inserted(); (void)result.iterator(); (void)static_cast<bool>(result);
}

void use_cache(Cache& c, const Cache& cc, Cache& other, const K& k, const V& v, K&& kr, V&& vr, Vec& vec, const Vec& cvec, Vec&& rvec,
               std::initializer_list<std::pair<K, V>> list, std::shared_ptr<Stats> sp, std::size_t n, const H& h, const E& e) {
  use_common(c, cc, other, k, v, std::move(kr), std::move(vr), vec, cvec, std::move(rvec), list, sp);
  use_iterators(c, cc, k, v);
  Cache c1(n, h, e);
  Cache c2(n, vec.begin(), vec.end(), h, e);
  Cache c3(vec.begin(), vec.end(), h, e);
  Cache c4(n, vec, h, e);
  Cache c5(n, cvec, h, e);
  Cache c6(n, std::move(rvec), h, e);
  Cache c7(vec, h, e);
  Cache c8(cvec, h, e);
  Cache c9(std::move(rvec), h, e);
  Cache c10(list, h, e);
  Cache c11(n, list, h, e);
  Cache c12;
}

void use_timed(Timed& c, const Timed& cc, Timed& other, const K& k, const V& v, K&& kr, V&& vr, Vec& vec, const Vec& cvec, Vec&& rvec,
               std::initializer_list<std::pair<K, V>> list, std::shared_ptr<Stats> sp, std::size_t n, const H& h, const E& e) {
  use_common(c, cc, other, k, v, std::move(kr), std::move(vr), vec, cvec, std::move(rvec), list, sp);
  use_iterators(c, cc, k, v);
  using D = std::chrono::duration<double, std::milli>;
  D d(1.0);
  std::chrono::nanoseconds ns(1);
  Timed c0(ns, n, h, e);
  Timed c1(d, n, h, e);
  Timed c2(d, n, vec.begin(), vec.end(), h, e);
  Timed c3(d, vec.begin(), vec.end(), h, e);
  Timed c4(d, n, vec, h, e);
  Timed c5(d, n, cvec, h, e);
  Timed c6(d, n, std::move(rvec), h, e);
  Timed c7(d, vec, h, e);
  Timed c8(d, cvec, h, e);
  Timed c9(d, std::move(rvec), h, e);
  Timed c10(d, list, h, e);
  Timed c11(d, n, list, h, e);
  c.has_expired(k);
  c.has_expired(c.ordered_cbegin());
  c.has_expired(c.unordered_cbegin());
}

void use_timed_int(TimedI& c, const TimedI& cc, TimedI& other, const K& k) {
  TimedI c0(std::chrono::milliseconds(1), std::size_t(1));
  (void)c.find(k);
  (void)cc.find(k);
  c.has_expired(k);
  c.has_expired(c.ordered_cbegin());
}

void use_stats(const K& k, const std::vector<K>& keys, std::initializer_list<K> list) {
  Stats s0;
  Stats s1(k);
  Stats s2(k, k);
  Stats s3(keys);
  Stats s4(keys.begin(), keys.end());
  Stats s5(list);
  s0.reset_all();
}

void use_wrap(F f, const K& k, K& kn, K&& kr, std::size_t n, const std::size_t& nc) {
  auto w = LRU::wrap(f, n);
  w();
  w(k);
  w(kn);
  w(std::move(kr));
  w(std::move(kr), k);
  w(k, k);
  auto w0 = LRU::wrap(f);
  w0(k);
  w0(k, k);
  auto w1 = LRU::wrap(f, nc);
  w1(k);
  auto w2 = LRU::wrap(f, std::size_t(7));
  w2(k);
}
void use_wrap_mixed(F2 f, const K& k, K&& kr) {
  auto w = LRU::wrap(f);
  w(k);
  w(std::move(kr));
}
void use_timed_wrap(F f, const K& k, K&& kr, std::chrono::milliseconds ms, std::chrono::duration<double> sec, std::size_t n) {
  auto w = LRU::timed_wrap(f, ms, n);
  w();
  w(k);
  w(std::move(kr));
  w(k, k);
  auto w0 = LRU::timed_wrap(f, sec);
  w0(k);
}

// What a caller writes, for every way of passing the cache and the arguments:
// each function is one use of the public interface, and must satisfy the
// contract of the operation it names, whichever overload the call resolves to.
template <typename C>
struct Client {
  using U = typename C::UnorderedIterator;
  using UC = typename C::UnorderedConstIterator;
  using O = typename C::OrderedIterator;
  using OC = typename C::OrderedConstIterator;
  using List = std::initializer_list<std::pair<K, V>>;
  using It = typename Vec::iterator;
  using CIt = typename Vec::const_iterator;
  using Ptr = const std::pair<K, V>*;

  static decltype(auto) find(C& c, const K& k) { return c.find(k); }
  static decltype(auto) find(C& c, K& k) { return c.find(k); }
  static decltype(auto) find(C& c, K&& k) { return c.find(std::move(k)); }
  static decltype(auto) find(const C& c, const K& k) { return c.find(k); }
  static decltype(auto) find(const C& c, K& k) { return c.find(k); }
  static decltype(auto) contains(C& c, const K& k) { return c.contains(k); }
  static decltype(auto) contains(C& c, K& k) { return c.contains(k); }
  static decltype(auto) contains(const C& c, const K& k) { return c.contains(k); }
  static decltype(auto) lookup(C& c, const K& k) { return c.lookup(k); }
  static decltype(auto) lookup(C& c, K& k) { return c.lookup(k); }
  static decltype(auto) lookup(const C& c, const K& k) { return c.lookup(k); }
  static decltype(auto) lookup(const C& c, K& k) { return c.lookup(k); }
  static decltype(auto) index(C& c, const K& k) { return c[k]; }
  static decltype(auto) index(C& c, K& k) { return c[k]; }
  static decltype(auto) index(const C& c, const K& k) { return c[k]; }
  static decltype(auto) index(const C& c, K& k) { return c[k]; }
  static decltype(auto) erase(C& c, const K& k) { return c.erase(k); }
  static decltype(auto) erase(C& c, K& k) { return c.erase(k); }
  static decltype(auto) erase(C& c, K&& k) { return c.erase(std::move(k)); }
  static decltype(auto) erase(C& c, U& i) { c.erase(i); }
  static decltype(auto) erase(C& c, UC& i) { c.erase(i); }
  static decltype(auto) erase(C& c, O& i) { c.erase(i); }
  static decltype(auto) erase(C& c, OC& i) { c.erase(i); }
  static decltype(auto) erase(C& c, const U& i) { c.erase(i); }
  static decltype(auto) erase(C& c, const O& i) { c.erase(i); }
  static decltype(auto) is_valid(const C& c, U& i) { return c.is_valid(i); }
  static decltype(auto) is_valid(const C& c, UC& i) { return c.is_valid(i); }
  static decltype(auto) is_valid(const C& c, O& i) { return c.is_valid(i); }
  static decltype(auto) is_valid(const C& c, OC& i) { return c.is_valid(i); }
  static decltype(auto) is_valid(C& c, const UC& i) { return c.is_valid(i); }
  static decltype(auto) throw_if_invalid(const C& c, U& i) { c.throw_if_invalid(i); }
  static decltype(auto) throw_if_invalid(const C& c, UC& i) { c.throw_if_invalid(i); }
  static decltype(auto) throw_if_invalid(const C& c, O& i) { c.throw_if_invalid(i); }
  static decltype(auto) throw_if_invalid(const C& c, OC& i) { c.throw_if_invalid(i); }

  static decltype(auto) insert(C& c, const K& k, const V& v) { return c.insert(k, v); }
  static decltype(auto) insert(C& c, K& k, V& v) { return c.insert(k, v); }
  static decltype(auto) insert(C& c, K&& k, V&& v) { return c.insert(std::move(k), std::move(v)); }
  static decltype(auto) insert(C& c, const K& k, V&& v) { return c.insert(k, std::move(v)); }
  static decltype(auto) emplace(C& c, const K& k, const V& v) { return c.emplace(k, v); }
  static decltype(auto) emplace(C& c, K& k, V& v) { return c.emplace(k, v); }
  static decltype(auto) emplace(C& c, K&& k, V&& v) { return c.emplace(std::move(k), std::move(v)); }
  static decltype(auto) emplace(C& c, const K& k, V&& v) { return c.emplace(k, std::move(v)); }
  static decltype(auto) emplace(C& c, K&& k, const V& v) { return c.emplace(std::move(k), v); }
  static decltype(auto) insert(C& c, Vec& v) { return c.insert(v); }
  static decltype(auto) insert(C& c, const Vec& v) { return c.insert(v); }
  static decltype(auto) insert(C& c, Vec&& v) { return c.insert(std::move(v)); }
  static decltype(auto) insert(C& c, List v) { return c.insert(v); }
  static decltype(auto) insert(C& c, It b, It e) { return c.insert(b, e); }
  static decltype(auto) insert(C& c, CIt b, CIt e) { return c.insert(b, e); }
  static decltype(auto) insert(C& c, Ptr b, Ptr e) { return c.insert(b, e); }

  static decltype(auto) assign(C& c, Vec& v) { return c = v; }
  static decltype(auto) assign(C& c, const Vec& v) { return c = v; }
  static decltype(auto) assign(C& c, Vec&& v) { return c = std::move(v); }
  static decltype(auto) assign(C& c, List v) { return c = v; }
  static decltype(auto) assign(C& c, C& o) { return c = o; }
  static decltype(auto) assign(C& c, const C& o) { return c = o; }
  static decltype(auto) assign(C& c, C&& o) { return c = std::move(o); }
  static decltype(auto) swap(C& c, C& o) { using std::swap; swap(c, o); }
  static decltype(auto) eq(C& c, C& o) { return c == o; }
  static decltype(auto) eq(const C& c, const C& o) { return c == o; }
  static decltype(auto) ne(C& c, C& o) { return c != o; }
  static decltype(auto) ne(const C& c, const C& o) { return c != o; }
  static C copy(C& o) { return C(o); }
  static C copy(const C& o) { return C(o); }
  static C copy(C&& o) { return C(std::move(o)); }

  static decltype(auto) capacity(C& c, std::size_t n) { c.capacity(n); }
  static decltype(auto) shrink(C& c, std::size_t n) { c.shrink(n); }
  static decltype(auto) clear(C& c) { c.clear(); }
  static decltype(auto) capacity(C& c) { return c.capacity(); }
  static decltype(auto) capacity(const C& c) { return c.capacity(); }
  static decltype(auto) size(C& c) { return c.size(); }
  static decltype(auto) space_left(C& c) { return c.space_left(); }
  static decltype(auto) is_empty(C& c) { return c.is_empty(); }
  static decltype(auto) is_full(C& c) { return c.is_full(); }
  static decltype(auto) monitor(C& c) { c.monitor(); }
  static decltype(auto) monitor(C& c, K& k) { c.monitor(k); }
  static decltype(auto) monitor(C& c, const K& k) { c.monitor(k); }
  static decltype(auto) monitor(C& c, K& k, const K& l) { c.monitor(k, l); }
  static decltype(auto) monitor(C& c, std::shared_ptr<Stats>& p) { c.monitor(p); }
  static decltype(auto) monitor(C& c, const std::shared_ptr<Stats>& p) { c.monitor(p); }
  static decltype(auto) monitor(C& c, std::shared_ptr<Stats>&& p) { c.monitor(std::move(p)); }
  static decltype(auto) stats(C& c) { return c.stats(); }
  static decltype(auto) stats(const C& c) { return c.stats(); }
  static decltype(auto) shared_stats(C& c) { return c.shared_stats(); }
  static decltype(auto) shared_stats(const C& c) { return c.shared_stats(); }
  static decltype(auto) hit_callback(C& c, Hit& f) { c.hit_callback(f); }
  static decltype(auto) hit_callback(C& c, const Hit& f) { c.hit_callback(f); }
  static decltype(auto) hit_callback(C& c, Hit&& f) { c.hit_callback(std::move(f)); }
  static decltype(auto) miss_callback(C& c, Miss& f) { c.miss_callback(f); }
  static decltype(auto) miss_callback(C& c, Miss&& f) { c.miss_callback(std::move(f)); }
  static decltype(auto) access_callback(C& c, Access& f) { c.access_callback(f); }
  static decltype(auto) access_callback(C& c, Access&& f) { c.access_callback(std::move(f)); }
};

template <typename C>
struct CacheClient : Client<C> {
  using typename Client<C>::It;
  using typename Client<C>::List;
  static decltype(auto) front(const C& c) { return c.front(); }
  static decltype(auto) back(const C& c) { return c.back(); }
  static decltype(auto) front(C& c) { return c.front(); }
  static decltype(auto) back(C& c) { return c.back(); }
  static C make(std::size_t n, const H& h, const E& e) { return C(n, h, e); }
  static C make(std::size_t n, Vec& v, const H& h, const E& e) { return C(n, v, h, e); }
  static C make(std::size_t n, const Vec& v, const H& h, const E& e) { return C(n, v, h, e); }
  static C make(std::size_t n, Vec&& v, const H& h, const E& e) { return C(n, std::move(v), h, e); }
  static C make(std::size_t n, List v, const H& h, const E& e) { return C(n, v, h, e); }
  static C make(Vec& v, const H& h, const E& e) { return C(v, h, e); }
  static C make(const Vec& v, const H& h, const E& e) { return C(v, h, e); }
  static C make(Vec&& v, const H& h, const E& e) { return C(std::move(v), h, e); }
  static C make(List v, const H& h, const E& e) { return C(v, h, e); }
  static C make(std::size_t n, It b, It l, const H& h, const E& e) { return C(n, b, l, h, e); }
  static C make(It b, It l, const H& h, const E& e) { return C(b, l, h, e); }
};

template <typename C>
struct TimedClient : Client<C> {
  using typename Client<C>::It;
  using typename Client<C>::List;
  using typename Client<C>::U;
  using typename Client<C>::UC;
  using typename Client<C>::O;
  using typename Client<C>::OC;
  using D = std::chrono::duration<double, std::milli>;
  static decltype(auto) has_expired(const C& c, const K& k) { return c.has_expired(k); }
  static decltype(auto) has_expired(C& c, K& k) { return c.has_expired(k); }
  static decltype(auto) has_expired(const C& c, U& i) { return c.has_expired(i); }
  static decltype(auto) has_expired(const C& c, UC& i) { return c.has_expired(i); }
  static decltype(auto) has_expired(const C& c, O& i) { return c.has_expired(i); }
  static decltype(auto) has_expired(const C& c, OC& i) { return c.has_expired(i); }
  static decltype(auto) clear_expired(C& c) { return c.clear_expired(); }
  static decltype(auto) all_expired(C& c) { return c.all_expired(); }
  static C make(D d, std::size_t n, const H& h, const E& e) { return C(d, n, h, e); }
  static C make(D d, std::size_t n, Vec& v, const H& h, const E& e) { return C(d, n, v, h, e); }
  static C make(D d, std::size_t n, const Vec& v, const H& h, const E& e) { return C(d, n, v, h, e); }
  static C make(D d, std::size_t n, Vec&& v, const H& h, const E& e) { return C(d, n, std::move(v), h, e); }
  static C make(D d, std::size_t n, List v, const H& h, const E& e) { return C(d, n, v, h, e); }
  static C make(D d, Vec& v, const H& h, const E& e) { return C(d, v, h, e); }
  static C make(D d, const Vec& v, const H& h, const E& e) { return C(d, v, h, e); }
  static C make(D d, Vec&& v, const H& h, const E& e) { return C(d, std::move(v), h, e); }
  static C make(D d, List v, const H& h, const E& e) { return C(d, v, h, e); }
  static C make(D d, std::size_t n, It b, It l, const H& h, const E& e) { return C(d, n, b, l, h, e); }
  static C make(D d, It b, It l, const H& h, const E& e) { return C(d, b, l, h, e); }
};
template struct Client<Cache>;
template struct Client<Timed>;
template struct CacheClient<Cache>;
template struct TimedClient<Timed>;

std::size_t use_hash(const std::tuple<K>& t1, const std::tuple<K, V>& t2, const std::tuple<K, K, K>& t3, const std::tuple<V, K, K, V, K, K>& t6,
                     const std::tuple<std::tuple<K, K>, K>& tn, const std::tuple<>& t0,
                     const std::tuple<K, V, K, K, V, K, K, K, V, K, K, K, K, V, V, K, K, V, K, K>& t20) {
  return std::hash<std::tuple<K>>{}(t1) + std::hash<std::tuple<K, K, K>>{}(t3) + std::hash<std::tuple<>>{}(t0) + std::hash<std::tuple<K, V>>{}(t2) +
         std::hash<std::tuple<V, K, K, V, K, K>>{}(t6) + std::hash<std::tuple<std::tuple<K, K>, K>>{}(tn) +
         std::hash<std::tuple<K, V, K, K, V, K, K, K, V, K, K, K, K, V, V, K, K, V, K, K>>{}(t20);
}
}  // namespace LRUvf
