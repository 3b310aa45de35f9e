// Vectors of two to four components
#include "common.hpp"
#include "datas/endian.hpp"
#include "datas/reflector.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/vectors_stream.hpp"
#include "datas/vectors_string.hpp"
#include <memory>
#include <thread>
using namespace drv;
static const long long INEXACT = 2000000000;
// numbers: integers as they are, floating point ones in 1024ths
template <class T> T get(Line &l) {
  if constexpr (std::is_floating_point<T>::value)
    return (T)(l.num() / 1024.0);
  else
    return (T)l.num();
}
template <class T> long long tell(T v) {
  if constexpr (std::is_floating_point<T>::value) {
    double d = (double)v * 1024;
    return d == std::floor(d) && std::fabs(d) < 1.9e9 ? (long long)d : INEXACT;
  } else
    return (long long)(int64_t)(std::is_unsigned<T>::value ? (int32_t)v : v);
}
template <class V> std::vector<long long> all(const V &v, int n) {
  std::vector<long long> r;
  for (int i = 0; i < n; i++)
    r.push_back(tell(v[i]));
  return r;
}
template <class V, int N> V getv(Line &l) {
  V v;
  for (int i = 0; i < N; i++)
    v[i] = get<typename V::value_type>(l);
  return v;
}
template <class V> std::vector<long long> rounded(const V &v, int n, double by) {
  std::vector<long long> r;
  for (int i = 0; i < n; i++)
    r.push_back(std::is_floating_point<typename V::value_type>::value ? std::lround(v[i] * by) : tell(v[i]));
  return r;
}
template <class V> struct Kind {
  using T = typename V::value_type;
  static constexpr bool simd = alignof(V) == 16;
  static constexpr bool flt = std::is_floating_point<T>::value;
};
template <class V> struct IsSimdF : std::is_base_of<V4SimdFltType, V> {};

template <class V, class R> void give(Out &o, const V &a, int n, R &&r) { o.raw("out", jints(all(r, n))).raw("left", jints(all(a, n))); }
#define OPS(name, sym)                                                                                                             \
  if (op == name) {                                                                                                                \
    if (mode == "v") { give(o, a, N, V(a sym b)); return; }                                                                        \
    if (mode == "s") { const V &c = a; give(o, a, N, V(c sym s)); return; }                                                        \
    if (mode == "V") { V &r = (V &)(a sym## = b); self = (void *)&r == (void *)&a; give(o, a, N, V(a)); o.i("self", self); return; } \
    if (mode == "S") { V &r = (V &)(a sym## = s); self = (void *)&r == (void *)&a; give(o, a, N, V(a)); o.i("self", self); return; } \
  }
template <class V, int N, class B> void arith(const std::string &op, const std::string &mode, V a, V b, B s, Out &o) {
  int self = 0;
  OPS("add", +)
  OPS("sub", -)
  OPS("mul", *)
  constexpr bool isimd = Kind<V>::simd && !Kind<V>::flt;
  if constexpr (!isimd) {
    OPS("div", /)
  }
  if constexpr (!Kind<V>::flt) {
    OPS("and", &)
    OPS("or", |)
  }
  if constexpr (isimd) {
    if (op == "xor") {
      if (mode == "v") { give(o, a, N, V(a ^ b)); return; }
      if (mode == "V") { give(o, a, N, V(a ^= b)); o.i("self", 1); return; }
      if (mode == "s") { give(o, a, N, V(a ^ s)); return; }
      if (mode == "S") { give(o, a, N, V(a ^= s)); o.i("self", 1); return; }
    }
    if (op == "not") { give(o, a, N, V(~a)); return; }
  }
}
template <class V, int N> void shifts(const std::string &op, const std::string &mode, V a, const int *sh, Out &o) {
  using T = typename V::value_type;
  if constexpr (!Kind<V>::flt) {
    bool left = op == "shl";
    if (mode == "s") { const V &c = a; if (left) give(o, a, N, V(c << sh[0])); else give(o, a, N, V(c >> sh[0])); return; }
    if (mode == "S") { if (left) a <<= sh[0]; else a >>= sh[0]; give(o, a, N, V(a)); return; }
    if constexpr (!Kind<V>::simd) {
      auto go = [&](auto &&sv) {
        if (mode == "v") { const V &c = a; if (left) give(o, a, N, V(c << sv)); else give(o, a, N, V(c >> sv)); }
        else { if (left) a <<= sv; else a >>= sv; give(o, a, N, V(a)); }
      };
      if constexpr (N == 2) go(IVector2(sh[0], sh[1]));
      else if constexpr (N == 3) go(IVector(sh[0], sh[1], sh[2]));
      else go(IVector4(sh[0], sh[1], sh[2], sh[3]));
    }
  }
}
template <class V, int N, class T2> std::vector<long long> conv(const V &a) { return all(a.template Convert<T2>()._arr, N); }
template <class V, int N> void one(const std::string &op, Line &l, Out &o) {
  using T = typename V::value_type;
  if (op == "bin") {
    std::string what = l.word(), mode = l.word();
    V a = getv<V, N>(l), b = getv<V, N>(l);
    arith<V, N>(what, mode, a, b, b[0], o);
  } else if (op == "shift") {
    std::string what = l.word(), mode = l.word();
    V a = getv<V, N>(l);
    int sh[4];
    for (int i = 0; i < N; i++)
      sh[i] = (int)l.num();
    shifts<V, N>(what, mode, a, sh, o);
  } else if (op == "cmp") {
    const V a = getv<V, N>(l), b = getv<V, N>(l);
    o.i("eq", a == b).i("ne", a != b);
    if constexpr (IsSimdF<V>::value) {
      o.raw("ord", jints(std::vector<int>{a < b, a > b, a <= b, a >= b}));
      float s = b[0];
      o.raw("ords", jints(std::vector<int>{a < s, a > s, a <= s, a >= s}));
    }
  } else if (op == "un") {
    const V a = getv<V, N>(l);
    if constexpr (!(Kind<V>::simd && !Kind<V>::flt)) {
      o.i("sym", a.IsSymetrical());
      if constexpr (!Kind<V>::flt || IsSimdF<V>::value)
        o.i("sign", a.Sign());
      o.raw("neg", jints(all(V(-a), N)));
    }
    V c = a;
    o.raw("swizzle", N == 2 ? jints(std::vector<long long>{tell(c.X), tell(c.Y), tell(c.x), tell(c.y)}) : "[]");
    if constexpr (N > 2)
      o.i("z", tell(c.z)).i("Z", tell(c.Z));
    if constexpr (N > 3)
      o.i("w", tell(c.w)).i("W", tell(c.W));
    if constexpr (!Kind<V>::simd) {
      c.SwapEndian();
      V d = a;
      d.SwapEndian();
      d.SwapEndian();
      o.raw("bytes", jbytes(&c, sizeof(T) * N)).raw("was", jbytes(&a, sizeof(T) * N)).raw("back", jbytes(&d, sizeof(T) * N));
      std::stringstream ss;
      ss << a;
      o.raw("stream", jstr(ss.str()));
    }
    o.raw("text", jstr(std::to_string(a)));
    std::wstring w = std::to_wstring(a);
    o.raw("wtext", jints(std::vector<int>(w.begin(), w.end())));
  } else if (op == "conv") {
    const V a = getv<V, N>(l);
    o.raw("i8", jints(conv<V, N, int8>(a))).raw("i16", jints(conv<V, N, int16>(a))).raw("i32", jints(conv<V, N, int32>(a)));
    if constexpr (!Kind<V>::flt)
      o.raw("u8", jints(conv<V, N, uint8>(a))).raw("u16", jints(conv<V, N, uint16>(a))).raw("u32", jints(conv<V, N, uint32>(a)));
    o.raw("f", jints(conv<V, N, float>(a)));
  } else if (op == "met") { // products and lengths
    const V a = getv<V, N>(l), b = getv<V, N>(l);
    if constexpr (!(Kind<V>::simd && !Kind<V>::flt)) {
      o.i("dot", tell(a.Dot(b)));
      if constexpr (N == 3 || IsSimdF<V>::value)
        o.raw("cross", jints(all(V(a.Cross(b)), 3)));
      if constexpr (IsSimdF<V>::value)
        o.raw("dotv", jints(all(V(a.DotV(b)), 4))).raw("conj", jints(all(V(a.QConjugate()), 4)));
    }
  } else if (op == "len") {
    const V a = getv<V, N>(l);
    if constexpr (!(Kind<V>::simd && !Kind<V>::flt)) {
      o.i("len", tell(a.Length()));
      V c = a;
      V &r = (V &)c.Normalize();
      o.raw("norm", jints(rounded(c, N, 10000))).i("self", &r == &c);
      if constexpr (IsSimdF<V>::value)
        o.raw("normd", jints(rounded(V(a.Normalized()), N, 10000)));
    }
  } else if (op == "fit") { // other numbers of components
    const V a = getv<V, N>(l);
    if constexpr (N == 3) {
      t_Vector2<T> d = a;
      o.raw("two", jints(all(d, 2)));
      t_Vector4<T> e = a;
      o.raw("four", jints(all(e, 4)));
      if constexpr (std::is_same<T, float>::value) {
        Vector4A16 f = a, g(a, 5.f);
        o.raw("simd", jints(all(f, 4))).raw("simdw", jints(all(g, 4)));
      }
    } else if constexpr (N == 4) {
      t_Vector<T> t = a;
      t_Vector2<T> d = a;
      o.raw("two", jints(all(d, 2))).raw("three", jints(all(t, 3)));
      if constexpr (IsSimdF<V>::value) {
        IVector4A16 i = V4SimdIntType(a);
        o.raw("int", jints(all(i, 4)));
      } else if constexpr (Kind<V>::simd) {
        Vector4A16 f = V4SimdFltType(a);
        std::vector<long long> r;
        for (int k = 0; k < 4; k++)
          r.push_back(std::is_unsigned<T>::value && f[k] < 0 ? INEXACT : (long long)(int32_t)(uint32_t)(int64_t)f[k]);
        o.raw("flt", jints(r));
        UIVector4A16 u(a);
        IVector4A16 s(a);
        o.raw("other", jints(std::is_unsigned<T>::value ? all(s, 4) : all(u, 4)));
      } else if constexpr (std::is_same<T, float>::value) {
        Vector4A16 f(a);
        o.raw("simd", jints(all(f, 4)));
      } else if constexpr (std::is_same<T, int32>::value) {
        IVector4A16 f(a);
        o.raw("simd", jints(all(f, 4)));
      }
    }
    std::string ctor;
    if constexpr (N == 4 && Kind<V>::simd) {
      V z, s(a[1]), e(a[0], a[1], a[2], a[3]), c(e), d(a._data);
      o.raw("ctor", jlist({jints(all(z, N)), jints(all(s, N)), jints(all(e, N)), jints(all(c, N))})).raw("data", jints(all(d, 4)));
    } else {
      V z, s(a[1]), c(a);
      o.raw("ctor", jlist({jints(all(z, N)), jints(all(s, N)), jints(all(c, N)), jints(all(c, N))}));
    }
  }
}
template <class V> void near(Line &l, Out &o, int n) { // components in units of the least difference at 1
  V a, b;
  for (int i = 0; i < n; i++)
    a[i] = (float)l.num() * FLT_EPSILON;
  for (int i = 0; i < n; i++)
    b[i] = (float)l.num() * FLT_EPSILON;
  o.i("eq", a == b).i("ne", a != b);
  if constexpr (IsSimdF<V>::value)
    o.raw("le", jints(std::vector<int>{a <= b, a >= b})).i("sym", a.IsSymetrical());
}
#define TYPES(F) F("i8", int8) F("u8", uint8) F("i16", int16) F("u16", uint16) F("i32", int32) F("u32", uint32) F("f", float)
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset") {
      Vector4A16::SetEpsilon(FLT_EPSILON);
      return;
    }
    if (op == "eps") {
      float e = (float)l.num() * FLT_EPSILON;
      Vector4A16::SetEpsilon(e);
      std::thread([e] { Vector4A16::SetEpsilon(e * 64 + 1); }).join(); // of another thread: no matter here
      return;
    }
    std::string t = l.word();
    if (op == "near") {
      if (t == "2") near<Vector2>(l, o, 2);
      else if (t == "3") near<Vector>(l, o, 3);
      else if (t == "4") near<Vector4>(l, o, 4);
      else near<Vector4A16>(l, o, 4);
      return;
    }
    if (op == "bits") { // of floating point ones: whole patterns
      bytes x = l.hex(), y = l.hex();
      Vector4A16 a, b;
      memcpy(&a, x.data(), 16);
      memcpy(&b, y.data(), 16);
      auto give = [&](const V4SimdFltType &v) { o.raw("out", jbytes(&v, 16)); };
      if (t == "and") give(a & b);
      else if (t == "or") give(a | b);
      else if (t == "xor") give(a ^ b);
      else if (t == "not") give(~a);
      else if (t == "and=") give(a &= b);
      else if (t == "or=") give(a |= b);
      else if (t == "xor=") give(a ^= b);
      else if (t == "ands") give(a & b[0]);
      else if (t == "ors") give(a | b[0]);
      else if (t == "xors") give(a ^ b[0]);
      else if (t == "ands=") give(a &= b[0]);
      else if (t == "ors=") give(a |= b[0]);
      else if (t == "xors=") give(a ^= b[0]);
      return;
    }
    if (op == "elem") { // the missing element of a unit quaternion
      int k = std::stoi(t);
      Vector4A16 a = getv<Vector4A16, 4>(l), b = a, c = a;
      if (k == 0) b.QComputeElement<0>();
      else if (k == 1) b.QComputeElement<1>();
      else if (k == 2) b.QComputeElement<2>();
      else b.QComputeElement();
      c.QComputeElementVar(k);
      o.raw("out", jints(rounded(b, 4, 1024))).raw("var", jints(rounded(c, 4, 1024)));
      return;
    }
    std::string n = l.word();
#define X(k, T)                                     \
  if (t == k) {                                     \
    if (n == "2") one<t_Vector2<T>, 2>(op, l, o);   \
    else if (n == "3") one<t_Vector<T>, 3>(op, l, o); \
    else if (n == "4") one<t_Vector4<T>, 4>(op, l, o); \
  }
    TYPES(X)
    if (t == "sf") one<Vector4A16, 4>(op, l, o);
    else if (t == "si") one<IVector4A16, 4>(op, l, o);
    else if (t == "su") one<UIVector4A16, 4>(op, l, o);
  });
}
