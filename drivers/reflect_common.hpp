// Reading and writing the raw members of generated reflected classes.
#pragma once
#include "common.hpp"
#include "datas/bitfield.hpp"
#include "datas/flags.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/vectors_simd.hpp"
#include <memory>
#include <new>
using namespace drv;

template <class T> struct IsVisitable : std::false_type {};

template <class T> void DumpAny(const T &v, std::string &o);
template <class T> void LoadAny(T &v, const unsigned char *&p);

template <class T, class E = void> struct Mem { // numbers, enums, flags
  static void dump(const T &v, std::string &o) { o += jbytes(&v, sizeof(T)); }
  static void load(T &v, const unsigned char *&p) {
    std::memcpy(&v, p, sizeof(T));
    p += sizeof(T);
  }
};
template <> struct Mem<std::string> {
  static void dump(const std::string &v, std::string &o) { o += jstr(v); }
  static void load(std::string &v, const unsigned char *&p) {
    size_t n = *p++;
    v.assign(reinterpret_cast<const char *>(p), n);
    p += n;
  }
};
template <class It> void DumpSeq(It b, size_t n, std::string &o) {
  o += '[';
  for (size_t i = 0; i < n; i++) {
    if (i)
      o += ',';
    DumpAny(b[i], o);
  }
  o += ']';
}
template <class T, size_t N> struct Mem<T[N]> {
  static void dump(const T (&v)[N], std::string &o) { DumpSeq(&v[0], N, o); }
  static void load(T (&v)[N], const unsigned char *&p) {
    for (auto &i : v)
      LoadAny(i, p);
  }
};
template <class T, size_t N> struct Mem<std::array<T, N>> {
  static void dump(const std::array<T, N> &v, std::string &o) { DumpSeq(v.data(), N, o); }
  static void load(std::array<T, N> &v, const unsigned char *&p) {
    for (auto &i : v)
      LoadAny(i, p);
  }
};
template <class V, class C, size_t N> struct MemVec {
  static void dump(const V &v, std::string &o) {
    C c[N];
    std::memcpy(c, &v, sizeof(c));
    DumpSeq(&c[0], N, o);
  }
  static void load(V &v, const unsigned char *&p) {
    std::memcpy(static_cast<void *>(&v), p, sizeof(C) * N);
    p += sizeof(C) * N;
  }
};
template <class C> struct Mem<t_Vector2<C>> : MemVec<t_Vector2<C>, C, 2> {};
template <class C> struct Mem<t_Vector<C>> : MemVec<t_Vector<C>, C, 3> {};
template <class C> struct Mem<t_Vector4_<C>> : MemVec<t_Vector4_<C>, typename C::value_type, 4> {};
template <class T> struct Mem<T, typename std::enable_if<IsVisitable<T>::value>::type> {
  struct D {
    std::string &o;
    bool first;
    template <class M> void operator()(int, M &m) {
      if (!first)
        o += ',';
      first = false;
      DumpAny(m, o);
    }
  };
  struct L {
    const unsigned char *&p;
    template <class M> void operator()(int, M &m) { LoadAny(m, p); }
  };
  static void dump(const T &v, std::string &o) {
    o += '[';
    D d{o, true};
    Visit(const_cast<T &>(v), d);
    o += ']';
  }
  static void load(T &v, const unsigned char *&p) { Visit(v, L{p}); }
};
template <class T> void DumpAny(const T &v, std::string &o) { Mem<T>::dump(v, o); }
template <class T> void LoadAny(T &v, const unsigned char *&p) { Mem<T>::load(v, p); }

// which bytes of the object belong to a member
template <class T> struct Cover {
  std::vector<bool> &m;
  const char *base;
  template <class M> void operator()(int, M &v) { mark(v); }
  template <class M>
  typename std::enable_if<!IsVisitable<M>::value>::type mark(M &v) {
    size_t off = reinterpret_cast<const char *>(&v) - base;
    for (size_t i = 0; i < sizeof(M); i++)
      m[off + i] = true;
  }
  template <class M> typename std::enable_if<IsVisitable<M>::value>::type mark(M &v) { Visit(v, *this); }
  template <class M, size_t N> void mark(M (&v)[N]) {
    for (auto &i : v)
      mark(i);
  }
  template <class M, size_t N> void mark(std::array<M, N> &v) {
    for (auto &i : v)
      mark(i);
  }
};

struct Any {
  virtual ~Any() {}
  virtual Reflector &refl() = 0;
  virtual std::string dump() = 0;
  virtual void load(int field, const bytes &b) = 0;
  virtual double number(int field) = 0; // a scalar member
  virtual bool intact() = 0; // nothing outside of the members changed
};

template <class T> struct Holder : Any {
  static const size_t G = 64;
  alignas(64) unsigned char mem[G + sizeof(T) + G];
  std::vector<bool> cov;
  T *obj;
  Holder() {
    std::memset(mem, 0, sizeof(mem));
    obj = new (mem + G) T();
    cov.resize(sizeof(mem));
    if (std::is_polymorphic<T>::value)
      for (size_t i = 0; i < sizeof(void *); i++)
        cov[G + i] = true;
    Visit(*obj, Cover<T>{cov, reinterpret_cast<char *>(mem)});
    for (size_t i = 0; i < sizeof(mem); i++)
      if (!cov[i])
        mem[i] = pat(i);
  }
  static unsigned char pat(size_t i) { return static_cast<unsigned char>(0xA5 ^ (i * 29)); }
  ~Holder() { obj->~T(); }
  std::string dump() override {
    std::string o;
    DumpAny(*obj, o);
    return o;
  }
  struct LoadField {
    int want;
    const unsigned char *p;
    template <class M> void operator()(int i, M &m) {
      if (i == want)
        LoadAny(m, p);
    }
  };
  void load(int field, const bytes &b) override { Visit(*obj, LoadField{field, b.data()}); }
  struct Number {
    int want;
    double &r;
    template <class M>
    typename std::enable_if<std::is_floating_point<M>::value>::type operator()(int i, M &m) {
      if (i == want)
        r = m;
    }
    template <class M>
    typename std::enable_if<!std::is_floating_point<M>::value>::type operator()(int, M &) {}
  };
  double number(int field) override {
    double r = 0;
    Visit(*obj, Number{field, r});
    return r;
  }
  bool intact() override {
    for (size_t i = 0; i < sizeof(mem); i++)
      if (!cov[i] && mem[i] != pat(i))
        return false;
    return true;
  }
};
template <class T> struct ByWrap : Holder<T> {
  ReflectorWrap<T> w{this->obj};
  Reflector &refl() override { return w; }
};
template <class T> struct ByPure : Holder<T> {
  ReflectedInstance i{GetReflectedClass<T>(), this->obj};
  ReflectorPureWrap w{i};
  Reflector &refl() override { return w; }
};
template <class T> struct ByBase : Holder<T> {
  Reflector &refl() override { return *this->obj; }
};
template <class T, bool base> struct MakeBase {
  static Any *f() { return new ByBase<T>; }
};
template <class T> struct MakeBase<T, false> {
  static Any *f() { return new ByWrap<T>; }
};
template <class T, bool base> Any *Make(int w) {
  if (w == 2)
    return MakeBase<T, base>::f();
  if (w == 1)
    return new ByPure<T>;
  return new ByWrap<T>;
}
