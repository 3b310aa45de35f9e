#include "common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/vectors.hpp"
#include <functional>
#include <map>
using namespace drv;

struct URW { // reads and writes itself member by member
  int8 a;
  uint32 b;
  void Read(BinReaderRef rd) {
    rd.Read(a);
    rd.Read(b);
  }
  void Write(BinWritterRef wr) const {
    wr.Write(a);
    wr.Write(b);
  }
};
struct URN { // nested, with a container
  URW x;
  std::vector<uint16> v;
  double d;
  void Read(BinReaderRef rd) {
    rd.Read(x);
    rd.ReadContainer(v, 2);
    rd.Read(d);
  }
  void Write(BinWritterRef wr) const {
    wr.Write(x);
    wr.WriteContainer(v);
    wr.Write(d);
  }
};
struct USW { // memory image, swaps itself
  uint16 a, a1;
  uint32 b;
  float c;
  uint16 d[2];
  void SwapEndian() {
    FByteswapper(a);
    FByteswapper(a1);
    FByteswapper(b);
    FByteswapper(c);
    FByteswapper(d);
  }
};
struct UOW { // needs to know the direction
  uint16 n;
  uint16 it[3];
  void SwapEndian(bool out) {
    if (!out)
      FByteswapper(n);
    if (n == 3)
      for (auto &i : it)
        FByteswapper(i);
    if (out)
      FByteswapper(n);
  }
};
struct CNT { // a counter class
  uint8 count;
  CNT() = default;
  CNT(size_t c) : count((uint8)c) {}
  void Read(BinReaderRef rd) { rd.Read(count); }
  void Write(BinWritterRef wr) const { wr.Write(count); }
  operator size_t() const { return count; }
};

template <class T> struct Codec {
  static const size_t size = sizeof(T);
  static T load(const unsigned char *p) {
    T t;
    memcpy(&t, p, sizeof(T));
    return t;
  }
  static std::string store(const T &t) { return std::string((const char *)&t, sizeof(T)); }
};
template <> struct Codec<URW> {
  static const size_t size = 5;
  static URW load(const unsigned char *p) {
    URW t;
    memcpy(&t.a, p, 1);
    memcpy(&t.b, p + 1, 4);
    return t;
  }
  static std::string store(const URW &t) {
    return std::string((const char *)&t.a, 1) + std::string((const char *)&t.b, 4);
  }
};
template <> struct Codec<URN> {
  static const size_t size = 17;
  static URN load(const unsigned char *p) {
    URN t;
    t.x = Codec<URW>::load(p);
    t.v.resize(2);
    memcpy(t.v.data(), p + 5, 4);
    memcpy(&t.d, p + 9, 8);
    return t;
  }
  static std::string store(const URN &t) {
    std::string r = Codec<URW>::store(t.x);
    if (t.v.size())
      r += std::string((const char *)t.v.data(), t.v.size() * 2);
    return r + std::string((const char *)&t.d, 8);
  }
};

static std::stringstream *ss;
static BinWritterRef wr;
static BinReaderRef rd;

typedef std::function<bool(const std::string &, Line &, Out &)> Handler;

template <class C> std::string storeAll(const C &c) {
  std::string r;
  for (const auto &e : c)
    r += Codec<typename C::value_type>::store(e);
  return r;
}
template <class C> C loadAll(const bytes &b, size_t n) {
  typedef typename C::value_type T;
  C c;
  for (size_t i = 0; i < n; i++)
    c.push_back(Codec<T>::load(b.data() + i * Codec<T>::size));
  return c;
}
template <class T> T junk() {
  bytes b(Codec<T>::size, 0x5a);
  return Codec<T>::load(b.data());
}

template <class CT, class C> void wCount(const C &c) { wr.WriteContainerWCount<CT>(c); }
template <class CT, class C> void wCountL(C &c) {
  wr.WriteContainerLambda<CT>(
      c, [](BinWritterRef w, const typename C::value_type &v) { w.Write(v); });
}
template <class CT, class C> void rCount(C &c) { rd.ReadContainer<CT>(c); }
template <class CT, class C> void rCountL(C &c) {
  rd.ReadContainerLambda<CT>(c, [](BinReaderRef r, typename C::value_type &v) { r.Read(v); });
}

template <class C> Handler container() {
  typedef typename C::value_type T;
  return [](const std::string &op, Line &l, Out &o) {
    if (op == "w") {
      size_t n = (size_t)l.num();
      bytes b = l.hex();
      C c = loadAll<C>(b, n);
      wr.WriteContainer(c);
      return true;
    }
    if (op == "wc" || op == "wcl") {
      std::string ct = l.word();
      size_t n = (size_t)l.num();
      bytes b = l.hex();
      C c = loadAll<C>(b, n);
      bool lam = op == "wcl";
      if (ct == "u8")
        lam ? wCountL<uint8>(c) : wCount<uint8>(c);
      else if (ct == "u16")
        lam ? wCountL<uint16>(c) : wCount<uint16>(c);
      else if (ct == "u32")
        lam ? wr.WriteContainerLambda(
                  c, [](BinWritterRef w, const T &v) { w.Write(v); })
            : wr.WriteContainerWCount(c);
      else if (ct == "u64")
        lam ? wCountL<uint64>(c) : wCount<uint64>(c);
      else
        lam ? wCountL<CNT>(c) : wCount<CNT>(c);
      return true;
    }
    C c;
    for (int i = 0; i < 3; i++)
      c.push_back(junk<T>());
    if (op == "r") {
      rd.ReadContainer(c, (size_t)l.num());
    } else if (op == "rl") {
      rd.ReadContainerLambda(c, (size_t)l.num(), [](BinReaderRef r, T &v) { r.Read(v); });
    } else if (op == "rc" || op == "rcl") {
      std::string ct = l.word();
      bool lam = op == "rcl";
      if (ct == "u8")
        lam ? rCountL<uint8>(c) : rCount<uint8>(c);
      else if (ct == "u16")
        lam ? rCountL<uint16>(c) : rCount<uint16>(c);
      else if (ct == "u32")
        lam ? rd.ReadContainerLambda(c, [](BinReaderRef r, T &v) { r.Read(v); })
            : rd.ReadContainer(c);
      else if (ct == "u64")
        lam ? rCountL<uint64>(c) : rCount<uint64>(c);
      else
        lam ? rCountL<CNT>(c) : rCount<CNT>(c);
    } else
      return false;
    o.str("got", storeAll(c));
    return true;
  };
}
template <class T> Handler scalar() {
  return [](const std::string &op, Line &l, Out &o) {
    if (op == "w") {
      l.num();
      bytes b = l.hex();
      T t = Codec<T>::load(b.data());
      wr.Write(t);
      if (Codec<T>::store(t) != std::string(b.begin(), b.end()))
        throw std::logic_error("the written object changed");
      return true;
    }
    if (op == "r") {
      T t = junk<T>();
      rd.Read(t);
      o.str("got", Codec<T>::store(t));
      return true;
    }
    return false;
  };
}
template <class T, size_t N> Handler carray() {
  return [](const std::string &op, Line &l, Out &o) {
    T a[N];
    if (op == "w") {
      l.num();
      bytes b = l.hex();
      memcpy(a, b.data(), sizeof(a));
      wr.Write(a);
      if (memcmp(a, b.data(), sizeof(a)))
        throw std::logic_error("the written array changed");
      return true;
    }
    if (op == "r") {
      memset(a, 0x5a, sizeof(a));
      rd.Read(a);
      o.str("got", std::string((const char *)a, sizeof(a)));
      return true;
    }
    return false;
  };
}

int main() {
  std::map<std::string, Handler> h;
  h["u8"] = scalar<uint8>();
  h["i8"] = scalar<int8>();
  h["u16"] = scalar<uint16>();
  h["i16"] = scalar<int16>();
  h["u32"] = scalar<uint32>();
  h["i32"] = scalar<int32>();
  h["u64"] = scalar<uint64>();
  h["i64"] = scalar<int64>();
  h["f32"] = scalar<float>();
  h["f64"] = scalar<double>();
  h["urw"] = scalar<URW>();
  h["urn"] = scalar<URN>();
  h["usw"] = scalar<USW>();
  h["uow"] = scalar<UOW>();
  h["v2"] = scalar<Vector2>();
  h["v3"] = scalar<Vector>();
  h["v4"] = scalar<Vector4>();
  h["sv2"] = scalar<SVector2>();
  h["a8"] = carray<uint8, 5>();
  h["a16"] = carray<uint16, 3>();
  h["a32"] = carray<int32, 4>();
  h["a64"] = carray<double, 2>();
  h["c8"] = container<std::vector<uint8>>();
  h["c16"] = container<std::vector<int16>>();
  h["c32"] = container<std::vector<uint32>>();
  h["c64"] = container<std::vector<uint64>>();
  h["cf"] = container<std::vector<float>>();
  h["curw"] = container<std::vector<URW>>();
  h["curn"] = container<std::vector<URN>>();
  h["cusw"] = container<std::vector<USW>>();
  h["cuow"] = container<std::vector<UOW>>();
  h["cv4"] = container<std::vector<Vector4>>();
  h["str"] = container<std::string>();
  h["wstr"] = container<std::wstring>();
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      delete ss;
      ss = new std::stringstream(std::ios::in | std::ios::out | std::ios::binary);
      wr = BinWritterRef(*ss);
      rd = BinReaderRef(*ss);
      o.i("ok", wr.SwappedEndian() == false && rd.SwappedEndian() == false);
      return;
    }
    if (op == "ws" || op == "rs") {
      bool on = l.num();
      if (op == "ws") {
        wr.SwapEndian(on);
        o.i("ok", wr.SwappedEndian() == on);
      } else {
        rd.SwapEndian(on);
        o.i("ok", rd.SwappedEndian() == on);
      }
      return;
    }
    std::string kind = l.word();
    size_t before = ss->str().size();
    if (op == "wz") {
      l.num();
      bytes b = l.hex();
      if (kind == "str")
        wr.WriteT(es::string_view((const char *)b.data(), b.size()));
      else {
        std::wstring w((const wchar_t *)b.data(), b.size() / sizeof(wchar_t));
        wr.WriteT(es::wstring_view(w));
      }
    } else if (op == "rz") {
      if (kind == "str") {
        std::string s;
        rd.ReadString(s);
        o.str("got", s);
      } else {
        std::wstring s;
        rd.ReadString(s);
        o.str("got", std::string((const char *)s.data(), s.size() * sizeof(wchar_t)));
      }
    } else if (!h.at(kind)(op, l, o))
      throw std::logic_error("unknown call");
    o.i("ok", !ss->fail());
    std::string all = ss->str();
    if (op[0] == 'w')
      o.str("out", all.substr(std::min(before, all.size())));
    else
      o.i("left", (long long)all.size() - (long long)ss->tellg());
  });
}
