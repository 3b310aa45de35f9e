#include "common.hpp"
#include "datas/flags.hpp"
#include <memory>
using namespace drv;

// one enumeration per storage width; the flag numbers are the enumerators' values
enum class E8 : uint8 { e0, e1, e2, e3, e4, e5, e6, e7 };
enum class E16 : uint16 { e0 };
enum class E32 : uint32 { e0 };
enum class E64 : uint64 { e0 };
enum P32 { p0, p63 = 63 };
enum class EB : uint8 { e0 };

struct Any {
  virtual ~Any() {}
  virtual void call(const std::string &op, Line &l) = 0;
  virtual void report(Out &o) = 0;
};
template <class E, class F, size_t NB> struct Impl : Any {
  uint64 g0 = 0x55;
  F a, b;
  uint64 g1 = 0x55;
  typedef typename F::ValueType V;
  static E e(long long i) { return static_cast<E>(i); }
  void call(const std::string &op, Line &l) override {
    if (op == "ctor" || op == "ext") {
      size_t n = (size_t)l.num();
      E x[4] = {};
      for (size_t i = 0; i < n; i++)
        x[i] = e(l.num());
      bool c = op == "ctor";
      switch (n) {
      case 0:
        a = c ? F() : F(b);
        break;
      case 1:
        a = c ? F(x[0]) : F(b, x[0]);
        break;
      case 2:
        a = c ? F(x[0], x[1]) : F(b, x[0], x[1]);
        break;
      case 3:
        a = c ? F(x[0], x[1], x[2]) : F(b, x[0], x[1], x[2]);
        break;
      default:
        a = c ? F(x[0], x[1], x[2], x[3]) : F(b, x[0], x[1], x[2], x[3]);
      }
    } else if (op == "set") {
      E f = e(l.num());
      a.Set(f, l.num() != 0);
    } else if (op == "add")
      a += e(l.num());
    else if (op == "sub")
      a -= e(l.num());
    else if (op == "raw")
      a = from<V>(l.hex());
    else if (op == "xch")
      std::swap(a, b);
    else if (op == "copy")
      b = a;
  }
  void report(Out &o) override {
    o.i("ok", g0 == 0x55 && g1 == 0x55);
    const F &ca = a, &cb = b;
    o.val("a", static_cast<V>(ca));
    o.val("b", static_cast<V>(cb));
    o.i("eq", ca == cb).i("ne", ca != cb);
    std::vector<int> has, eq, ne;
    for (size_t i = 0; i < NB; i++) {
      has.push_back(ca[e(i)]);
      eq.push_back(ca == e(i));
      ne.push_back(ca != e(i));
    }
    o.raw("has", jints(has)).raw("eqf", jints(eq)).raw("nef", jints(ne));
  }
};

int main() {
  std::unique_ptr<Any> c;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      std::string k = l.word();
      if (k == "E8")
        c.reset(new Impl<E8, es::Flags<E8>, 8>);
      else if (k == "E16")
        c.reset(new Impl<E16, es::Flags<E16>, 16>);
      else if (k == "E32")
        c.reset(new Impl<E32, es::Flags<E32>, 32>);
      else if (k == "E64")
        c.reset(new Impl<E64, es::Flags<E64>, 64>);
      else if (k == "P64")
        c.reset(new Impl<P32, es::Flags<P32, uint64>, 64>);
      else if (k == "EB64")
        c.reset(new Impl<EB, es::Flags<EB, uint64>, 64>);
      else if (k == "EB16")
        c.reset(new Impl<EB, es::Flags<EB, uint16>, 16>);
      o.i("ok", c != nullptr);
      return;
    }
    c->call(op, l);
    c->report(o);
  });
}
