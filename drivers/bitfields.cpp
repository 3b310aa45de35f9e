#include "common.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/bitfield.hpp"
#include "datas/endian.hpp"
#include <map>
#include <memory>
#include <utility>
using namespace drv;

struct Any {
  virtual ~Any() {}
  virtual void assign(const bytes &) = 0;
  virtual void set(size_t i, const bytes &) = 0;
  virtual void swap(bool out) = 0;
  virtual std::string io() = 0;
  virtual void report(Out &o) = 0;
};

template <class T, class Seq, size_t... S> struct Impl;
template <class T, size_t... I, size_t... S>
struct Impl<T, std::index_sequence<I...>, S...> : Any {
  typedef BitFieldType<T, BitMemberDecl<I, S>...> Field;
  struct {
    uint64 before;
    Field f;
    uint64 after;
  } m;
  Impl() {
    m.before = m.after = 0x1122334455667788ull;
    m.f.value = 0;
  }
  void assign(const bytes &b) override { m.f.value = from<T>(b); }
  template <size_t J, size_t SZ> void set1(size_t i, T v) {
    if (i == J)
      m.f.template Set<BitMemberDecl<J, SZ>>(v);
  }
  void set(size_t i, const bytes &b) override {
    T v = from<T>(b);
    int d[] = {(set1<I, S>(i, v), 0)...};
    (void)d;
  }
  void swap(bool out) override {
    if (out)
      FByteswapper(m.f, true);
    else
      FByteswapper(m.f);
  }
  std::string io() override {
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    BinWritterRef wr(ss);
    wr.SwapEndian(true);
    wr.Write(m.f);
    std::string s = ss.str();
    BinReaderRef rd(ss);
    rd.SwapEndian(true);
    m.f.value = ~m.f.value;
    rd.Read(m.f);
    return s;
  }
  void report(Out &o) override {
    o.i("ok", m.before == 0x1122334455667788ull && m.after == 0x1122334455667788ull &&
                  sizeof(Field) == sizeof(T));
    o.val("val", m.f.value);
    const Field &c = m.f;
    std::vector<std::string> ms = {jval(T(c.template Get<BitMemberDecl<I, S>>()))...};
    o.raw("ms", jlist(ms));
  }
};

int main() {
  std::unique_ptr<Any> cur;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      int id = (int)l.num();
      switch (id) {
#define BF(id, T, N, ...)                                                                \
  case id:                                                                               \
    cur.reset(new Impl<T, std::make_index_sequence<N>, __VA_ARGS__>());                  \
    break;
#include "layouts.inc"
      }
      cur->assign(l.hex());
      o.i("ok", 1);
      return;
    }
    if (op == "mask") {
      int nb = l.num();
      BitMember m{(size_t)l.num(), (size_t)0};
      m.size = l.num();
      o.i("ok", 1);
#define MASKS(n)                                                                         \
  if (nb == n)                                                                           \
    o.val("val", m.GetMask<uint##n>()).val("mirror", m.GetMirrorMask<uint##n>());
      MASKS(8) MASKS(16) MASKS(32) MASKS(64)
      return;
    }
    if (op == "set") {
      size_t i = (size_t)l.num();
      cur->set(i - 1, l.hex());
    } else if (op == "ass") {
      cur->assign(l.hex());
    } else if (op == "swap") {
      cur->swap(l.num());
    } else if (op == "io") {
      o.str("out", cur->io());
    }
    cur->report(o);
  });
}
