#include "reflect_common.hpp"
#include "datas/reflector.hpp"
#include <cmath>
#include "classes.inc"

struct Key {
  bool isId = false;
  size_t id = 0;
  std::string name;
};
static Key readKey(Line &l) {
  Key k;
  std::string w = l.word();
  if (w == "id") {
    k.isId = true;
    k.id = static_cast<size_t>(l.unum());
  } else
    k.name = l.str();
  return k;
}
#define BYKEY(call, ...)                                                                          \
  (k.isId ? r.call(k.id, ##__VA_ARGS__) : r.call(JenHash(es::string_view(k.name)), ##__VA_ARGS__))

static void perform(Reflector &r, const std::string &op, Line &l, Out &o) {
  Key k = readKey(l);
  if (op == "set") {
    std::string t = l.str();
    o.i("err", static_cast<int>(BYKEY(SetReflectedValue, es::string_view(t))));
  } else if (op == "setsub") {
    size_t s = l.unum();
    std::string t = l.str();
    o.i("err", static_cast<int>(BYKEY(SetReflectedValue, es::string_view(t), s)));
  } else if (op == "setel") {
    size_t s = l.unum(), e = l.unum();
    std::string t = l.str();
    o.i("err", static_cast<int>(BYKEY(SetReflectedValue, es::string_view(t), s, e)));
  } else if (op == "seti") {
    size_t s = l.unum();
    int64 v = from<int64>(l.hex());
    o.i("err", static_cast<int>(BYKEY(SetReflectedValueInt, v, s)));
  } else if (op == "setu") {
    size_t s = l.unum();
    uint64 v = from<uint64>(l.hex());
    o.i("err", static_cast<int>(BYKEY(SetReflectedValueUInt, v, s)));
  } else if (op == "setf") {
    size_t s = l.unum();
    double v = l.num() / 16.0;
    o.i("err", static_cast<int>(BYKEY(SetReflectedValueFloat, v, s)));
  } else if (op == "get") {
    o.str("txt", BYKEY(GetReflectedValue));
  } else if (op == "getsub") {
    size_t s = l.unum();
    o.str("txt", BYKEY(GetReflectedValue, s));
  } else if (op == "getel") {
    size_t s = l.unum(), e = l.unum();
    o.str("txt", BYKEY(GetReflectedValue, s, e));
  } else if (op == "pair") {
    Reflector::KVPairFormat f;
    f.aliasName = l.num() != 0;
    f.formatValue = l.num() != 0;
    auto p = BYKEY(GetReflectedPair, f);
    o.str("nm", p.name.size() ? std::string(p.name.data(), p.name.size()) : std::string());
    o.str("txt", p.value);
  } else if (op == "info") {
    o.i("arr", BYKEY(IsArray)).i("sub", BYKEY(IsReflectedSubClass));
    o.i("num", static_cast<long long>(r.GetNumReflectedValues())).i("named", r.UseNames());
    auto c = r.UseNames() ? r.GetClassName() : es::string_view();
    o.str("cls", c.size() ? std::string(c.data(), c.size()) : std::string());
  } else if (op == "rt") {
    // printing, setting the printed text, printing again
    std::string a = BYKEY(GetReflectedValue);
    o.i("err", static_cast<int>(BYKEY(SetReflectedValue, es::string_view(a))));
    o.str("txt", a);
    o.str("txt2", BYKEY(GetReflectedValue));
  } else if (op == "sub") {
    size_t s = l.unum();
    ReflectedInstance i, none;
    if (l.num()) { // through the const interface
      const Reflector &cr = r;
      i = k.isId ? cr.GetReflectedSubClass(k.id, s)
                 : cr.GetReflectedSubClass(JenHash(es::string_view(k.name)), s);
    } else
      i = BYKEY(GetReflectedSubClass, s);
    bool null = std::memcmp(&i, &none, sizeof(i)) == 0;
    o.i("null", null);
    std::string op2 = l.word();
    if (!null) {
      ReflectorPureWrap w(i);
      perform(w, op2, l, o);
    }
  }
}

int main() {
  RegisterAll();
  std::unique_ptr<Any> c;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (op == "reset") {
      int i = static_cast<int>(l.num());
      c.reset(MakeClass(i, static_cast<int>(l.num())));
    } else if (op == "raw") {
      int f = static_cast<int>(l.num());
      c->load(f, l.hex());
    } else if (op == "rtf") {
      int f = static_cast<int>(l.num());
      c->load(f, l.hex());
      double a = c->number(f);
      Reflector &r = c->refl();
      std::string t = r.GetReflectedValue(static_cast<size_t>(f));
      o.i("err", static_cast<int>(r.SetReflectedValue(static_cast<size_t>(f), es::string_view(t))));
      double b = c->number(f);
      o.str("txt", t).str("txt2", r.GetReflectedValue(static_cast<size_t>(f)));
      o.i("close", std::fabs(a - b) <= std::fabs(a) * 1e-5);
    } else
      perform(c->refl(), op, l, o);
    o.i("ok", c->intact());
    o.raw("val", c->dump());
  });
}
