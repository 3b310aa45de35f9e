// Hashes of texts at run time and when compiled
#include "common.hpp"
#include <algorithm>
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include "datas/supercore.hpp"
using namespace drv;
struct Lit { uint32 wide, canon, l3, cc; };
#define L(x) {constant<JenHash(x).raw()>::v, constant<JenHashCannon(x).raw()>::v, constant<uint32(JenHash3(x))>::v, cc(x)}
template <uint32 V> struct constant { static const uint32 v = V; };
template <size_t n> constexpr typename std::enable_if<(n == 5), uint32>::type cc(const char (&x)[n]) { return CompileFourCC(x); }
template <size_t n> constexpr typename std::enable_if<(n != 5), uint32>::type cc(const char (&)[n]) { return 0; }
static const Lit lits[] = {
#include "literals.inc"
};
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "lit") {
      const Lit &x = lits[l.num()];
      o.val("wide", x.wide).val("canon", x.canon).val("l3", x.l3);
    } else if (op == "litcc")
      o.val("cc", lits[l.num()].cc);
    else if (op == "text") {
      std::string s = l.str();
      size_t off = (size_t)l.num();
      std::string buf = std::string(off, '\xa5') + s + "tail";
      es::string_view v(buf.data() + off, s.size());
      o.val("wide", JenHash(v).raw()).val("canon", JenHashCannon(v).raw()).val("l3", uint32(JenHash3(v)));
      JenHash h(v), g;
      g = h;
      if (g.raw() != JenkinsHash_(v) || uint32(JenHash3(v)) != JenkinsHash3_(v))
        o.s.replace(o.s.find("\"ok\":1"), 6, "\"ok\":0");
    } else if (op == "seed") {
      std::string s = l.str();
      o.val("l3", JenkinsHash3_(s, from<uint32>(l.hex())));
    } else if (op == "pair") {
      std::string s = l.str(), t = l.str();
      JenHash a(es::string_view(s.data(), s.size())), b(es::string_view(t.data(), t.size()));
      o.raw("eq", jints(std::vector<int>{a == b, a == b.raw(), a.raw() == b}));
      o.raw("ne", jints(std::vector<int>{a != b, a != b.raw(), a.raw() != b}));
      o.i("lt", a < b).i("gt", a > b);
    } else if (op == "code") {
      std::string s = l.str();
      char c[5]{s[0], s[1], s[2], s[3], 0};
      o.val("cc", CompileFourCC(c));
    } else if (op == "pad") {
      size_t v = from<uint64>(l.hex()), al = size_t(1) << l.num();
      o.val("p", GetPadding(v, al));
    } else if (op == "frac") {
      size_t n = l.num();
      o.val("f", GetFraction(n));
    } else if (op == "pow2") {
      bytes b = l.hex();
      o.i("r", b.size() == 8 ? IsPow2(from<uint64>(b)) : b.size() == 4 ? IsPow2(from<uint32>(b)) : b.size() == 2 ? IsPow2(from<uint16>(b)) : IsPow2(from<uint8>(b)));
    }
  });
}
