// Test programs written with the macros of the library (programs.inc is generated)
#include "common.hpp"
#include "datas/reflector.hpp"
#include "datas/unit_testing.hpp"
#include <stdexcept>
#include <string>
#ifndef ONLY_HEADERS
using namespace drv;
static std::string text(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += '\\';
    r += (unsigned char)c < 32 ? '?' : c;
  }
  return r + '"';
}
struct Obj {
  int v;
  bool operator==(const Obj &o) const { return v == o.v; }
  bool operator!=(const Obj &o) const { return v != o.v; }
};
static int a, b, c, e;
static float f, g;
static std::string s, t;
static Obj p, q;
static void Fire(int what) {
  switch (what) {
  case 1:
    throw std::runtime_error("runtime");
  case 2:
    throw std::range_error("range");
  case 3:
    throw std::logic_error("logic");
  case 4:
    throw 4;
  }
}
template <class C> std::vector<std::string> Members(size_t &count, long long &sum) {
  C o;
  count = o.GetNumReflectedValues();
  std::vector<std::string> r;
  for (size_t i = 0; i < count; i++) {
    r.push_back(text(std::string(o.GetReflectedPair(i).name)));
    o.SetReflectedValue(i, std::to_string(i + 1));
  }
  for (size_t i = 0; i < count; i++)
    sum += std::stoll(std::string(o.GetReflectedValue(i)));
  return r;
}
template <class E> std::vector<std::string> Names() {
  std::vector<std::string> r;
  auto en = GetReflectedEnum<E>();
  for (auto n : en)
    r.push_back(text(std::string(n)));
  return r;
}
#include "programs.inc"
static std::string said;
static void Hear(const char *text) { said += text; }
int main() {
  printer.AddPrinterFunction(Hear, false);
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset")
      o.raw("file", text(program_file));
    else if (op == "run") {
      size_t no = l.unum();
      a = l.num(), b = l.num(), c = l.num(), e = l.num();
      f = l.num() / 4.f, g = l.num() / 4.f;
      s = l.word(), t = l.word();
      p.v = l.num(), q.v = l.num();
      said.clear();
      o.i("result", programs[no]());
      std::vector<std::string> lines;
      size_t at = 0, n;
      while ((n = said.find('\n', at)) != said.npos) {
        lines.push_back(text(said.substr(at, n - at)));
        at = n + 1;
      }
      if (at < said.size())
        lines.push_back(text(said.substr(at)));
      o.raw("said", jlist(lines));
    } else if (op == "names") {
      size_t no = l.unum(), count = 0;
      long long sum = 0;
      auto m = members[no](count, sum);
      o.i("count", (long long)count);
      o.i("sum", sum);
      o.raw("members", jlist(m));
      o.raw("enums", jlist(names[no]()));
    }
  });
}
#endif
