// Text in units of one, two and four bytes
#include "common.hpp"
#include "datas/tchar.hpp"
using namespace drv;
template <class C> static std::string units(const C *p, size_t n) {
  std::vector<long long> r;
  for (size_t i = 0; i < n; i++)
    r.push_back(sizeof(C) == 4 ? (long long)(int32_t)p[i] : sizeof(C) == 2 ? (long long)(uint16_t)p[i] : (long long)(uint8_t)p[i]);
  return jints(r);
}
template <class S> static std::string units(const S &s) { return units(s.data(), s.size()); }
template <class F> static void tell(Out &o, F f) {
  std::string out = "[]";
  int err = 0;
  try {
    out = f();
  } catch (const std::exception &) {
    err = 1;
  }
  o.i("err", err).raw("out", out);
}
template <class C> static std::basic_string<C> rest(Line &l) {
  std::basic_string<C> r;
  while (l.more())
    r.push_back((C)l.num());
  return r;
}
template <class C, class F> static void with(Line &l, Out &o, F f) {
  std::string mode = l.word();
  std::basic_string<C> s = rest<C>(l);
  if (mode == "ptr") {
    std::vector<C> b(s.begin(), s.end());
    b.push_back(0);
    b.shrink_to_fit();
    const C *p = b.data();
    tell(o, [&] { return units(f(p)); });
  } else
    tell(o, [&] { return units(f(s)); });
}
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "to8") {
      std::string t = l.word();
      auto f = [](auto &&s) { return es::ToUTF8(s); };
      if (t == "u16")
        with<char16_t>(l, o, f);
      else if (t == "s16")
        with<unsigned short>(l, o, f);
      else if (t == "u32")
        with<char32_t>(l, o, f);
      else if (t == "s32")
        with<unsigned int>(l, o, f);
      else if (t == "w")
        with<wchar_t>(l, o, f);
      else
        with<wchar_t>(l, o, [](auto &&s) { return std::to_string(s); });
    } else if (op == "towide") {
      std::string t = l.word();
      if (t == "es")
        with<char>(l, o, [](auto &&s) { return es::ToUTF1632(s); });
      else
        with<char>(l, o, [](auto &&s) { return std::to_wstring(s); });
    } else if (op == "same") {
      std::string t = l.word();
      if (t == "c")
        with<char>(l, o, [](auto &&s) { return std::to_string(s); });
      else if (t == "t")
        with<char>(l, o, [](auto &&s) { return ToTSTRING(s); });
      else if (t == "w")
        with<wchar_t>(l, o, [](auto &&s) { return std::to_wstring(s); });
      else if (t == "cwc") // to wide and back
        with<char>(l, o, [](auto &&s) { return std::to_string(std::to_wstring(s)); });
      else if (t == "wcw")
        with<wchar_t>(l, o, [](auto &&s) { return std::to_wstring(std::to_string(s)); });
      else if (t == "tw")
        with<wchar_t>(l, o, [](auto &&s) { return std::to_wstring(ToTSTRING(s)); });
    } else if (op == "help") {
      std::string s = rest<char>(l);
      o.i("is", IsHelp(s));
    }
  });
}
