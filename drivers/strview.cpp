#include "common.hpp"
#include "datas/string_view.hpp"
#include "datas/supercore.hpp"
#include <memory>
#include <sstream>
using namespace drv;

template <class T> struct Code {
  typedef typename std::make_unsigned<T>::type type;
};
template <> struct Code<char16_t> {
  typedef char16_t type;
};
template <> struct Code<char32_t> {
  typedef char32_t type;
};

template <class T> struct Case {
  typedef std::basic_string<T> string;
  typedef es::basic_string_view<T> view;
  string text[2];
  view v[2];
  static string str(Line &l) { // 4 hex digits per character
    std::string w = l.word();
    string r;
    for (size_t i = 1; i < w.size(); i += 4)
      r += static_cast<T>(std::stoul(w.substr(i, 4), nullptr, 16));
    return r;
  }
  template <class V> static std::string jv(const V &v) {
    std::vector<std::string> r;
    for (auto c : v)
      r.push_back(std::to_string(static_cast<long long>(static_cast<typename Code<T>::type>(c))));
    return jlist(r);
  }
  static int sign(int r) { return r < 0 ? -1 : r > 0; }
  void call(const std::string &op, Line &l, Out &o) {
    int s = static_cast<int>(l.num());
    view &a = v[s], &b = v[1 - s];
    const view &ca = a;
    if (op == "fresh") {
      for (int i = 0; i < 2; i++) {
        text[i].clear();
        v[i] = view();
      }
    } else if (op == "load") {
      long long how = l.num();
      text[s] = str(l);
      size_t off = static_cast<size_t>(l.num()), n = static_cast<size_t>(l.num());
      const T *p = text[s].c_str();
      switch (how) {
      case 0: a = view(p + off, n); break;
      case 1: a = view(p + off, p + off + n); break;
      case 2: a = text[s]; break; // all of it
      case 3: a = view(p); break; // all of it, no zeros inside
      default: a = view(); break; // nothing
      }
    } else if (op == "prefix")
      a.remove_prefix(static_cast<size_t>(l.num()));
    else if (op == "suffix")
      a.remove_suffix(static_cast<size_t>(l.num()));
    else if (op == "resize")
      a.resize(static_cast<size_t>(l.num()));
    else if (op == "sub") {
      size_t p = static_cast<size_t>(l.num()), n = static_cast<size_t>(l.num());
      long long r = 0;
      try {
        a = n == view::npos ? ca.substr(p) : ca.substr(p, n);
      } catch (const std::out_of_range &) {
        r = -2;
      }
      o.i("r", r);
    } else if (op == "swap") {
      using std::swap;
      swap(text[0], text[1]);
      if (l.num())
        swap(a, b);
      else
        a.swap(b);
      // the buffers of short strings moved with them
      for (int i = 0; i < 2; i++) {
        size_t off = static_cast<size_t>(l.num()), n = v[i].size();
        v[i] = view(text[i].c_str() + off, n);
      }
    } else if (op == "trim") {
      std::string h = l.word();
      if (h == "trim")
        a = es::TrimWhitespace(a);
      else if (h == "start")
        a = es::SkipStartWhitespace(a);
      else if (h == "startnl")
        a = es::SkipStartWhitespace(a, true);
      else if (h == "end")
        a = es::SkipEndWhitespace(a);
      else
        a = es::SkipEndWhitespace(a, true);
    } else if (op == "search") {
      std::string q = l.word();
      int how = static_cast<int>(l.num()); // view, text of its own as view, pointer and count, pointer, character
      size_t p = static_cast<size_t>(l.num());
      bool dflt = l.num() != 0;
      string w = str(l);
      size_t r = 0;
#define SEARCH(NAME, f)                                                                          \
  if (q == NAME)                                                                                 \
    r = how == 0   ? (dflt ? ca.f(b) : ca.f(b, p))                                               \
        : how == 1 ? (dflt ? ca.f(view(w)) : ca.f(view(w), p))                                   \
        : how == 2 ? ca.f(w.data(), p, w.size())                                                 \
        : how == 3 ? (dflt ? ca.f(w.c_str()) : ca.f(w.c_str(), p))                               \
                   : (dflt ? ca.f(w[0]) : ca.f(w[0], p));
      SEARCH("find", find)
      SEARCH("rfind", rfind)
      SEARCH("fof", find_first_of)
      SEARCH("lof", find_last_of)
      SEARCH("fnof", find_first_not_of)
      SEARCH("lnof", find_last_not_of)
      o.i("r", static_cast<long long>(r));
    } else if (op == "cmp") {
      int how = static_cast<int>(l.num());
      long long p = l.num(), n = l.num(), p2 = l.num(), n2 = l.num();
      string w = str(l);
      view y = how == 0 ? b : view(w);
      size_t sp = static_cast<size_t>(p), sn = static_cast<size_t>(n);
      int r;
      try {
        if (p == -2)
          r = how == 3 ? ca.compare(w.c_str()) : ca.compare(y);
        else if (p2 != -2)
          r = ca.compare(sp, sn, y, static_cast<size_t>(p2), static_cast<size_t>(n2));
        else
          r = how == 3 ? ca.compare(sp, sn, w.c_str()) : how == 2 ? ca.compare(sp, sn, w.data(), w.size())
                                                                   : ca.compare(sp, sn, y);
        r = sign(r);
      } catch (const std::out_of_range &) {
        r = -2;
      }
      o.i("r", r);
    } else if (op == "rel") {
      long long how = l.num();
      string sb(b);
      std::vector<int> r;
#define RELS(x, y) r = {x == y, x != y, x < y, x > y, x <= y, x >= y}
      if (how == 0)
        RELS(ca, b);
      else if (how == 1)
        RELS(ca, sb);
      else if (how == 2)
        RELS(string(ca), b);
      else if (how == 3) // no zeros inside
        RELS(ca, sb.c_str());
      else
        RELS(string(ca).c_str(), b);
      o.raw("r", jints(r));
    } else if (op == "at") {
      size_t p = static_cast<size_t>(l.num());
      long long r;
      try {
        r = static_cast<long long>(static_cast<typename Code<T>::type>(ca.at(p)));
        if (ca[p] != ca.at(p))
          r = -3;
      } catch (const std::out_of_range &) {
        r = -2;
      }
      o.i("r", r);
    } else if (op == "copy") {
      size_t p = static_cast<size_t>(l.num()), n = static_cast<size_t>(l.num());
      string dst(ca.size() + 3, T(35));
      long long r;
      try {
        r = static_cast<long long>(p == 0 && n == view::npos ? ca.copy(&dst[0]) : p == 0 ? ca.copy(&dst[0], n)
                                                                                           : ca.copy(&dst[0], n, p));
      } catch (const std::out_of_range &) {
        r = -2;
      }
      o.i("r", r);
      o.raw("dst", jv(dst));
    }
    bool ok = true;
    std::vector<std::string> vs, offs;
    for (int i = 0; i < 2; i++) {
      const view &x = v[i];
      std::string r = jv(x);
      ok = ok && jv(x.to_string()) == r && jv(string(x)) == r && jv(string(x.cbegin(), x.cend())) == r &&
           x.size() == x.length() && x.empty() == (x.size() == 0) && x.c_str() == x.data() && x.size() <= x.max_size();
      if (!x.empty())
        ok = ok && x.front() == x[0] && x.back() == x[x.size() - 1];
      vs.push_back(r);
      offs.push_back(std::to_string(x.data() ? static_cast<long long>(x.data() - text[i].c_str()) : -1ll));
    }
    o.raw("v", jlist(vs));
    o.raw("off", jlist(offs));
    o.i("ok", ok);
  }
};
static bool streamed(const es::string_view &v) {
  std::ostringstream s;
  s << v;
  return s.str() == v.to_string();
}

int main() {
  Case<char> c;
  Case<wchar_t> w;
  Case<char16_t> u;
  Case<char32_t> x;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    switch (l.num()) {
    case 0:
      c.call(op, l, o);
      if (!streamed(c.v[0]))
        o.i("ok", 0);
      break;
    case 1: w.call(op, l, o); break;
    case 2: u.call(op, l, o); break;
    default: x.call(op, l, o); break;
    }
  });
}
