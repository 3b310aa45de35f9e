// Shared by the conformance drivers: they read one call per line, perform it through
// the library's public API and answer one JSON object per line.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace drv {
typedef std::vector<unsigned char> bytes;

struct Line {
  std::istringstream ss;
  explicit Line(const std::string &s) : ss(s) {}
  std::string word() {
    std::string w;
    ss >> w;
    return w;
  }
  bool more() {
    ss >> std::ws;
    return !ss.eof();
  }
  long long num() { return std::stoll(word()); }
  unsigned long long unum() { return std::stoull(word()); }
  static int hexv(char c) {
    return c <= '9' ? c - '0' : c - 'a' + 10;
  }
  bytes hex() { // "x" + hex digits
    std::string w = word();
    bytes r;
    for (size_t i = 1; i + 1 < w.size(); i += 2)
      r.push_back(static_cast<unsigned char>(hexv(w[i]) * 16 + hexv(w[i + 1])));
    return r;
  }
  std::string str() {
    bytes b = hex();
    return std::string(b.begin(), b.end());
  }
};

inline std::string jbytes(const void *p, size_t n) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  std::string r = "[";
  for (size_t i = 0; i < n; i++) {
    if (i)
      r += ',';
    r += std::to_string(static_cast<unsigned>(c[i]));
  }
  return r + "]";
}
inline std::string jstr(const std::string &s) { return jbytes(s.data(), s.size()); }
template <class T> inline std::string jval(const T &v) { return jbytes(&v, sizeof(T)); }
template <class T> inline std::string jints(const std::vector<T> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) {
    if (i)
      r += ',';
    r += std::to_string(static_cast<long long>(v[i]));
  }
  return r + "]";
}
inline std::string jlist(const std::vector<std::string> &v) { // of JSON values
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) {
    if (i)
      r += ',';
    r += v[i];
  }
  return r + "]";
}

struct Out {
  std::string s = "{";
  Out &raw(const char *k, const std::string &v) {
    if (s.size() > 1)
      s += ',';
    s += '"';
    s += k;
    s += "\":";
    s += v;
    return *this;
  }
  Out &i(const char *k, long long v) { return raw(k, std::to_string(v)); }
  Out &str(const char *k, const std::string &v) { return raw(k, jstr(v)); }
  template <class T> Out &val(const char *k, const T &v) { return raw(k, jval(v)); }
};

template <class T> T from(const bytes &b) {
  T v{};
  std::memcpy(&v, b.data(), std::min(sizeof(T), b.size()));
  return v;
}

// f(Line&, Out&) performs one call
template <class F> int loop(F f) {
  std::ios::sync_with_stdio(false);
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    Out o;
    std::string base = o.s;
    try {
      f(l, o);
    } catch (const std::exception &e) {
      o.s = base;
      o.i("ok", 0);
      o.i("ex", 1);
    } catch (...) {
      o.s = base;
      o.i("ok", 0);
      o.i("ex", 2);
    }
    o.s += "}\n";
    fwrite(o.s.data(), 1, o.s.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
} // namespace drv
