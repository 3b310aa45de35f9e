#include "common.hpp"
#include "datas/fileinfo.hpp"
#include <memory>
using namespace drv;

template <class V> static std::string jv(const V &v) {
  std::string r = "[";
  for (auto c : v) {
    if (r.size() > 1)
      r += ',';
    r += std::to_string(static_cast<unsigned long>(
        static_cast<typename std::make_unsigned<typename std::decay<decltype(c)>::type>::type>(c)));
  }
  return r + "]";
}

template <class T> struct Case {
  typedef std::basic_string<T> string;
  std::unique_ptr<FileInfo<T>> f{new FileInfo<T>()};
  static string text(Line &l) {
    std::string w = l.word(); // 4 hex digits per character
    string r;
    for (size_t i = 1; i < w.size(); i += 4)
      r += static_cast<T>(std::stoul(w.substr(i, 4), nullptr, 16));
    return r;
  }
  void call(const std::string &op, Line &l, Out &o) {
    if (op == "fresh")
      f.reset(new FileInfo<T>());
    else if (op == "load") {
      long long how = l.num();
      string s = text(l);
      typename FileInfo<T>::stringref_type v(s.data(), s.size());
      if (how == 0)
        f->Load(v);
      else if (how == 1)
        f.reset(new FileInfo<T>(v));
      else { // by way of a copy
        FileInfo<T> x(v);
        *f = x;
        x.Load(typename FileInfo<T>::stringref_type(s.data(), s.size() / 2));
      }
    } else {
      string s = text(l);
      o.raw("b", jv(f->CatchBranch(typename FileInfo<T>::stringref_type(s.data(), s.size()))));
    }
    const FileInfo<T> &c = *f;
    o.raw("path", jv(c.GetFullPath()));
    o.raw("folder", jv(c.GetFolder()));
    o.raw("name", jv(c.GetFilename()));
    o.raw("ext", jv(c.GetExtension()));
    o.raw("nameext", jv(c.GetFilenameExt()));
    o.raw("noext", jv(c.GetFullPathNoExt()));
    std::vector<std::string> p;
    for (auto &x : c.Explode())
      p.push_back(jv(x));
    o.raw("parts", jlist(p));
    o.i("ok", 1);
  }
};

int main() {
  Case<char> a;
  Case<wchar_t> w;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    if (l.num())
      w.call(op, l, o);
    else
      a.call(op, l, o);
  });
}
