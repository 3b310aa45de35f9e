// Vectors linked to outside memory: two writable regions and a constant one
#include "common.hpp"
#include "datas/allocator_hybrid.hpp"
#include <memory>
#include <set>
#include <sys/mman.h>
using namespace drv;
static const int NR = 3, LEN = 16, NV = 4;
static char *area[NR]; // a page each
static bool tracking = false;
static int foreign = 0;
static size_t nlive = 0;
static void *live[4096];
static bool outside(const void *p) {
  for (auto a : area)
    if ((const char *)p >= a && (const char *)p < a + 4096)
      return true;
  return false;
}
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (tracking && nlive < 4096)
    live[nlive++] = p;
  return p;
}
void operator delete(void *p) noexcept {
  if (!p)
    return;
  if (outside(p)) {
    foreign++;
    return;
  }
  for (size_t i = 0; i < nlive; i++)
    if (live[i] == p) {
      live[i] = live[--nlive];
      break;
    }
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
struct Track {
  Track() { tracking = true; }
  ~Track() { tracking = false; }
};
struct Triple {
  int a, b;
  short c;
  Triple() : a(0), b(0), c(0) {}
  Triple(int v) : a(v), b(~v), c((short)v) {}
  explicit operator int() const { return b == ~a && c == (short)a ? a : (a | (b & 0) | c) == 0 ? 0 : -1; }
};
struct IVecs {
  virtual ~IVecs() {}
  virtual void op(const std::string &op, Line &l) = 0;
  virtual void tell(Out &o) = 0;
};
template <class T> struct Vecs : IVecs {
  typedef std::vector<T, es::allocator_hybrid<T>> V;
  std::unique_ptr<V> v[NV];
  Vecs() {
    for (int r = 0; r < NR; r++) {
      mprotect(area[r], 4096, PROT_READ | PROT_WRITE);
      T *t = at(r);
      for (int i = 0; i < LEN; i++)
        t[i] = T(10 * (r + 1) + i);
      if (r == 2)
        mprotect(area[r], 4096, PROT_READ);
    }
    for (auto &p : v)
      p.reset(new V());
  }
  static T *at(int r) { return reinterpret_cast<T *>(area[r] + 64); }
  void op(const std::string &op, Line &l) override {
    V &d = *v[l.num() - 1];
    if (op == "link") {
      int r = (int)l.num() - 1, from = (int)l.num(), n = (int)l.num(), how = (int)l.num();
      T *s = at(r) + from;
      Track t;
      if (how)
        es::allocator_hybrid_base::LinkStorage(d, s, s + n);
      else
        es::allocator_hybrid_base::LinkStorage(d, s, (size_t)n);
    } else if (op == "push") {
      T x((int)l.num());
      int how = (int)l.num();
      Track t;
      if (how)
        d.push_back(x);
      else
        d.emplace_back(x);
    } else if (op == "pop") {
      d.pop_back();
    } else if (op == "put") {
      int i = (int)l.num();
      d[i - 1] = T((int)l.num());
    } else if (op == "insert") {
      int i = (int)l.num();
      T x((int)l.num());
      Track t;
      d.insert(d.begin() + (i - 1), x);
    } else if (op == "erase") {
      int i = (int)l.num();
      d.erase(d.begin() + (i - 1));
    } else if (op == "resize") {
      int n = (int)l.num();
      T x((int)l.num());
      int how = (int)l.num();
      Track t;
      if (how)
        d.resize(n, x);
      else
        d.resize(n);
    } else if (op == "assign") {
      int n = (int)l.num();
      T x((int)l.num());
      Track t;
      d.assign(n, x);
    } else if (op == "clear") {
      d.clear();
    } else if (op == "reserve") {
      int n = (int)l.num();
      Track t;
      d.reserve(n);
    } else if (op == "dispose") {
      int how = (int)l.num();
      Track t;
      if (how)
        es::allocator_hybrid_base::DisposeStorage(d);
      else {
        d.~V();
        new (&d) V();
      }
    } else if (op == "copy") {
      V &s = *v[l.num() - 1];
      Track t;
      V c(s);
      d = std::move(c);
    } else if (op == "copyto") {
      V &s = *v[l.num() - 1];
      Track t;
      d = s;
    } else if (op == "move") {
      V &s = *v[l.num() - 1];
      int how = (int)l.num();
      Track t;
      if (how)
        d = std::move(s);
      else {
        V c(std::move(s));
        d = std::move(c);
      }
    } else if (op == "swap") {
      V &s = *v[l.num() - 1];
      int how = (int)l.num();
      Track t;
      if (how)
        d.swap(s);
      else
        std::swap(d, s);
    }
  }
  void tell(Out &o) override {
    std::vector<std::string> vs, rs;
    size_t own = 0;
    for (auto &p : v) {
      int r = 0;
      long long from = 0;
      if (outside(p->data())) {
        for (int k = 0; k < NR; k++)
          if ((char *)p->data() >= area[k] && (char *)p->data() < area[k] + 4096) {
            r = k + 1;
            from = p->data() - at(k);
          }
      } else if (p->data())
        own++;
      std::vector<int> it;
      for (auto &x : *p)
        it.push_back(static_cast<int>(x));
      vs.push_back("{\"r\":" + std::to_string(r) + ",\"from\":" + std::to_string(from) + ",\"cap\":" +
                   std::to_string(r ? (long long)p->capacity() : 0) + ",\"items\":" + jints(it) + "}");
    }
    for (int r = 0; r < NR; r++) {
      std::vector<int> it;
      for (int i = 0; i < LEN; i++)
        it.push_back(static_cast<int>(at(r)[i]));
      rs.push_back(jints(it));
    }
    o.raw("vs", jlist(vs)).raw("rs", jlist(rs)).i("lost", (long long)nlive - (long long)own).i("foreign", foreign);
  }
};
int main() {
  for (auto &a : area)
    a = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  std::unique_ptr<IVecs> vs;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset") {
      std::string t = l.word();
      vs.reset();
      nlive = 0;
      foreign = 0;
      if (t == "1")
        vs.reset(new Vecs<unsigned char>());
      else if (t == "4")
        vs.reset(new Vecs<int>());
      else
        vs.reset(new Vecs<Triple>());
    } else
      vs->op(op, l);
    vs->tell(o);
  });
}
