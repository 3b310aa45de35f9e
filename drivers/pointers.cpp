// Offsets made pointers in place: absolute ones of 64 bits and self relative ones of 32 bits
#include "common.hpp"
#include "datas/pointer.hpp"
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
using namespace drv;
namespace es {
thread_local std::vector<void *> usedPts;
}
// The block: slots of 8 bytes, then what they may point to. Places are counted from
// ROOM bytes before the block, so that they are never zero.
struct Thing {
  unsigned char v;
};
static int N = 0;
static const size_t ROOM = 1 << 20;
alignas(16) static unsigned char area[ROOM * 3];
static unsigned char *const block = area + ROOM;
static long long rel(const void *p) { // 0: null; else the place; -7: far away
  if (!p)
    return 0;
  long long d = (const unsigned char *)p - area;
  return d > 1000000000 || d < -1000000000 ? -7 : d;
}
template <class P> struct Kind {
  static P &slot(int i) { return *reinterpret_cast<P *>(block + (i - 1) * 8); }
  static const P &cslot(int i) { return slot(i); }
  static void read(Line &l, Out &o) {
    int i = (int)l.num();
    const bool look = l.num();
    Thing *a = slot(i);
    const Thing *b = cslot(i);
    Thing *c = slot(i).operator->();
    const Thing *d = cslot(i).operator->();
    o.i("conv", rel(a)).i("cconv", rel(b)).i("arrow", rel(c)).i("carrow", rel(d));
    const bool inside = look && rel(a) > 0 && rel(a) < (long long)sizeof(area);
    o.i("star", inside ? (*slot(i)).v : -1).i("cstar", inside ? (*cslot(i)).v : -1).i("want", inside ? area[rel(a)] : -1);
  }
  static int fixup(int i, char *root, bool nc, bool plain) { return plain && !nc ? slot(i).Fixup(root) : slot(i).Fixup(root, nc); }
  static int fixed(int i) { return cslot(i).Fixed(); }
  static void assign(int i, Thing *t) { slot(i) = t; }
};
typedef Kind<esPointerX64<Thing>> K64;
typedef Kind<esPointerX86<Thing>> K32;
// two threads, told what to do one after the other
struct Worker {
  std::mutex m;
  std::condition_variable c;
  std::function<void()> job;
  bool stop = false;
  std::thread th;
  Worker() : th([this] { run(); }) {}
  void run() {
    std::unique_lock<std::mutex> g(m);
    while (!stop) {
      c.wait(g, [this] { return job || stop; });
      if (job) {
        job();
        job = nullptr;
        c.notify_all();
      }
    }
  }
  void operator()(std::function<void()> f) {
    std::unique_lock<std::mutex> g(m);
    job = f;
    c.notify_all();
    c.wait(g, [this] { return !job; });
  }
  ~Worker() {
    {
      std::lock_guard<std::mutex> g(m);
      stop = true;
    }
    c.notify_all();
    th.join();
  }
};
int main() {
  Worker second;
  bool wide = true;
  auto on = [&](int t, std::function<void()> f) {
    if (t == 1)
      f();
    else
      second(f);
  };
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset") {
      wide = l.word() == "64";
      N = (int)l.num();
      memset(area, 0, sizeof(area));
      for (size_t i = 0; i < sizeof(area); i++)
        if (area + i < block || area + i >= block + N * 8)
          area[i] = (unsigned char)(i * 7 + i / 256);
      for (int t : {1, 2})
        on(t, [] { ClearESPointers(); });
    } else if (op == "poke") {
      int i = (int)l.num();
      long long v = l.num();
      memset(block + (i - 1) * 8, 0, 8);
      int32_t n = (int32_t)v;
      if (wide)
        memcpy(block + (i - 1) * 8, &v, 8);
      else
        memcpy(block + (i - 1) * 8, &n, 4);
    } else if (op == "fixup") {
      int i = (int)l.num(), t = (int)l.num();
      char *root = reinterpret_cast<char *>(area) + l.num();
      bool nc = l.num(), plain = l.num();
      int r = 0;
      on(t, [&] { r = wide ? K64::fixup(i, root, nc, plain) : K32::fixup(i, root, nc, plain); });
      o.i("r", r);
    } else if (op == "fixed") {
      int i = (int)l.num(), t = (int)l.num();
      int r = 0;
      on(t, [&] { r = wide ? K64::fixed(i) : K32::fixed(i); });
      o.i("r", r);
    } else if (op == "read") {
      if (wide)
        K64::read(l, o);
      else
        K32::read(l, o);
    } else if (op == "assign") {
      int i = (int)l.num();
      long long at = l.num();
      Thing *p = at ? reinterpret_cast<Thing *>(area + at) : nullptr;
      if (wide)
        K64::assign(i, p);
      else
        K32::assign(i, p);
    } else if (op == "clear") {
      on((int)l.num(), [] { ClearESPointers(); });
    }
    std::vector<std::string> m;
    for (int i = 1; i <= N; i++) {
      long long raw = 0, at = 0;
      if (wide) {
        memcpy(&raw, block + (i - 1) * 8, 8);
        at = rel((void *)raw);
      } else {
        int32_t n, rest;
        memcpy(&n, block + (i - 1) * 8, 4);
        memcpy(&rest, block + (i - 1) * 8 + 4, 4);
        raw = rest ? -999999999 : n; // behind a slot there is nothing
        at = rest ? -999999999 : rel(block + (i - 1) * 8 + n);
      }
      if (raw > 1000000000 || raw < -1000000000)
        raw = -7;
      m.push_back("{\"raw\":" + std::to_string(raw) + ",\"at\":" + std::to_string(at) + "}");
    }
    o.raw("mem", jlist(m));
  });
}
