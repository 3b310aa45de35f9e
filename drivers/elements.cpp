// Handles, lists, and calls left to their defaults
#include "common.hpp"
#include "datas/matrix44.hpp"
#include "uni/list_vector.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/rts.hpp"
#include "uni/skeleton.hpp"
#include <map>
#include <memory>
using namespace drv;
static std::vector<long long> dead;
struct IThing : uni::Base {
  virtual int Id() const = 0;
};
struct Thing : IThing {
  int id;
  explicit Thing(int i) : id(i) {}
  Thing(Thing &&o) : id(o.id) { o.id = 0; }
  Thing &operator=(Thing &&o) {
    std::swap(id, o.id);
    return *this;
  }
  ~Thing() override {
    if (id)
      dead.push_back(id);
    id = -5;
  }
  int Id() const override { return id; }
  operator uni::Element<const IThing>() const { return {static_cast<const IThing *>(this), false}; }
};
typedef uni::Element<IThing> E;
typedef uni::Element<const IThing> CE;
typedef uni::VectorList<IThing, Thing> L1;
typedef uni::PolyVectorList<IThing, Thing> L2;
typedef uni::PolyVectorList<IThing, Thing, std::shared_ptr> L3;
typedef uni::VectorList<int, int, uni::Vector> L4;
static int idof(int v) { return v; }
static int idof(const CE &e) { return e ? e->Id() : 0; }
template <class L> static std::vector<long long> iterate(const L &l, int way) {
  std::vector<long long> r;
  if (way == 0) {
    for (auto e : l)
      r.push_back(idof(e));
  } else if (way == 1) {
    auto b = l.begin();
    while (b != l.end()) {
      auto o = b++;
      r.push_back(idof(*o));
    }
  } else {
    auto e = l.end();
    for (auto b = l.begin(); !(b == e); ++b)
      r.push_back(idof(*b));
  }
  return r;
}
template <class C> struct Counted {
  std::vector<C> v;
  size_t Num() const { return v.size(); }
  C Get(size_t i) const { return v[i]; }
  uni::VirtualIteratorProxy<Counted, &Counted::Num, C, &Counted::Get> All() const {
    return uni::VirtualIteratorProxy<Counted, &Counted::Num, C, &Counted::Get>(this);
  }
};
template <int over> struct BoneX : uni::Bone {
  int t;
  uni::TransformType TMType() const override { return uni::TransformType(t); }
  const uni::Bone *Parent() const override { return nullptr; }
  size_t Index() const override { return t; }
  std::string Name() const override { return ""; }
};
template <class B, bool on> struct AddRts : B {};
template <class B> struct AddRts<B, true> : B {
  using B::GetTM;
  void GetTM(uni::RTSValue &) const override {}
};
template <class B, bool on> struct AddMat : B {};
template <class B> struct AddMat<B, true> : B {
  using B::GetTM;
  void GetTM(esMatrix44 &) const override {}
};
struct SkinX : uni::Skin {
  int t;
  size_t NumNodes() const override { return 1; }
  uni::TransformType TMType() const override { return uni::TransformType(t); }
  size_t NodeIndex(size_t i) const override { return i; }
};
template <class B, bool on> struct SkRts : B {};
template <class B> struct SkRts<B, true> : B {
  void GetTM(uni::RTSValue &, size_t) const override {}
};
template <class B, bool on> struct SkMat : B {};
template <class B> struct SkMat<B, true> : B {
  void GetTM(esMatrix44 &, size_t) const override {}
};
struct TrackX : uni::MotionTrack {
  int t;
  TrackType_e TrackType() const override { return TrackType_e(t); }
  size_t BoneIndex() const override { return t; }
};
template <class B, bool on, class V> struct TrAdd : B {};
template <class B, class V> struct TrAdd<B, true, V> : B {
  void GetValue(V &, float) const override {}
};
template <class F> static int answer(F f) {
  try {
    f();
    return 0;
  } catch (const std::logic_error &) {
    return 1;
  } catch (const std::runtime_error &) {
    return 2;
  } catch (const std::exception &) {
    return 3;
  } catch (...) {
    return 4;
  }
}
template <int o> static int call(const std::string &cls, int type, int c) {
  uni::RTSValue r;
  esMatrix44 m;
  Vector4A16 v;
  float f;
  if (cls == "bone") {
    AddMat<AddRts<BoneX<o>, (o & 1) != 0>, (o & 2) != 0> x;
    x.t = type;
    const uni::Bone &b = x;
    return c == 0 ? answer([&] { b.GetTM(r); }) : answer([&] { b.GetTM(m); });
  }
  if (cls == "skin") {
    SkMat<SkRts<SkinX, (o & 1) != 0>, (o & 2) != 0> x;
    x.t = type;
    const uni::Skin &b = x;
    return c == 0 ? answer([&] { b.GetTM(r, 0); }) : answer([&] { b.GetTM(m, 0); });
  }
  TrAdd<TrAdd<TrAdd<TrAdd<TrackX, (o & 1) != 0, uni::RTSValue>, (o & 2) != 0, esMatrix44>, (o & 4) != 0, Vector4A16>, (o & 8) != 0, float> x;
  x.t = type;
  const uni::MotionTrack &b = x;
  return c == 0 ? answer([&] { b.GetValue(r, 0); }) : c == 1 ? answer([&] { b.GetValue(m, 0); })
         : c == 2 ? answer([&] { b.GetValue(v, 0); }) : answer([&] { b.GetValue(f, 0); });
}
struct MotionX : uni::Motion {
  using uni::Motion::FrameRate;
  std::string Name() const override { return ""; }
  uint32 FrameRate() const override { return 30; }
  float Duration() const override { return 1; }
  uni::MotionTracksConst Tracks() const override { return {}; }
  MotionType_e MotionType() const override { return Absolute; }
};
struct MotionY : MotionX {
  void FrameRate(uint32) const override {}
};
struct DescX : uni::PrimitiveDescriptor {
  uni::BBOX b;
  int how;
  const char *RawBuffer() const override { return nullptr; }
  size_t Stride() const override { return 0; }
  size_t Offset() const override { return 0; }
  size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Undefined; }
  uni::FormatDescr Type() const override { return {}; }
  uni::FormatCodec &Codec() const override { abort(); }
  uni::BBOX UnpackData() const override { return b; }
  UnpackDataType_e UnpackDataType() const override { return UnpackDataType_e(how); }
};
static Vector4A16 v4(Line &l) {
  Vector4A16 v;
  for (int i = 0; i < 4; i++)
    v._arr[i] = (float)l.num();
  return v;
}
int main() {
  E h[3];
  CE c[3];
  std::map<int, std::unique_ptr<Thing>> store;
  L1 l1;
  L2 l2;
  L3 l3;
  L4 l4;
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    dead.clear();
    o.i("ok", 1);
    if (op == "reset") {
      for (auto &x : h)
        x.reset();
      for (auto &x : c)
        x.reset();
      l1.storage.clear();
      l2.storage.clear();
      l3.storage.clear();
      l4.storage.clear();
      store.clear();
      dead.clear();
    } else if (op == "new") {
      int i = (int)l.num() - 1, id = (int)l.num(), how = (int)l.num();
      std::unique_ptr<Thing> u(new Thing(id));
      if (i > 2) {
        if (how == 0)
          c[i - 3] = CE(u.release());
        else if (how == 1)
          c[i - 3] = uni::ToElement(std::move(u));
        else
          c[i - 3] = uni::ToElement(u);
      } else if (how == 0)
        h[i] = E(u.release());
      else if (how == 1)
        h[i] = uni::ToElement(std::move(u));
      else if (how == 2)
        h[i] = uni::ToElement(u);
      else
        h[i] = E(u.release(), true);
    } else if (op == "borrow") {
      int i = (int)l.num() - 1, id = (int)l.num();
      if (!store.count(id))
        store[id].reset(new Thing(id));
      if (i > 2)
        c[i - 3] = CE(store[id].get(), false);
      else
        h[i] = E(store[id].get(), false);
    } else if (op == "move") {
      int i = (int)l.num() - 1, g = (int)l.num() - 1;
      if (i <= 2)
        h[i] = std::move(h[g]);
      else if (g <= 2)
        c[i - 3] = std::move(h[g]);
      else
        c[i - 3] = std::move(c[g - 3]);
    } else if (op == "drop") {
      int i = (int)l.num() - 1, how = (int)l.num();
      if (i <= 2) {
        if (how)
          h[i].reset();
        else
          E x(std::move(h[i]));
      } else {
        if (how)
          c[i - 3].reset();
        else
          CE x(std::move(c[i - 3]));
      }
    } else if (op == "unstore") {
      store.erase((int)l.num());
    } else if (op == "push") {
      int k = (int)l.num(), id = (int)l.num();
      if (k == 1)
        l1.storage.emplace_back(id);
      else if (k == 2)
        l2.storage.emplace_back(new Thing(id));
      else if (k == 3)
        l3.storage.emplace_back(new Thing(id));
      else
        l4.storage.push_back(id);
    } else if (op == "erase") {
      int k = (int)l.num(), i = (int)l.num() - 1;
      if (k == 1)
        l1.storage.erase(l1.storage.begin() + i);
      else if (k == 2)
        l2.storage.erase(l2.storage.begin() + i);
      else if (k == 3)
        l3.storage.erase(l3.storage.begin() + i);
      else
        l4.storage.erase(l4.storage.begin() + i);
    } else if (op == "at") {
      int k = (int)l.num();
      size_t i = (size_t)l.num() - 1;
      int x = (int)l.num() - 1, how = (int)l.num();
      int err = 0, got = 0;
      try {
        if (k == 4) {
          const uni::Vector<int> &b = l4;
          got = how == 0 ? l4.At(i) : how == 1 ? l4[i] : how == 2 ? b.At(i) : b[i];
        } else {
          const uni::List<IThing> &b = k == 1 ? (const uni::List<IThing> &)l1 : k == 2 ? (const uni::List<IThing> &)l2 : l3;
          CE e;
          if (how == 2)
            e = b.At(i);
          else if (how == 3)
            e = b[i];
          else if (k == 1)
            e = how ? l1[i] : l1.At(i);
          else if (k == 2)
            e = how ? l2[i] : l2.At(i);
          else
            e = how ? l3[i] : l3.At(i);
          got = idof(e);
          c[x - 3] = std::move(e);
        }
      } catch (const std::out_of_range &) {
        err = 1;
      }
      o.i("err", err).i("got", got);
    } else if (op == "iter") {
      int k = (int)l.num(), way = (int)l.num(), base = (int)l.num();
      std::vector<long long> r;
      if (k == 4) {
        r = base ? iterate((const uni::Vector<int> &)l4, way) : iterate(l4, way);
        if (base == 2) {
          Counted<int> n;
          n.v = l4.storage;
          r.clear();
          for (auto v : n.All())
            r.push_back(v);
        }
      } else {
        const uni::List<IThing> &b = k == 1 ? (const uni::List<IThing> &)l1 : k == 2 ? (const uni::List<IThing> &)l2 : l3;
        r = base ? iterate(b, way) : k == 1 ? iterate(l1, way) : k == 2 ? iterate(l2, way) : iterate(l3, way);
      }
      o.raw("got", jints(r));
    } else if (op == "size") {
      int k = (int)l.num();
      o.i("got", (long long)(k == 1 ? l1.Size() : k == 2 ? l2.Size() : k == 3 ? l3.Size() : l4.Size()));
    } else if (op == "whole") { // a list in a handle
      int k = (int)l.num(), own = (int)l.num();
      std::unique_ptr<uni::List<IThing>> keep;
      std::vector<long long> r;
      {
        uni::Element<const uni::List<IThing>> e;
        uni::List<IThing> *p;
        if (k == 1) {
          L1 *q = new L1();
          p = q;
          while (l.more())
            q->storage.emplace_back((int)l.num());
        } else if (k == 2) {
          L2 *q = new L2();
          p = q;
          while (l.more())
            q->storage.emplace_back(new Thing((int)l.num()));
        } else {
          L3 *q = new L3();
          p = q;
          while (l.more())
            q->storage.emplace_back(new Thing((int)l.num()));
        }
        uni::Element<uni::List<IThing>> m(p, own != 0);
        if (!own)
          keep.reset(p);
        e = std::move(m);
        r = iterate(*e, 0);
      }
      o.raw("got", jints(r)).raw("gone", jints(dead));
      keep.reset();
      dead.clear();
    } else if (op == "call") {
      std::string cls = l.word();
      int t = (int)l.num(), cc = (int)l.num(), over = (int)l.num(), r = 0;
      switch (over) {
#define C(n) case n: r = call<n>(cls, t, cc); break;
        C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15)
      }
      o.i("got", r);
    } else if (op == "rate") {
      int over = (int)l.num();
      MotionX x;
      MotionY y;
      const uni::Motion &m = over ? (const uni::Motion &)y : x;
      o.i("got", answer([&] { m.FrameRate(60); }));
    } else if (op == "resample") {
      DescX d;
      d.how = (int)l.num();
      d.b.min = v4(l);
      d.b.max = v4(l);
      uni::FormatCodec::fvec vs;
      while (l.more())
        vs.push_back(v4(l));
      d.Resample(vs);
      std::vector<std::string> r;
      for (auto &v : vs)
        r.push_back(jints(std::vector<float>{v._arr[0], v._arr[1], v._arr[2], v._arr[3]}));
      o.raw("got", jlist(r));
    }
    std::vector<int> hs;
    for (auto &x : h)
      hs.push_back(x ? x->Id() : 0);
    for (auto &x : c)
      hs.push_back(idof(x));
    o.raw("hs", jints(hs)).raw("dead", jints(dead));
  });
}
