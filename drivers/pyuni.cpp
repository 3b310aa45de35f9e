// Python objects of skeletons and motions, used as Python would use them
#include "common.hpp"
#include "py2/pyshim.hpp"
#include "datas/matrix44.hpp"
#include "datas/reflector.hpp"
#include "datas/python/reflected_enum.hpp"
#include "datas/python/matrix44.hpp"
#include "datas/python/vectors.hpp"
#include "uni/python/pyrts.hpp"
#include "uni/rts.hpp"
#include "uni/python/pymotion.hpp"
#include "uni/python/pyskeleton.hpp"
#include <map>
#include <memory>
using namespace drv;
#include "pyenums.inc"

static std::vector<long long> gone;
struct Thing {
  int kind = 0, id = 0;
  long long a = 0, b = 0, dur = 0;
  std::string name;
  std::vector<long long> v, items;
  int ref = 0, fresh = 0;
  uni::Base *made = nullptr;
};
static std::map<int, Thing> things;
struct Life { // tells the end of what it is part of
  int id;
  Life(int i) : id(i) {}
  ~Life() {
    gone.push_back(id);
    if (id < 1000 && things.count(id))
      things[id].made = nullptr;
  }
};
static uni::Base *create(int id, int as);
template <class C> C *made(int id) {
  return id ? dynamic_cast<C *>(things.at(id).made) : nullptr;
}
static float q(long long v) { return v / 4.f; }
static void fill(float *to, size_t n, const Thing &t, float time = 0) {
  for (size_t i = 0; i < n; i++)
    to[i] = q(t.v[i]) + time * (i + 1);
}
static void rts(uni::RTSValue &out, const Thing &t, float time = 0) {
  float f[12];
  fill(f, 12, t, time);
  out.translation = Vector4A16(f[0], f[1], f[2], f[3]);
  out.rotation = Vector4A16(f[4], f[5], f[6], f[7]);
  out.scale = Vector4A16(f[8], f[9], f[10], f[11]);
}
static void mtx(esMatrix44 &out, const Thing &t, float time = 0) {
  float f[16];
  fill(f, 16, t, time);
  for (size_t i = 0; i < 4; i++)
    out[i] = Vector4A16(f[4 * i], f[4 * i + 1], f[4 * i + 2], f[4 * i + 3]);
}
struct MyBone : uni::Bone {
  Life life;
  const Thing &t;
  MyBone(const Thing &t, int as) : life(as), t(t) {}
  uni::TransformType TMType() const override { return uni::TransformType(t.a); }
  void GetTM(uni::RTSValue &out) const override { rts(out, t); }
  void GetTM(esMatrix44 &out) const override { mtx(out, t); }
  const uni::Bone *Parent() const override { return made<uni::Bone>(t.ref); }
  size_t Index() const override { return t.b; }
  std::string Name() const override { return t.name; }
};
struct MyTrack : uni::MotionTrack {
  Life life;
  const Thing &t;
  MyTrack(const Thing &t, int as) : life(as), t(t) {}
  TrackType_e TrackType() const override { return TrackType_e(t.a); }
  size_t BoneIndex() const override { return t.b; }
  void GetValue(uni::RTSValue &out, float time) const override { rts(out, t, time); }
  void GetValue(esMatrix44 &out, float time) const override { mtx(out, t, time); }
  void GetValue(Vector4A16 &out, float time) const override {
    float f[4];
    fill(f, 4, t, time);
    out = Vector4A16(f[0], f[1], f[2], f[3]);
  }
  void GetValue(float &out, float time) const override { fill(&out, 1, t, time); }
};
template <class C> struct MyList : uni::List<C> {
  Life life;
  const Thing &t;
  MyList(const Thing &t, int as) : life(as), t(t) {}
  size_t Size() const override { return t.items.size(); }
  uni::Element<const C> At(size_t i) const override {
    int id = t.items.at(i);
    if (t.fresh)
      return uni::Element<const C>(dynamic_cast<const C *>(create(id, id + 1000)));
    return uni::Element<const C>(made<C>(id), false);
  }
};
template <class C> uni::Element<const uni::List<C>> listof(const Thing &t) {
  if (t.fresh)
    return uni::Element<const uni::List<C>>(dynamic_cast<const uni::List<C> *>(create(t.ref, t.ref + 1000)));
  return uni::Element<const uni::List<C>>(made<uni::List<C>>(t.ref), false);
}
struct MySkeleton : uni::Skeleton {
  Life life;
  const Thing &t;
  MySkeleton(const Thing &t, int as) : life(as), t(t) {}
  uni::SkeletonBonesConst Bones() const override { return listof<uni::Bone>(t); }
  std::string Name() const override { return t.name; }
};
struct MyMotion : uni::Motion {
  Life life;
  const Thing &t;
  mutable uint32 fps;
  bool made;
  MyMotion(const Thing &t, int as) : life(as), t(t), fps(t.b), made(as > 1000) {}
  std::string Name() const override { return t.name; }
  // what is made anew later is made as the thing is then
  void FrameRate(uint32 f) const override {
    fps = f;
    if (!made)
      const_cast<Thing &>(t).b = f;
  }
  uint32 FrameRate() const override { return fps; }
  float Duration() const override { return q(t.dur); }
  uni::MotionTracksConst Tracks() const override { return listof<uni::MotionTrack>(t); }
  MotionType_e MotionType() const override { return MotionType_e(t.a); }
};
enum { BONE = 1, BONES, SKEL, SKELS, TRACK, TRACKS, MOTION, MOTIONS };
static uni::Base *create(int id, int as) {
  const Thing &t = things.at(id);
  switch (t.kind) {
  case BONE: return new MyBone(t, as);
  case BONES: return new MyList<uni::Bone>(t, as);
  case SKEL: return new MySkeleton(t, as);
  case SKELS: return new MyList<uni::Skeleton>(t, as);
  case TRACK: return new MyTrack(t, as);
  case TRACKS: return new MyList<uni::MotionTrack>(t, as);
  case MOTION: return new MyMotion(t, as);
  default: return new MyList<uni::Motion>(t, as);
  }
}

// ------------------------------------------------------------------ Python
struct Failed {};
static std::map<int, PyObject *> hs;
static PyObject *module;
// what is pending as an error, taken away
static std::string pending() {
  PyObject *t = PyErr_Occurred();
  std::string r = t ? ((PyTypeObject *)t)->tp_name : "";
  PyErr_Clear();
  return r;
}
static Out *out;
// an answer: an object, or an error
template <class F> PyObject *ask(F f) {
  PyObject *r;
  try {
    r = f();
  } catch (...) {
    PyErr_Clear();
    out->raw("err", "\"C++ exception\"");
    return nullptr;
  }
  std::string e = pending();
  if (!r && e.empty())
    e = "no error told";
  else if (r && !e.empty())
    e = "error left: " + e, Py_DECREF(r), r = nullptr;
  out->raw("err", "\"" + e + "\"");
  return r;
}
static std::string text(PyObject *o) {
  Py_ssize_t n = 0;
  const char *s = o && PyUnicode_Check(o) ? PyUnicode_AsUTF8AndSize(o, &n) : nullptr;
  PyErr_Clear();
  return s ? std::string(s, n) : "not a text";
}
static long long quarters(PyObject *o) {
  if (!o || !PyFloat_Check(o))
    return -99999999;
  double d = PyFloat_AsDouble(o) * 4;
  return d == (long long)d ? (long long)d : -88888888;
}
// texts, numbers and tuples of floats, as bytes or quarters
static void tell(PyObject *o) {
  std::string shape;
  std::vector<long long> v;
  auto tuple = [&](PyObject *t) {
    shape += std::to_string(PyTuple_Size(t));
    for (Py_ssize_t i = 0; i < PyTuple_Size(t); i++)
      v.push_back(quarters(PyTuple_GetItem(t, i)));
  };
  if (o == Py_None)
    shape = "none";
  else if (PyUnicode_Check(o)) {
    shape = "text";
    for (unsigned char c : text(o))
      v.push_back(c);
  } else if (PyLong_Check(o))
    shape = "int", v.push_back(PyLong_AsLongLong(o));
  else if (PyFloat_Check(o))
    shape = "float", v.push_back(quarters(o));
  else if (PyTuple_Check(o) && PyTuple_Size(o) && PyTuple_Check(PyTuple_GetItem(o, 0)))
    for (Py_ssize_t i = 0; i < PyTuple_Size(o); i++)
      tuple(PyTuple_GetItem(o, i));
  else if (PyTuple_Check(o))
    tuple(o);
  else
    shape = Py_TYPE(o)->tp_name;
  out->raw("shape", "\"" + shape + "\"").raw("v", jints(v));
}
static void keep(int h, PyObject *o) {
  if (o) {
    out->raw("type", std::string("\"") + Py_TYPE(o)->tp_name + "\"");
    hs[h] = o;
  }
}
static PyObject *key(Line &l) {
  std::string w = l.word();
  if (w == "str")
    return PyUnicode_FromString("1");
  if (w == "float")
    return PyFloat_FromDouble(0.0);
  return PyLong_FromLongLong(std::stoll(w));
}
static PyObject *attr(PyObject *o, const std::string &n) { return PyObject_GetAttrString(o, n.c_str()); }
static long long blocks() {
  PyGC_Collect();
  PyObject *sys = PyImport_ImportModule("sys");
  PyObject *r = PyObject_CallMethod(sys, "getallocatedblocks", nullptr);
  long long n = PyLong_AsLongLong(r);
  Py_XDECREF(r);
  Py_DECREF(sys);
  return n;
}
static PyObject *wrap(int id, bool own) {
  Thing &t = things.at(id);
  if (t.kind == SKEL)
    return (PyObject *)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(made<uni::Skeleton>(id), own));
  if (t.kind == SKELS)
    return UniPy::Skeleton::Create(uni::SkeletonsConst(made<uni::List<uni::Skeleton>>(id), own));
  if (t.kind == MOTION)
    return (PyObject *)UniPy::Motion::Create(uni::Element<const uni::Motion>(made<uni::Motion>(id), own));
  return UniPy::Motion::Create(uni::MotionsConst(made<uni::List<uni::Motion>>(id), own));
}
static PyObject *times(Line &l) {
  PyObject *list = PyList_New(0);
  while (l.more()) {
    std::string w = l.word();
    PyObject *o = w == "str" ? PyUnicode_FromString("1") : w[0] == 'i' ? PyLong_FromLongLong(std::stoll(w.substr(1))) : PyFloat_FromDouble(std::stoll(w) / 4.);
    PyList_Append(list, o);
    Py_DECREF(o);
  }
  return list;
}
static void drop(PyObject *o) {
  Py_XDECREF(o);
  PyErr_Clear();
}
// everything once that can be asked of an object
static void use(PyObject *o) {
  for (const char *n : {"name", "index", "tm_type", "transform", "parent", "bones", "track_type", "bone_index", "duration", "motion_type", "framerate", "tracks", "nothing"})
    drop(attr(o, n));
  PyObject *k = PyLong_FromLong(0), *far = PyLong_FromLong(99);
  if (PyMapping_Check(o)) {
    drop(PyObject_GetItem(o, k));
    drop(PyObject_GetItem(o, far));
  }
  if (Py_TYPE(o)->tp_iter) {
    PyObject *it = PyObject_GetIter(o);
    while (PyObject *x = PyIter_Next(it))
      Py_DECREF(x);
    Py_DECREF(it);
  }
  drop(PyObject_CallMethod(o, "get_values", "([ddi])", 0.25, 2.0, 3));
  drop(PyObject_CallMethod(o, "get_values", "([s])", "x"));
  PyErr_Clear();
  Py_DECREF(k);
  Py_DECREF(far);
}
static void clear() {
  for (auto &h : hs)
    Py_DECREF(h.second);
  hs.clear();
  std::vector<uni::Base *> rest;
  for (auto &t : things)
    if (t.second.made)
      rest.push_back(t.second.made);
  for (auto *r : rest)
    delete r;
  things.clear();
  gone.clear();
}
static void quiet() { PyErr_Clear(); }
int main() {
  Py_InitializeEx(0);
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "uni", nullptr, -1, nullptr};
  module = PyModule_Create(&def);
  UniPy::Skeleton::InitType(module);
  UniPy::Motion::InitType(module);
#include "pyenums_types.inc"
  quiet();
  return loop([&](Line &l, Out &o) {
    out = &o;
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "reset")
      clear();
    else if (op == "thing") {
      Thing t;
      t.id = l.num(), t.kind = l.num(), t.a = l.num(), t.b = l.num(), t.dur = l.num(), t.ref = l.num(), t.fresh = l.num();
      t.name = l.str();
      for (long long n = l.num(); n; n--)
        t.items.push_back(l.num());
      while (l.more())
        t.v.push_back(l.num());
      things[t.id] = t;
      things[t.id].made = create(t.id, t.id);
    } else if (op == "wrap") {
      int h = l.num(), id = l.num();
      bool own = l.num();
      keep(h, ask([&] { return wrap(id, own); }));
    } else if (op == "del") {
      int h = l.num();
      PyObject *x = hs.at(h);
      hs.erase(h);
      Py_DECREF(x);
      o.raw("err", "\"" + pending() + "\"");
    } else if (op == "same") { // one more reference
      int h = l.num(), g = l.num();
      Py_INCREF(hs.at(g));
      hs[h] = hs.at(g);
    } else if (op == "len") {
      Py_ssize_t n = PyObject_Size(hs.at(l.num()));
      o.i("n", n).raw("err", "\"" + pending() + "\"");
    } else if (op == "get") {
      int h = l.num(), g = l.num();
      PyObject *k = key(l);
      keep(h, ask([&] { return PyObject_GetItem(hs.at(g), k); }));
      Py_DECREF(k);
    } else if (op == "iter") {
      int h = l.num(), g = l.num();
      PyObject *x = ask([&] { return PyObject_GetIter(hs.at(g)); });
      if (x)
        hs[h] = x;
    } else if (op == "next") {
      int h = l.num(), g = l.num();
      bool end = false;
      PyObject *x = ask([&]() -> PyObject * {
        PyObject *r = Py_TYPE(hs.at(g))->tp_iternext(hs.at(g));
        if (!r && (!PyErr_Occurred() || PyErr_ExceptionMatches(PyExc_StopIteration))) {
          PyErr_Clear();
          end = true;
          Py_INCREF(Py_None);
          return Py_None;
        }
        return r;
      });
      o.i("end", end);
      if (end)
        drop(x);
      else
        keep(h, x);
    } else if (op == "all") { // list(x)
      int g = l.num();
      PyObject *x = ask([&] { return PySequence_List(hs.at(g)); });
      std::vector<std::string> names;
      for (Py_ssize_t i = 0; x && i < PyList_Size(x); i++) {
        PyObject *it = PyList_GetItem(x, i);
        bool track = std::string(Py_TYPE(it)->tp_name) == "uni::MotionTrack";
        PyObject *n = attr(it, track ? "bone_index" : "name");
        names.push_back(track ? "[" + std::to_string(n ? PyLong_AsLongLong(n) : -1) + "]" : jstr(text(n)));
        drop(n);
      }
      drop(x);
      o.raw("names", jlist(names));
    } else if (op == "attr") {
      int g = l.num();
      std::string n = l.word();
      int h = l.num();
      PyObject *x = ask([&] { return attr(hs.at(g), n); });
      if (x) {
        tell(x);
        if (h && x != Py_None)
          hs[h] = x;
        else
          Py_DECREF(x);
      }
    } else if (op == "set") {
      PyObject *g = hs.at(l.num());
      std::string n = l.word(), w = l.word();
      PyObject *v = w == "del" ? nullptr : w == "str" ? PyUnicode_FromString("7") : PyLong_FromLongLong(std::stoll(w));
      int r = v ? PyObject_SetAttrString(g, n.c_str(), v) : PyObject_SetAttr(g, PyUnicode_FromString(n.c_str()), nullptr);
      bool was = PyErr_Occurred();
      std::string e = pending();
      o.raw("err", "\"" + ((r != 0) == was ? e : "error and result disagree") + "\"");
      drop(v);
    } else if (op == "values") {
      PyObject *g = hs.at(l.num());
      PyObject *t = times(l);
      PyObject *x = ask([&] { return PyObject_CallMethod(g, "get_values", "(O)", t); });
      Py_DECREF(t);
      std::vector<std::string> shapes, vals;
      if (x && !PyList_Check(x))
        shapes.push_back("\"no list\"");
      else
        for (Py_ssize_t i = 0; x && i < PyList_Size(x); i++) {
          Out one;
          Out *was = out;
          out = &one;
          PyObject *it = PyList_GetItem(x, i);
          if (it)
            tell(it);
          out = was;
          vals.push_back(one.s + "}");
        }
      o.raw("vals", jlist(vals)).raw("odd", jlist(shapes));
      drop(x);
    } else if (op == "novalues") { // called with something else than a list
      PyObject *g = hs.at(l.num());
      PyObject *k = key(l);
      drop(ask([&] { return PyObject_CallMethod(g, "get_values", "(O)", k); }));
      Py_DECREF(k);
    } else if (op == "cmp") {
      int g = l.num(), h = l.num();
      o.i("r", UniPy::Bone::Compare((UniPy::Bone *)hs.at(g), (UniPy::Bone *)hs.at(h)) != 0);
    } else if (op == "enum" || op == "enumlen" || op == "enumname") {
      PyObject *type = attr(module, l.word());
      PyObject *x = type ? PyObject_CallNoArgs(type) : nullptr;
      if (!x)
        o.raw("err", "\"no such type\"");
      else if (op == "enumlen")
        o.i("n", PyObject_Size(x)).raw("err", "\"" + (Py_TYPE(x)->tp_basicsize < (Py_ssize_t)sizeof(PyObject) ? "objects too small" : pending()) + "\"");
      else {
        PyObject *k = op == "enum" ? key(l) : nullptr;
        std::string name = k ? "" : l.str();
        PyObject *r = ask([&] { return k ? PyObject_GetItem(x, k) : attr(x, name); });
        if (r)
          tell(r);
        drop(r);
        drop(k);
      }
      drop(x);
      drop(type);
    } else if (op == "vec") { // values on their own
      std::string w = l.word();
      Thing t;
      while (l.more())
        t.v.push_back(l.num());
      float f[16];
      fill(f, t.v.size(), t);
      PyObject *x = ask([&]() -> PyObject * {
        if (w == "2")
          return Py_BuildValue(Vector2(f[0], f[1]));
        if (w == "3")
          return Py_BuildValue(Vector(f[0], f[1], f[2]));
        if (w == "4")
          return Py_BuildValue(Vector4(f[0], f[1], f[2], f[3]));
        if (w == "4A")
          return Py_BuildValue(Vector4A16(f[0], f[1], f[2], f[3]));
        if (w == "444") {
          uni::RTSValue r;
          rts(r, t);
          return Py_BuildValue(r);
        }
        esMatrix44 m;
        mtx(m, t);
        return Py_BuildValue(m);
      });
      if (x)
        tell(x);
      drop(x);
    } else if (op == "churn") { // nothing stays behind, however often it is used
      int id = l.num();
      auto once = [&] {
        PyObject *x = wrap(id, false);
        use(x);
        if (things[id].kind == SKEL || things[id].kind == MOTION) {
          PyObject *ls = attr(x, things[id].kind == SKEL ? "bones" : "tracks");
          use(ls);
          PyObject *k = PyLong_FromLong(0);
          PyObject *it = PyObject_GetItem(ls, k);
          if (it)
            use(it);
          drop(it);
          drop(ls);
          drop(k);
        }
        drop(x);
      };
      for (int i = 0; i < 20; i++)
        once();
      gone.clear();
      long long before = blocks();
      for (int i = 0; i < 3000; i++)
        once();
      o.i("grown", blocks() - before > 1500);
      gone.clear();
    }
    std::sort(gone.begin(), gone.end());
    o.raw("gone", jints(gone));
    gone.clear();
  });
}
