// Transformations
#include "common.hpp"
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include <cmath>
#include <cstring>
#include <memory>
using namespace drv;
static const long long ODD = 2000000000;
static long long tell(double v, double unit, bool exact) {
  double d = v * unit;
  if (!(std::fabs(d) < 1.9e9) || (exact && d != std::floor(d)))
    return ODD;
  return (long long)std::floor(d + .5);
}
static std::vector<long long> tell(const Vector4A16 &v, double unit, bool exact) {
  std::vector<long long> r;
  for (int i = 0; i < 4; i++)
    r.push_back(tell(v[i], unit, exact));
  return r;
}
static std::vector<long long> tell(const esMatrix44 &m, double unit = 64, bool exact = true) {
  std::vector<long long> r;
  for (int i = 0; i < 4; i++)
    for (auto v : tell(m[i], unit, exact))
      r.push_back(v);
  return r;
}
static Vector4A16 vec(Line &l, double unit) {
  float v[4];
  for (auto &f : v)
    f = (float)(l.num() / unit);
  return Vector4A16(v[0], v[1], v[2], v[3]);
}
static esMatrix44 mat(Line &l, double unit = 64) {
  Vector4A16 r[4];
  for (auto &v : r)
    v = vec(l, unit);
  return esMatrix44(r);
}
static void quat(Line &l, double *q) {
  for (int i = 0; i < 4; i++)
    q[i] = (double)l.num();
}
// the rotation of a quaternion of any length, its rows scaled
static esMatrix44 turn(const double *q, const double *s, const double *p) {
  double x = q[0], y = q[1], z = q[2], w = q[3], n = x * x + y * y + z * z + w * w;
  auto row = [&](double a, double b, double c, double k) { return Vector4A16((float)(a / n * k), (float)(b / n * k), (float)(c / n * k), 0); };
  return esMatrix44(row(w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w), s[0]),
                    row(2 * (x * y + z * w), w * w + y * y - x * x - z * z, 2 * (y * z - x * w), s[1]),
                    row(2 * (x * z - y * w), 2 * (y * z + x * w), w * w + z * z - x * x - y * y, s[2]),
                    Vector4A16((float)p[0], (float)p[1], (float)p[2], 1));
}
static const double ONE[3] = {1, 1, 1}, NOWHERE[3] = {0, 0, 0};
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "mul") {
      std::string how = l.word();
      esMatrix44 a = mat(l), b = mat(l);
      if (how == "ab" || how == "aa") {
        const esMatrix44 &ca = a, &cb = how == "ab" ? b : a;
        esMatrix44 r(ca * cb);
        o.raw("out", jints(tell(r))).raw("a2", jints(tell(a))).raw("b2", jints(tell(b)));
      } else if (how == "b=ab") {
        b = a * b;
        o.raw("out", jints(tell(b)));
      } else if (how == "a=ab") {
        a = a * b;
        o.raw("out", jints(tell(a)));
      } else {
        esMatrix44 &r = how == "a*=b" ? (a *= b) : (a *= a);
        o.i("self", &r == &a).raw("out", jints(tell(a)));
      }
    } else if (op == "un") {
      esMatrix44 a = mat(l), f(a), t(a), i, n(a), s(a);
      f.TransposeFull();
      t.Transpose();
      n.MakeIdentity();
      o.raw("full", jints(tell(f))).raw("part", jints(tell(t))).raw("one", jints(tell(i))).raw("made", jints(tell(n)));
      esMatrix44 r(a.r1(), a.r2(), a.r3(), a.r4());
      const esMatrix44 &c = a;
      r.r1() = c.r1(), r.r3() = c[2], r[1] = c.r2(), r.r4() = c.r4();
      o.raw("rows", jints(tell(r))).raw("three", jints(tell(esMatrix44(a.r1(), a.r2(), a.r3()))));
      uint8_t b[64];
      memcpy(b, &s, 64);
      o.raw("was", jbytes(b, 64));
      s.SwapEndian();
      memcpy(b, &s, 64);
      o.raw("bytes", jbytes(b, 64));
    } else if (op == "point") {
      esMatrix44 a = mat(l);
      o.raw("out", jints(tell(a.RotatePoint(vec(l, 64)), 64, true)));
    } else if (op == "quat") {
      Vector4A16 q = vec(l, 2), s = vec(l, 64);
      esMatrix44 a = mat(l), c(a), m(q);
      a.FromQuat(q);
      c.Compose(Vector4A16(c.r4()), q, s);
      o.raw("out", jints(tell(m))).raw("into", jints(tell(a))).raw("comp", jints(tell(c)));
    } else if (op == "turn") {
      double q[4];
      quat(l, q);
      double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
      esMatrix44 m(Vector4A16((float)(q[0] / n), (float)(q[1] / n), (float)(q[2] / n), (float)(q[3] / n)));
      esMatrix44 e = turn(q, ONE, NOWHERE);
      o.raw("m", jints(tell(m, 10000, false))).raw("out", jints(tell(e.ToQuat(), 10000, false)));
    } else if (op == "dec" || op == "invq") {
      double q[4], s[4], p[4];
      quat(l, q), quat(l, s), quat(l, p);
      for (auto &v : s)
        v /= 4;
      esMatrix44 m = turn(q, s, p);
      if (op == "invq") {
        o.raw("out", jints(tell(-m, 10000, false)));
        return;
      }
      Vector4A16 pos(7, 7, 7, 7), rot(7, 7, 7, 7), scale(7, 7, 7, 7);
      const esMatrix44 &c = m;
      c.Decompose(pos, rot, scale);
      o.raw("pos", jints(tell(pos, 1, true))).raw("rot", jints(tell(rot, 10000, false))).raw("scale", jints(tell(scale, 10000, false)));
      esMatrix44 again(Vector4A16(9, 9, 9, 9), Vector4A16(9, 9, 9, 9), Vector4A16(9, 9, 9, 9));
      again.Compose(pos, rot, scale);
      o.raw("again", jints(tell(again, 10000, false)));
    } else if (op == "wide") { // turned onto axes, scaled by powers of two, told as parts of the scales
      int perm[3], sg[3], e[3];
      for (auto a : {perm, sg, e})
        for (int i = 0; i < 3; i++)
          a[i] = (int)l.num();
      float r[4][4]{};
      for (int i = 0; i < 3; i++)
        r[i][perm[i]] = (float)std::ldexp(sg[i], e[i]);
      r[3][3] = 1;
      Vector4A16 rows[4];
      for (int i = 0; i < 4; i++)
        rows[i] = Vector4A16(r[i][0], r[i][1], r[i][2], r[i][3]);
      const esMatrix44 m(rows);
      esMatrix44 n = -m;
      for (int i = 0; i < 3; i++)
        (&n.r1())[i] *= Vector4A16((float)std::ldexp(1, e[0]), (float)std::ldexp(1, e[1]), (float)std::ldexp(1, e[2]), 1);
      Vector4A16 pos, rot, scale;
      m.Decompose(pos, rot, scale);
      esMatrix44 again;
      again.Compose(pos, rot, scale);
      for (int i = 0; i < 3; i++) {
        (&again.r1())[i] *= (float)std::ldexp(1, -e[i]);
        scale[i] *= (float)std::ldexp(1, -e[i]);
      }
      o.raw("out", jints(tell(n, 10000, false))).raw("scale", jints(tell(scale, 10000, false))).raw("again", jints(tell(again, 10000, false)));
    } else if (op == "inv") {
      const esMatrix44 a = mat(l);
      esMatrix44 r = -a;
      o.raw("out", jints(tell(r))).raw("a2", jints(tell(a)));
    }
  });
}
