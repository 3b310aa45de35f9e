// Vectors of any numbers take a number for the other operand
#include "datas/vectors_simd.hpp"
#include "datas/vectors_string.hpp"
#ifndef ONLY_HEADERS
template <class T> T all(const T &v) {
  return (((v + 1 - 1) * 2 / 2 & 127 | 64) << 1) >> 1;
}
template <class T> T real(const T &v) { return (v + 1 - 1) * 2 / 2; }
template <class T> void go() {
  all(t_Vector2<T>(1));
  all(t_Vector<T>(1));
  all(V4ScalarType<T>(1));
}
void use() {
  go<int8>(), go<uint8>(), go<int16>(), go<uint16>(), go<int32>(), go<uint32>();
  real(t_Vector2<float>(1)), real(t_Vector<float>(1)), real(V4ScalarType<float>(1));
  std::wstring s = std::to_wstring(t_Vector2<int32>(1)) + std::to_wstring(t_Vector<int32>(1)) + std::to_wstring(t_Vector4<int32>(1));
}
#endif
