// Drivers: plain arrays of numbers in, plain arrays of numbers out.
#pragma once
#include <exception>
#include <vector>

struct In {
  const double* p;
  double next() { return *p++; }
  int integer() { return static_cast<int>(*p++); }
};
struct Out {
  double* p;
  double* start;
  void put(double v) { *p++ = v; }
  template <class M>
  void matrix(const M& m) {
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) put(m(i, j));
  }
};

// The body reads from `in` and writes to `out`.  A C++ exception gives -1.
#define DRIVER(name)                                          \
  static void name##_body(In& in, Out& out);                  \
  extern "C" int name(const double* i, double* o) {           \
    In in{i};                                                 \
    Out out{o, o};                                            \
    try {                                                     \
      name##_body(in, out);                                   \
    } catch (const std::exception&) {                         \
      return -1;                                              \
    }                                                         \
    return static_cast<int>(out.p - out.start);               \
  }                                                           \
  static void name##_body(In& in, Out& out)
