// Text streams for symbolic execution: numbers stay numbers, everything else
// is text.  Included before every source; without effect on the native code.
#if defined(_GLIBCXX_EXTERN_TEMPLATE) && _GLIBCXX_EXTERN_TEMPLATE == 0
#pragma once
#include "../rt/pre.h"
#include <fstream>
#include <ios>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace std {
struct verif_number {
  bool whole;
  double real;
  long integer;
};
inline vector<verif_number>& verif_numbers() {
  static vector<verif_number> n;
  return n;
}
class verif_stringstream {
 public:
  string text;
  size_t at = 0;
  bool good_ = true;
  int digits = 6;

  verif_stringstream() {}
  explicit verif_stringstream(const string& s) : text(s) {}
  string str() const { return text; }
  void str(const string& s) { text = s; at = 0; good_ = true; }
  void clear() { good_ = true; }
  bool eof() const { return !good_; }
  bool good() const { return good_; }
  bool fail() const { return !good_; }
  explicit operator bool() const { return good_; }
  bool operator!() const { return !good_; }
  size_t tellg() const { return at; }
  verif_stringstream& seekg(size_t p) { at = p; return *this; }
  int precision() const { return digits; }
  int precision(int n) { const int d = digits; digits = n; return d; }
  verif_stringstream& number(const verif_number& n) {
    if (!n.whole && digits < 6) throw runtime_error("digits are lost");
    verif_numbers().push_back(n);
    text.push_back('\x01');
    text.push_back(static_cast<char>(32 + verif_numbers().size() % 90));
    text.push_back(static_cast<char>(32 + verif_numbers().size() / 90));
    return *this;
  }
  verif_stringstream& operator<<(const string& s) { text += s; return *this; }
  verif_stringstream& operator<<(const char* s) { text += s; return *this; }
  verif_stringstream& operator<<(char c) { text.push_back(c); return *this; }
  verif_stringstream& operator<<(int v) { return number({true, 0.0, v}); }
  verif_stringstream& operator<<(long v) { return number({true, 0.0, v}); }
  verif_stringstream& operator<<(size_t v) { return number({true, 0.0, static_cast<long>(v)}); }
  verif_stringstream& operator<<(double v) { return number({false, v, 0}); }
  verif_stringstream& operator<<(float v) { return number({false, v, 0}); }
  verif_stringstream& operator<<(ostream& (*)(ostream&)) { text.push_back('\n'); return *this; }
  verif_stringstream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
  template <class T>
  auto operator<<(const T& v) -> decltype(v._M_n, *this) { digits = v._M_n; return *this; }
};
inline verif_stringstream& getline(verif_stringstream& s, string& line, char end = '\n') {
  line.clear();
  if (s.at >= s.text.size()) {
    s.good_ = false;
    return s;
  }
  while (s.at < s.text.size()) {
    const char c = s.text[s.at++];
    if (c == end) break;
    line.push_back(c);
    if (c == '\x01') {
      line.push_back(s.text[s.at++]);
      line.push_back(s.text[s.at++]);
    }
  }
  return s;
}
inline const verif_number* verif_token(const char* s) {
  if (s[0] != '\x01') return nullptr;
  return &verif_numbers()[(s[1] - 32) + 90 * (s[2] - 32) - 1];
}
inline int verif_digits(const char* s) {
  int i = 0, sign = 1, v = 0;
  if (s[0] == '-') sign = -1, i = 1;
  const int first = i;
  for (; s[i] >= '0' && s[i] <= '9'; ++i) v = 10 * v + (s[i] - '0');
  if (i == first) throw invalid_argument("not a number");
  return sign * v;
}
inline int verif_atoi(const char* s) {
  const auto t = verif_token(s);
  if (t) return t->whole ? static_cast<int>(t->integer) : static_cast<int>(t->real);
  try {
    return verif_digits(s);
  } catch (const invalid_argument&) {
    return 0;
  }
}
inline int verif_stoi(const string& s) {
  const auto t = verif_token(s.c_str());
  return t ? (t->whole ? static_cast<int>(t->integer) : static_cast<int>(t->real)) : verif_digits(s.c_str());
}
inline double verif_stod(const string& s) {
  const auto t = verif_token(s.c_str());
  return t ? (t->whole ? static_cast<double>(t->integer) : t->real) : verif_digits(s.c_str());
}
}  // namespace std
inline int verif_atoi(const char* s) { return std::verif_atoi(s); }
#define stringstream verif_stringstream
#define ostringstream verif_stringstream
#define istringstream verif_stringstream
#define stoi verif_stoi
#define stod verif_stod
#define atoi verif_atoi
#endif
