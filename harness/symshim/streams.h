// included first when compiling for the symbolic executor (not natively): streams exist only as machine code
#pragma once
#include <iostream>
#include <string>
#include <sstream>
extern "C" void sym_no_text_for_this();
namespace std {
struct SymOut {
  template <class X> SymOut& operator<<(const X&) { return *this; }
  SymOut& operator<<(ostream& (*)(ostream&)) { return *this; }
  SymOut& operator<<(ios_base& (*)(ios_base&)) { return *this; }
  SymOut& flush() { return *this; }
  long precision(long = 0) { return 6; }
  long width(long = 0) { return 0; }
  template <class... X> int setf(X...) { return 0; }
};
inline SymOut symOut;
// string streams
struct SymStream {
  string s;
  size_t pos = 0;
  bool ok = true;
  SymStream() {}
  SymStream(const string& x, int = 0) : s(x) {}
  string str() const { return s; }
  void str(const string& x) { s = x; pos = 0; ok = true; }
  SymStream& operator<<(const string& x) { s += x; return *this; }
  SymStream& operator<<(const char* x) { s += x; return *this; }
  SymStream& operator<<(char x) { s += x; return *this; }
  SymStream& operator<<(int x) { s += to_string(x); return *this; }
  SymStream& operator<<(unsigned x) { s += to_string(x); return *this; }
  SymStream& operator<<(long x) { s += to_string(x); return *this; }
  SymStream& operator<<(unsigned long x) { s += to_string(x); return *this; }
  SymStream& operator<<(long long x) { s += to_string(x); return *this; }
  SymStream& operator<<(unsigned long long x) { s += to_string(x); return *this; }
  SymStream& operator<<(bool x) { s += x ? '1' : '0'; return *this; }
  SymStream& operator<<(ostream& (*)(ostream&)) { s += '\n'; return *this; }
  template <class X> SymStream& operator<<(const X&) { sym_no_text_for_this(); return *this; }  // not modelled: the path counts as unexplored
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
  bool eof() const { return pos >= s.size(); }
  bool good() const { return ok; }
  bool fail() const { return !ok; }
  int get() { if (pos >= s.size()) { ok = false; return -1; } return (unsigned char)s[pos++]; }
  int peek() const { return pos < s.size() ? (unsigned char)s[pos] : -1; }
  SymStream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  void clear() { ok = true; }
};
inline SymStream& getline(SymStream& i, string& w, char d = '\n') {
  w.clear();
  if (i.pos >= i.s.size()) { i.ok = false; return i; }
  while (i.pos < i.s.size()) { char c = i.s[i.pos++]; if (c == d) return i; w += c; }
  return i;
}
inline SymStream& operator>>(SymStream& i, string& w) {
  w.clear();
  while (i.pos < i.s.size() && (i.s[i.pos] == ' ' || i.s[i.pos] == '\n' || i.s[i.pos] == '\t')) i.pos++;
  if (i.pos >= i.s.size()) { i.ok = false; return i; }
  while (i.pos < i.s.size() && i.s[i.pos] != ' ' && i.s[i.pos] != '\n' && i.s[i.pos] != '\t') w += i.s[i.pos++];
  return i;
}
template <class X, class = typename enable_if<is_integral<X>::value>::type>
inline SymStream& operator>>(SymStream& i, X& x) {
  string w;
  if (i >> w) { size_t p = 0; bool neg = w[0] == '-'; if (neg) p = 1; if (p >= w.size() || w[p] < '0' || w[p] > '9') { i.ok = false; return i; } x = 0; while (p < w.size() && w[p] >= '0' && w[p] <= '9') x = x * 10 + (w[p++] - '0'); if (neg) x = -x; i.pos -= w.size() - p; }
  return i;
}
}  // namespace std
#define istringstream SymStream
#define ostringstream SymStream
#define stringstream SymStream
#define cout symOut
#define cerr symOut
