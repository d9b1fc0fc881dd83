// Length-prefixed request/reply loop used by the runtime-contract harness.
// A request is [op, arg...]; a reply is a list of byte strings.  A failed CHECK
// aborts the process; the python side reports and restarts it.
#pragma once
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace wire {
struct Args {
  std::vector<std::string> a;
  size_t size() const { return a.size(); }
  const std::string& s(size_t i) const { return a.at(i); }
  template <class T>
  std::vector<T> vec(size_t i) const {
    const std::string& x = a.at(i);
    std::vector<T> r(x.size() / sizeof(T));
    if (!r.empty()) memcpy(r.data(), x.data(), r.size() * sizeof(T));
    return r;
  }
  std::vector<double> d(size_t i) const { return vec<double>(i); }
  std::vector<int32_t> i(size_t k) const { return vec<int32_t>(k); }
  int n(size_t k) const { return i(k).at(0); }
  double x(size_t k) const { return d(k).at(0); }
  template <class M>
  M msg(size_t i) const {
    M m;
    if (!m.ParseFromString(a.at(i))) {
      fprintf(stderr, "driver: bad message\n");
      exit(3);
    }
    return m;
  }
};
struct Reply {
  std::vector<std::string> r;
  void s(const std::string& x) { r.push_back(x); }
  template <class T>
  void raw(const std::vector<T>& v) {
    r.emplace_back(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
  }
  void d(const std::vector<double>& v) { raw(v); }
  void x(double v) { d({v}); }
  void f(const std::vector<float>& v) { d(std::vector<double>(v.begin(), v.end())); }
  void i(const std::vector<int>& v) { raw(v); }
  void n(int v) { i({v}); }
  template <class M>
  void msg(const M& m) { r.push_back(m.SerializeAsString()); }
};
using Fn = std::function<void(const Args&, Reply&)>;
inline std::map<std::string, Fn>& ops() {
  static auto* m = new std::map<std::string, Fn>;
  return *m;
}
struct Op {
  Op(const char* n, Fn f) { ops()[n] = f; }
};
inline bool rd(void* p, size_t n) { return fread(p, 1, n, stdin) == n; }
inline int loop() {
  while (true) {
    uint32_t n;
    if (!rd(&n, 4)) return 0;
    Args a;
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t l;
      if (!rd(&l, 4)) return 1;
      std::string s(l, 0);
      if (l && !rd(&s[0], l)) return 1;
      a.a.push_back(std::move(s));
    }
    Reply r;
    auto it = ops().find(a.a.at(0));
    if (it == ops().end()) {
      fprintf(stderr, "driver: unknown op %s\n", a.a[0].c_str());
      return 2;
    }
    alarm(20);
    it->second(a, r);
    alarm(0);
    uint32_t m = r.r.size();
    fwrite(&m, 4, 1, stdout);
    for (auto& s : r.r) {
      uint32_t l = s.size();
      fwrite(&l, 4, 1, stdout);
      fwrite(s.data(), 1, l, stdout);
    }
    fflush(stdout);
  }
}
}  // namespace wire
#define OP2(name, line) static wire::Op op_##line(name, [](const wire::Args& A, wire::Reply& R)
#define OP1(name, line) OP2(name, line)
#define OP(name) OP1(name, __LINE__)
#define END );
int main() { return wire::loop(); }
