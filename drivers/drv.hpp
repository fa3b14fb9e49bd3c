// Shared by all drivers: scenario input, ndjson trace output, number encoding.
#ifndef VERIF_DRV_HPP
#define VERIF_DRV_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <string>
#include <vector>
#include "mfem.hpp"
#include "nlohmann/json.hpp"

namespace drv
{
using json = nlohmann::json;

inline std::string hex(double x)
{
   std::uint64_t b;
   std::memcpy(&b, &x, 8);
   char s[17];
   std::snprintf(s, sizeof s, "%016llx", (unsigned long long)b);
   return s;
}
inline double unhex(const std::string &s)
{
   std::uint64_t b = std::strtoull(s.c_str(), nullptr, 16);
   double x;
   std::memcpy(&x, &b, 8);
   return x;
}
inline json hex(const mfem::Vector &v)
{
   json j = json::array();
   for (int i = 0; i < v.Size(); ++i) { j.push_back(hex(v.GetData()[i])); }
   return j;
}
inline json hexv(const std::vector<double> &v)
{
   json j = json::array();
   for (double x : v) { j.push_back(hex(x)); }
   return j;
}
inline json hexm(const mfem::DenseMatrix &A)
{
   json j = json::array();
   for (int i = 0; i < A.Height(); ++i)
   {
      json r = json::array();
      for (int k = 0; k < A.Width(); ++k) { r.push_back(hex(A(i, k))); }
      j.push_back(r);
   }
   return j;
}
inline mfem::Vector vec(const json &j)
{
   mfem::Vector v(static_cast<int>(j.size()));
   for (int i = 0; i < v.Size(); ++i) { v(i) = unhex(j[i].get<std::string>()); }
   return v;
}
inline mfem::DenseMatrix mat(const json &j)
{
   int h = j.size(), w = h ? j[0].size() : 0;
   mfem::DenseMatrix A(h, w);
   for (int i = 0; i < h; ++i)
      for (int k = 0; k < w; ++k) A(i, k) = unhex(j[i][k].get<std::string>());
   return A;
}

struct Trace
{
   std::FILE *f = nullptr;
   void open(const char *p, bool append = false)
   {
      f = std::fopen(p, append ? "a" : "w");
      if (!f) { std::fprintf(stderr, "cannot open trace\n"); std::exit(97); }
   }
   void emit(const json &e)
   {
      std::string s = e.dump(-1, ' ', false, json::error_handler_t::replace);
      std::fwrite(s.data(), 1, s.size(), f);
      std::fputc('\n', f);
      std::fflush(f);
   }
};
inline Trace &trace()
{
   static Trace t;
   return t;
}
inline void emit(const json &e) { trace().emit(e); }

inline json load(const char *p)
{
   std::ifstream in(p);
   if (!in) { std::fprintf(stderr, "cannot open scenarios\n"); std::exit(97); }
   json all = json::array();
   std::string line;
   while (std::getline(in, line)) { all.push_back(json::parse(line)); }
   return all;
}

/// a JSON value with its type, for specifications (spec/JsonPatch.tla)
inline json tag(const json &j)
{
   if (j.is_object())
   {
      json o = json::object();
      for (auto &[k, v] : j.items()) { o[k] = tag(v); }
      return {{"o", o}};
   }
   if (j.is_array())
   {
      json a = json::array();
      for (auto &v : j) { a.push_back(tag(v)); }
      return {{"a", a}};
   }
   if (j.is_string()) { return {{"s", j}}; }
   if (j.is_boolean()) { return {{"b", j}}; }
   if (j.is_number()) { return {{"n", hex(j.get<double>())}}; }
   return {{"z", 0}};
}

/// silences std::cout (the library prints progress there)
struct Quiet
{
   std::streambuf *o, *e;
   std::ofstream null;
   Quiet() : null("/dev/null")
   {
      o = std::cout.rdbuf(null.rdbuf());
      e = std::cerr.rdbuf(null.rdbuf());
      mfem::out.SetStream(null);
      mfem::err.SetStream(null);
   }
   ~Quiet()
   {
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
   }
};
}  // namespace drv
#endif
