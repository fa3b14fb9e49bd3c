// Replays save/read/restart histories on the real ASCIILogger / BinaryLogger.
#include <unistd.h>
#include <filesystem>
#include <iomanip>
#include "drv.hpp"
#include "data_logging.hpp"
using namespace drv;

int main(int argc, char **argv)
{
   // argv: scenarios, trace [, scenario index, op index]
   std::ifstream in(argv[1]);
   std::string line;
   size_t s0 = argc > 3 ? std::stoul(argv[3]) : 0, o0 = argc > 4 ? std::stoul(argv[4]) : 0;
   trace().open(argv[2], argc > 3);
   for (size_t s = 0; std::getline(in, line); ++s)
   {
      if (s < s0) { continue; }
      size_t first = 0;
      if (s == s0 && o0 > 0) { first = o0; }
      else
      {
         std::filesystem::remove_all("ASCIILogger");
         std::filesystem::remove_all("BinaryLogger");
         emit({{"event", "Reset"}});
      }
      const json ops = json::parse(line);
      for (size_t o = first; o < ops.size(); ++o)
      {
         const auto &op = ops[o];
         const std::string kind = op["op"];
         if (kind == "Restart")
         {
            emit({{"event", "Restart"}});
            std::fclose(trace().f);
            std::string a = std::to_string(s), b = std::to_string(o + 1);
            if (o + 1 == ops.size()) { a = std::to_string(s + 1); b = "0"; }
            execl(argv[0], argv[0], argv[1], argv[2], a.c_str(), b.c_str(), (char *)nullptr);
            return 97;
         }
         std::string fmt = op["fmt"], field = op["field"];
         int step = op["step"], rank = op["rank"];
         json e = {{"event", kind}, {"fmt", fmt}, {"field", field}, {"step", step}, {"rank", rank}};
         std::string err;
         if (kind == "Save")
         {
            mfem::Vector v = vec(op["vec"]), keep(v);
            double t = unhex(op["time"]);
            try
            {
               miso::DataLogger lg;
               if (fmt == "A") { miso::ASCIILogger::saveState(v, field, step, t, rank); }
               else { miso::BinaryLogger::saveState(v, field, step, t, rank); }
            }
            catch (const std::exception &x) { err = x.what(); if (err.empty()) err = "?"; }
            e["time"] = op["time"];
            e["vec"] = op["vec"];
            e["err"] = err;
            emit(e);
            bool same = v.Size() == keep.Size() && (v.Size() == 0 || !std::memcmp(v.GetData(), keep.GetData(), 8 * v.Size()));
            emit({{"event", "Kept"}, {"same", same}});
         }
         else
         {
            // the receiving vector has an arbitrary size and old contents
            mfem::Vector v(op["presize"].get<int>());
            for (int i = 0; i < v.Size(); ++i) { v(i) = 1e300 + i; }
            double t = -123.0;
            try
            {
               if (fmt == "A") { miso::ASCIILogger::readState(field, step, rank, t, v); }
               else { miso::BinaryLogger::readState(field, step, rank, t, v); }
            }
            catch (const std::exception &x) { err = x.what(); if (err.empty()) err = "?"; }
            e["time"] = hex(t);
            e["vec"] = hex(v);
            e["err"] = err;
            emit(e);
         }
      }
   }
   emit({{"event", "End"}});
   return 0;
}
