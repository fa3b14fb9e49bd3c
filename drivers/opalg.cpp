// Drives SumOfOperators and JacobianFree through histories.
#include "resmock.hpp"
#include "matrix_operators.hpp"
using namespace drv;
using namespace miso;

struct Res
{
   const Problem *P;
   Split sp;
   std::string bk;
   bool cached;
   std::vector<int> off;
   std::map<int, std::unique_ptr<mfem::Operator>> blk;
   std::map<int, std::string> at;
};
struct NoBlocks
{
   const Problem *P;
   Split sp;
};
static void eval(const Problem &P, const Split &sp, const MISOInputs &in, mfem::Vector &out)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, true, true);
   mfem::Vector g = sp.gather(u), r(P.n());
   P.R(g, 1.0, 0.0, r);
   out.SetSize(sp.hi - sp.lo);
   out = sp.local(r);
}
template <class T> int size_(const T &r) { return r.sp.hi - r.sp.lo; }
int getSize(const Res &r) { return size_(r); }
int getSize(const NoBlocks &r) { return size_(r); }
MPI_Comm getMPIComm(const Res &r) { return r.sp.comm; }
MPI_Comm getMPIComm(const NoBlocks &r) { return r.sp.comm; }
void setInputs(Res &, const MISOInputs &) {}
void setInputs(NoBlocks &, const MISOInputs &) {}
void setOptions(Res &, const json &) {}
void setOptions(NoBlocks &, const json &) {}
void evaluate(Res &r, const MISOInputs &in, mfem::Vector &out) { eval(*r.P, r.sp, in, out); }
void evaluate(NoBlocks &r, const MISOInputs &in, mfem::Vector &out) { eval(*r.P, r.sp, in, out); }
mfem::Operator &getJacobian(Res &r, const MISOInputs &, const std::string &) { throw 1; }
mfem::Operator &getJacobian(NoBlocks &r, const MISOInputs &, const std::string &) { throw 1; }
mfem::Operator &getJacobianBlock(Res &r, const MISOInputs &in, int i)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, true, true);
   std::string key = hex(u).dump();
   if (!(r.cached && r.at[i] == key && r.blk[i]))
   {
      mfem::DenseMatrix M;
      r.P->J(u, M);
      int lo = r.off[i], m = r.off[i + 1] - lo;
      mfem::DenseMatrix B(m);
      for (int a = 0; a < m; ++a)
         for (int b = 0; b < m; ++b) B(a, b) = M(lo + a, lo + b);
      if (r.bk == "hypre") r.blk[i].reset(hypre(B));
      else r.blk[i] = std::make_unique<mfem::DenseMatrix>(B);
      r.at[i] = key;
   }
   return *r.blk[i];
}

struct Obj
{
   mfem::Operator *op = nullptr;
   SumOfOperators *sum = nullptr;
   JacobianFree *jf = nullptr;
   bool spread = false;
};

static int run(const char *in, const char *out)
{
   int rank, np;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   MPI_Comm_size(MPI_COMM_WORLD, &np);
   trace().open(rank ? "/dev/null" : out);
   for (auto &scn : load(in))
   {
      std::map<std::string, Obj> o;
      std::vector<std::unique_ptr<mfem::Operator>> keep;
      std::vector<std::unique_ptr<mfem::DenseMatrix>> dm;
      std::vector<std::unique_ptr<Problem>> ps;
      std::vector<std::unique_ptr<MISOResidual>> rs;
      std::vector<std::unique_ptr<mfem::Array<int>>> arr;
      Split sp;
      emit({{"event", "Reset"}});
      for (auto &c : scn["cmds"])
      {
         std::string k = c["cmd"], id = c["id"];
         json e = c;
         e.erase("cmd");
         e["event"] = k;
         if (k == "Mat")
         {
            auto *m = new mfem::DenseMatrix(mat(c["M"]));
            keep.emplace_back(m);
            o[id].op = m;
         }
         else if (k == "Sum0")
         {
            auto *s = c["h"] == c["w"] && c.value("one", false) ? new SumOfOperators(c["h"].get<int>())
                                                                 : new SumOfOperators(c["h"].get<int>(), c["w"].get<int>());
            keep.emplace_back(s);
            o[id].op = o[id].sum = s;
         }
         else if (k == "NewSum" || k == "Add")
         {
            double a = unhex(c["a"]), b = unhex(c["b"]);
            e["err"] = "";
            try
            {
               if (k == "Add") { o[id].sum->Add(a, *o[c["i"]].op, b, *o[c["j"]].op); }
               else
               {
                  auto *s = new SumOfOperators(a, *o[c["i"]].op, b, *o[c["j"]].op);
                  keep.emplace_back(s);
                  o[id].op = o[id].sum = s;
               }
            }
            catch (const MISOException &) { e["err"] = "MISOException"; }
            catch (...) { e["err"] = "other"; }
         }
         else if (k == "JF")
         {
            ps.emplace_back(new Problem(problem(c)));
            const Problem *P = ps.back().get();
            sp = Split(MPI_COMM_WORLD, P->n());
            std::vector<int> off;
            for (int i : c["off"]) off.push_back(i - 1);
            std::string ek = c["ek"], bk = c["bk"];
            if (bk == "none") rs.emplace_back(new MISOResidual(NoBlocks{P, sp}));
            else
            {
               Res r;
               r.P = P;
               r.sp = sp;
               r.bk = bk;
               r.cached = c["cached"];
               r.off = off;
               rs.emplace_back(new MISOResidual(std::move(r)));
            }
            JacobianFree *j;
            if (c["E"].empty()) j = new JacobianFree(*rs.back());
            else
            {
               mfem::DenseMatrix E = mat(c["E"][0]);
               mfem::Operator *ex;
               if (ek == "plain")
               {
                  mfem::DenseMatrix L(sp.hi - sp.lo);
                  for (int a = 0; a < L.Height(); ++a)
                     for (int b = 0; b < L.Width(); ++b) L(a, b) = E(sp.lo + a, sp.lo + b);
                  ex = new mfem::DenseMatrix(L);
               }
               else
               {
                  arr.emplace_back(new mfem::Array<int>((int)off.size()));
                  for (size_t i = 0; i < off.size(); ++i) (*arr.back())[i] = off[i];
                  auto *bo = new mfem::BlockOperator(*arr.back());
                  for (size_t i = 0; i + 1 < off.size(); ++i)
                  {
                     if (!c["stored"][i].get<bool>()) continue;
                     int m = off[i + 1] - off[i];
                     mfem::DenseMatrix B(m);
                     for (int a = 0; a < m; ++a)
                        for (int b = 0; b < m; ++b) B(a, b) = E(off[i] + a, off[i] + b);
                     mfem::Operator *bp = ek == "hypre" ? (mfem::Operator *)hypre(B) : new mfem::DenseMatrix(B);
                     keep.emplace_back(bp);
                     bo->SetBlock(i, i, bp);
                  }
                  ex = bo;
               }
               keep.emplace_back(ex);
               j = new JacobianFree(*rs.back(), *ex);
            }
            keep.emplace_back(j);
            o[id].op = o[id].jf = j;
            o[id].spread = true;
            e.erase("cached");
            // a base state before anything else
            j->setState(sp.local(vec(c["u"])));
            json u = c["u"];
            e.erase("u");
            emit(e);
            e = {{"event", "State"}, {"id", id}, {"u", u}};
         }
         else if (k == "Scaling") { o[id].jf->setScaling(unhex(c["s"])); }
         else if (k == "State")
         {
            mfem::Vector u = sp.local(vec(c["u"]));
            if (c["via"] == "inputs")
            {
               MISOInputs inp{{"state", u}};
               o[id].jf->setState(inp);
            }
            else { o[id].jf->setState(u); }
            u = NAN;  // the caller's vector may change afterwards
            e.erase("via");
         }
         else if (k == "Mult")
         {
            Obj &ob = o[id];
            mfem::Vector x = vec(c["x"]);
            if (ob.spread) x = sp.local(x);
            std::string y0 = c["y0"];
            mfem::Vector y(y0 == "short" ? 1 : ob.op->Height());
            for (int i = 0; i < y.Size(); ++i) y(i) = y0 == "nan" ? NAN : 1e3 + i;
            ob.op->Mult(x, y);
            if (ob.spread) { e["h"] = e["w"] = sp.n; y = sp.gather(y); }
            else { e["h"] = ob.op->Height(); e["w"] = ob.op->Width(); }
            e["y"] = hex(y);
            e.erase("y0");
         }
         else if (k == "Block")
         {
            e["err"] = "";
            e["M"] = json::array();
            try { e["M"] = hexm(entries(o[id].jf->getDiagonalBlock(c["k"].get<int>() - 1))); }
            catch (const MISOException &) { e["err"] = "MISOException"; }
            catch (...) { e["err"] = "other"; }
         }
         else { std::fprintf(stderr, "bad command\n"); return 97; }
         emit(e);
      }
      while (!keep.empty()) keep.pop_back();
   }
   emit({{"event", "End"}});
   return 0;
}
int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   Quiet q;
   return run(argv[1], argv[2]);
}
