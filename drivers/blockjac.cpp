// Drives BlockJacobiPreconditioner through histories with stand-in solvers.
#include <set>
#include "resmock.hpp"
#include "matrix_operators.hpp"
#include "mfem_extensions.hpp"
using namespace drv;
using namespace miso;
namespace mfem
{
void mfem_error(const char *msg) { throw std::runtime_error(msg); }
}

static std::set<std::string> dead;
struct Sol : mfem::Solver
{
   std::string name;
   mfem::DenseMatrix B;
   Sol(int n, std::string s, mfem::DenseMatrix b, bool iter) : mfem::Solver(n, iter), name(s), B(b) {}
   ~Sol() override { dead.insert(name); }
   void SetOperator(const mfem::Operator &op) override { B = entries(op); }
   void Mult(const mfem::Vector &x, mfem::Vector &y) const override
   {
      if (!iterative_mode) y = 0.0;
      B.AddMult(x, y);
   }
   void MultTranspose(const mfem::Vector &x, mfem::Vector &y) const override
   {
      if (!iterative_mode) y = 0.0;
      B.AddMultTranspose(x, y);
   }
};
struct Res
{
   const Problem *P;
   std::vector<int> off;
   bool hyp;
   std::map<int, std::unique_ptr<mfem::Operator>> blk;
};
int getSize(const Res &r) { return r.P->n(); }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
void setInputs(Res &, const MISOInputs &) {}
void setOptions(Res &, const json &) {}
void evaluate(Res &r, const MISOInputs &in, mfem::Vector &out)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, true, true);
   r.P->R(u, 1.0, 0.0, out);
}
mfem::Operator &getJacobian(Res &, const MISOInputs &, const std::string &) { throw 1; }
static mfem::Operator *sub(const mfem::DenseMatrix &M, int a, int b, int c, int d, bool hyp)
{
   mfem::DenseMatrix B(b - a, d - c);
   for (int i = a; i < b; ++i)
      for (int j = c; j < d; ++j) B(i - a, j - c) = M(i, j);
   if (hyp) return hypre(B);
   return new mfem::DenseMatrix(B);
}
mfem::Operator &getJacobianBlock(Res &r, const MISOInputs &in, int i)
{
   mfem::Vector u;
   setVectorFromInputs(in, "state", u, true, true);
   mfem::DenseMatrix M;
   r.P->J(u, M);
   r.blk[i].reset(sub(M, r.off[i], r.off[i + 1], r.off[i], r.off[i + 1], r.hyp));
   return *r.blk[i];
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   Quiet q;
   trace().open(argv[2]);
   for (auto &scn : load(argv[1]))
   {
      dead.clear();
      std::map<std::string, Sol *> sol;
      mfem::Array<int> off;
      std::vector<int> ov;
      std::unique_ptr<BlockJacobiPreconditioner> pc;
      emit({{"event", "Reset"}});
      for (auto &c : scn["cmds"])
      {
         std::string k = c["cmd"];
         json e = c;
         e.erase("cmd");
         e["event"] = k;
         if (k == "New")
         {
            for (int i : c["off"])
            {
               off.Append(i - 1);
               ov.push_back(i - 1);
            }
            pc = std::make_unique<BlockJacobiPreconditioner>(off);
            if (c["own"]) pc->owns_blocks = true;
         }
         else if (k == "Solver")
         {
            mfem::DenseMatrix B = mat(c["B"]);
            sol[c["s"]] = new Sol(c["kind"] == "nosize" ? 0 : B.Height(), c["s"], B, c["kind"] == "iter");
            e.erase("kind");
         }
         else if (k == "Set")
         {
            pc->SetDiagonalBlock(c["k"].get<int>() - 1, c["s"].empty() ? nullptr : sol[c["s"][0]]);
         }
         else if (k == "SetOp")
         {
            std::string what = c["what"];
            std::vector<std::unique_ptr<mfem::Operator>> keep;
            e["err"] = "";
            try
            {
               if (what == "other")
               {
                  mfem::DenseMatrix D = mat(c["A"]);
                  pc->SetOperator(D);
               }
               else if (what == "block" || what == "blockhyp")
               {
                  mfem::DenseMatrix D = mat(c["A"]);
                  mfem::BlockOperator bo(off);
                  for (size_t i = 0; i + 1 < ov.size(); ++i)
                     for (size_t j = 0; j + 1 < ov.size(); ++j)
                     {
                        keep.emplace_back(sub(D, ov[i], ov[i + 1], ov[j], ov[j + 1], what == "blockhyp"));
                        bo.SetBlock(i, j, keep.back().get());
                     }
                  pc->SetOperator(bo);
               }
               else
               {
                  bool hyp = what == "jfhyp";
                  Problem P;
                  P.A = mat(c["A"]);
                  P.c = 0;
                  P.b = P.d = mfem::Vector(P.n());
                  P.b = P.d = 0.5;
                  Res r;
                  r.P = &P;
                  r.off = ov;
                  r.hyp = hyp;
                  MISOResidual res(std::move(r));
                  mfem::DenseMatrix E = mat(c["E"]);
                  mfem::BlockOperator bo(off);
                  for (size_t i = 0; i + 1 < ov.size(); ++i)
                  {
                     keep.emplace_back(sub(E, ov[i], ov[i + 1], ov[i], ov[i + 1], hyp));
                     bo.SetBlock(i, i, keep.back().get());
                  }
                  JacobianFree jf(res, bo);
                  jf.setScaling(unhex(c["scale"]));
                  mfem::Vector u(P.n());
                  u = 0.3;
                  jf.setState(u);
                  pc->SetOperator(jf);
               }
            }
            catch (const MISOException &) { e["err"] = "MISOException"; }
            catch (const std::exception &) { e["err"] = "other"; }
            for (auto z : {"A", "E", "scale"}) e.erase(z);
         }
         else if (k == "Mult")
         {
            mfem::Vector x = vec(c["x"]), y(x.Size());
            for (int i = 0; i < y.Size(); ++i) y(i) = c["y0"] == "nan" ? NAN : 1e3 + i;
            if (c["tr"]) pc->MultTranspose(x, y);
            else pc->Mult(x, y);
            e["y"] = hex(y);
            e["xafter"] = hex(x);
            e.erase("y0");
         }
         else if (k == "Shape")
         {
            e["nb"] = pc->NumBlocks();
            e["blocks"] = json::array();
            for (int i = 0; i < pc->NumBlocks(); ++i)
            {
               json one = json::array();
               try
               {
                  const auto &cp = *pc;
                  auto *s = dynamic_cast<const Sol *>(&cp.GetDiagonalBlock(i));
                  if (s != &pc->GetDiagonalBlock(i)) s = nullptr;
                  one.push_back(s ? s->name : "?");
               }
               catch (const std::exception &) {}
               e["blocks"].push_back(one);
            }
         }
         else if (k == "Delete") { pc.reset(); }
         else { return 97; }
         emit(e);
         if (k == "Set" || k == "Delete" || k == "SetOp") emit({{"event", "Dead"}, {"dead", std::vector<std::string>(dead.begin(), dead.end())}});
      }
      for (auto &s : sol)
         if (!dead.count(s.first)) delete s.second;
   }
   emit({{"event", "End"}});
   return 0;
}
