// Drives ControlResidual alone and FlowControlResidual<2, entvar>.
#define main flow_main
#include "flow.cpp"
#undef main
#include "flow_control_residual.hpp"

// inputs of one call: copied to memory that is wrecked when the call returns
struct Given
{
   std::vector<std::unique_ptr<Vector>> mem;
   MISOInputs in;
   explicit Given(const json &j)
   {
      for (auto &kv : j.items())
      {
         if (kv.value().is_string()) { in.emplace(kv.key(), unhex(kv.value())); }
         else { add(kv.key(), vec(kv.value())); }
      }
   }
   void add(const std::string &key, const Vector &v)
   {
      mem.push_back(std::make_unique<Vector>(v));
      in.emplace(key, *mem.back());
   }
   ~Given()
   {
      for (auto &m : mem) { *m = -1e30; }
   }
};
static json everywhere(double v)
{
   return joined(json::array({hex(v)}));
}
static json matrix(Operator &A)
{
   json j = json::array();
   Vector x(2), y(2);
   for (int i = 0; i < 2; ++i)
   {
      x = 0.0;
      x(i) = 1.0;
      A.Mult(x, y);
      j.push_back(hex(y));
   }
   return j;  // column by column
}
static const char *NAMES[] = {"Kp", "Td", "Ti", "beta", "eta", "target-entropy", "closed-loop", "P-matrix", "x-actuator", "boundary-entropy"};
static json subset(const json &c)
{
   json j = json::object();
   for (const char *nm : NAMES)
      if (c["in"].contains(nm)) { j[nm] = c["in"][nm]; }
   return j;
}
template <typename F>
static bool throws(F f)
{
   bool bad = false;
   try { f(); }
   catch (const MISOException &) { bad = true; }
   return bad;
}

static void control(const json &sc)
{
   ControlResidual res(MPI_COMM_WORLD, {{"test-ode", sc["test"]}});
   for (const auto &c : sc["ops"])
   {
      const std::string op = c["op"];
      json e = {{"event", op}, {"in", subset(c)}, {"size", joined(json::array({getSize(res)}))}, {"x", c["x"]}};
      Given g(subset(c));
      const int n = getSize(res);
      Vector x = vec(c["x"]), d = vec(c["d"]);
      x.SetSize(n);
      d.SetSize(n);
      if (op != "Give" && op != "BadP")
      {
         g.add("state", x);
         g.in.emplace("time", .5);
      }
      if (op == "Give") { setInputs(res, g.in); }
      else if (op == "BadP") { e["threw"] = joined(json::array({throws([&] { setInputs(res, g.in); })})); }
      else if (op == "Evaluate")
      {
         Vector r(n);
         r = 1e30;
         evaluate(res, g.in, r);
         e["r"] = lists(r, 1)[0];
      }
      else if (op == "Velocity") { e["v"] = everywhere(res.getControlVelocity(g.in)); }
      else if (op == "Entropy") { e["v"] = everywhere(calcEntropy(res, g.in)); }
      else if (op == "Change")
      {
         g.add("state_dot", d);
         e["d"] = c["d"];
         e["v"] = everywhere(calcEntropyChange(res, g.in));
      }
      else if (op == "Jacobian")
      {
         Operator &J = getJacobian(res, g.in, "state");
         e["J"] = json::array();
         e["PJ"] = json::array();
         e["M"] = json::array();
         if (myrank == 0)
         {
            e["J"] = matrix(J);
            e["M"] = matrix(*getMassMatrix(res, json()));
            mfem::Solver *p = getPreconditioner(res);
            p->SetOperator(J);
            Vector y(2), z(2);
            for (int i = 0; i < 2; ++i)
            {
               y = 0.0;
               y(i) = 1.0;
               J.Mult(y, z);
               p->Mult(z, y);
               e["PJ"].push_back(hex(y));
            }
         }
      }
      else { throw std::runtime_error("control op " + op); }
      emit(e);
   }
}

template <bool entvar>
static void coupled(const json &sc)
{
   constexpr int dim = 2, ns = 4;
   const json &opt = sc["options"];
   adept::Stack stack;
   auto serial = mesh(sc["mesh"]);
   std::vector<int> part(serial->GetNE());
   for (int e = 0; e < serial->GetNE(); ++e) { part[e] = nranks > 1 ? sc["mesh"]["parts"][e % sc["mesh"]["parts"].size()].get<int>() % nranks : 0; }
   if (nranks > 1) { part[0] = 0; part[serial->GetNE() - 1] = 1; }
   ParMesh pm(MPI_COMM_WORLD, *serial, part.data());
   const int p = opt["space-dis"]["degree"];
   std::unique_ptr<FiniteElementCollection> fec;
   if (opt["space-dis"]["basis-type"] == "csbp") { fec = std::make_unique<SBPCollection>(p, dim); }
   else { fec = std::make_unique<DSBPCollection>(p, dim); }
   ParFiniteElementSpace fes(&pm, fec.get(), ns, Ordering::byVDIM);
   std::map<std::string, FiniteElementState> fields, fields2;
   // options that do not fit together are refused
   for (const std::string how : {"no control", "other markers", "as many markers"})
   {
      json o = opt;
      if (how == "no control") { o["bcs"].erase("control"); }
      else if (how == "other markers") { o["outputs"]["boundary-entropy"]["boundaries"] = {1, 2, 3, 4}; }
      else { o["outputs"]["boundary-entropy"]["boundaries"][0] = 3; }
      std::map<std::string, FiniteElementState> f3;
      bool bad = throws([&] { FlowControlResidual<dim, entvar> r(o, fes, f3, stack); });
      emit({{"event", "Refused"}, {"how", how}, {"threw", joined(json::array({bad}))}});
   }
   json o = opt, o2 = opt;
   FlowControlResidual<dim, entvar> res(o, fes, fields, stack);
   const int n = getSize(res), nc = myrank == 0 ? 2 : 0, nf = n - nc;
   emit({{"event", "Unsupported"}, {"threw", joined(json::array({throws([&] { res.constructOutput("nosuch", opt); }),
                                                               throws([&] { getJacobian(res, MISOInputs(), "state"); })}))},
         {"sizes", joined(json::array({n, nf}))}});
   Vector far(ns);
   res.getFreeStreamState(far);
   eng.seed(sc["seed"].get<unsigned>() + 7919u * myrank);
   std::unique_ptr<Vector> act;
   for (const auto &c : sc["ops"])
   {
      const std::string op = c["op"];
      json e = {{"event", op}, {"in", subset(c)}, {"x", c["x"]}};
      Given g(subset(c));
      if (c["in"].contains("x-actuator")) { act = std::make_unique<Vector>(vec(c["in"]["x-actuator"])); }
      if (op == "Give")
      {
         setInputs(res, g.in);
         emit(e);
         continue;
      }
      if (op == "BadBlock")
      {
         e["threw"] = joined(json::array({throws([&] { getJacobianBlock(res, g.in, 2); })}));
         emit(e);
         continue;
      }
      // conservative values, the state vector and its rate of change
      Vector q(nf), u(nf), x(n), d(n);
      const double amp = unhex(c["amp"]);
      for (int i = 0; i < nf / ns; ++i)
      {
         double *a = q.GetData() + ns * i;
         double rho = far(0) * (1 + amp * U(-1, 1)), pr = pressure<double, dim>(far.GetData()) * (1 + amp * U(-1, 1)), ke = 0;
         a[0] = rho;
         for (int k = 0; k < dim; ++k)
         {
            const double v = far(k + 1) / far(0) + amp * U(-1, 1);
            a[k + 1] = rho * v;
            ke += v * v;
         }
         a[dim + 1] = pr / euler::gami + .5 * rho * ke;
         if (entvar) { calcEntropyVars<double, dim, false>(a, u.GetData() + ns * i); }
         else { std::copy(a, a + ns, u.GetData() + ns * i); }
      }
      Vector xc = vec(c["x"]), dc = vec(c["d"]);
      for (int i = 0; i < n; ++i)
      {
         x(i) = i < nc ? xc(i) : u(i - nc);
         d(i) = i < nc ? dc(i) : U(-1, 1);
      }
      // the flow alone, with a given control, seen by a residual made for this call
      FlowResidual<dim, entvar> ref(o2, fes, fields2, stack);
      if (act) { setInputs(ref, MISOInputs({{"x-actuator", *act}})); }
      auto flow = [&](double ctl, const Vector &w, Vector &r)
      {
         r.SetSize(nf);
         r = 1e30;
         MISOInputs in{{"state", w}, {"control", ctl}};
         evaluate(ref, in, r);
      };
      g.add("state", x);
      if (op == "Evaluate")
      {
         g.in.emplace("time", .25);
         Vector r(n), r0, r1, rf;
         r = 1e30;
         evaluate(res, g.in, r);
         flow(0, u, r0);
         flow(1, u, r1);
         rf.SetSize(nf);
         for (int i = 0; i < nf; ++i) { rf(i) = r(i + nc); }
         Vector rc(nc);
         for (int i = 0; i < nc; ++i) { rc(i) = r(i); }
         e["r"] = lists(rc, 1)[0];
         e["R"] = lists(rf, ns);
         e["F0"] = lists(r0, ns);
         e["F1"] = lists(r1, ns);
         e["bdr"] = faces<dim>(pm, fes, fec.get(), q);
      }
      else if (op == "Entropy" || op == "Output")
      {
         if (op == "Entropy") { e["v"] = everywhere(calcEntropy(res, g.in)); }
         else
         {
            MISOOutput out = res.constructOutput("entropy", json::object());
            e["v"] = everywhere(calcOutput(out, g.in));
         }
         e["flow"] = hex(calcEntropy(ref, MISOInputs({{"state", u}})));
      }
      else if (op == "Change")
      {
         g.add("state_dot", d);
         g.in.emplace("time", .25);
         g.in.emplace("dt", .125);
         e["v"] = everywhere(calcEntropyChange(res, g.in));
         e["d"] = c["d"];
         Vector df(nf);
         for (int i = 0; i < nf; ++i) { df(i) = d(i + nc); }
         for (const char *nm : {"C0", "C1"})
         {
            MISOInputs in{{"state", u}, {"state_dot", df}, {"time", .25}, {"dt", .125}, {"control", nm[1] == '1' ? 1.0 : 0.0}};
            e[nm] = hex(calcEntropyChange(ref, in));
         }
         e["bdr"] = faces<dim>(pm, fes, fec.get(), q);
      }
      else if (op == "Supply")
      {
         g.add("state_dot", d);
         g.in.emplace("time", .25);
         g.in.emplace("dt", .125);
         e["v"] = everywhere(calcSupplyRate(res, g.in));
         e["bdr"] = faces<dim>(pm, fes, fec.get(), q);
         json fh = json::array();
         for (int j = 0; j < ns; ++j) { fh.push_back(hex(far(j))); }
         e["far"] = fh;
      }
      else if (op == "Mass")
      {
         auto *M = getMassMatrix(res, o);
         Vector y(n), yf(nf), uf(nf);
         M->Mult(x, y);
         getMassMatrix(ref, o2)->Mult(u, uf);
         for (int i = 0; i < nf; ++i) { yf(i) = y(i + nc); }
         Vector yc(nc);
         for (int i = 0; i < nc; ++i) { yc(i) = y(i); }
         e["Mx"] = lists(yc, 1)[0];
         e["Mu"] = lists(yf, 1)[0];
         e["flow"] = lists(uf, 1)[0];
      }
      else if (op == "Jacobian")
      {
         e["J"] = json::array();
         Operator &J0 = getJacobianBlock(res, g.in, 0);
         if (myrank == 0) { e["J"] = matrix(J0); }
         Vector v(nf), y(nf);
         for (int i = 0; i < nf; ++i) { v(i) = U(-1, 1); }
         getJacobianBlock(res, g.in, 1).Mult(v, y);
         e["Jv"] = lists(y, 1)[0];
         for (double ctl : {0., 1.})
         {
            MISOInputs in{{"state", u}, {"control", ctl}};
            setInputs(ref, in);
            getJacobian(ref, in, "state").Mult(v, y);
            e[ctl == 0 ? "J0" : "J1"] = lists(y, 1)[0];
         }
      }
      else { throw std::runtime_error("coupled op " + op); }
      emit(e);
   }
}

int main(int argc, char **argv)
{
   mfem::Mpi::Init(argc, argv);
   mfem::Hypre::Init();
   MPI_Comm_rank(MPI_COMM_WORLD, &myrank);
   MPI_Comm_size(MPI_COMM_WORLD, &nranks);
   auto scn = load(argv[1]);
   trace().open(myrank == 0 ? argv[2] : "/dev/null");
   Quiet quiet;
   for (const auto &sc : scn)
   {
      emit({{"event", "Reset"}});
      emit({{"event", "New"}, {"p", sc["p"]}});
      if (sc["p"]["kind"] == "control") { control(sc); }
      else if (sc["options"]["flow-param"]["entropy-state"]) { coupled<true>(sc); }
      else { coupled<false>(sc); }
   }
   emit({{"event", "End"}});
}
