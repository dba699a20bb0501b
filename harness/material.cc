// Monitors of the material laws, the crystal data, the histories, the line
// search, the parameter files, the loading programme and the utilities.
// usage: material <property> <seed> <quick|thorough> <report file>   (cwd: scratch)
#include "crystals.h"

#include <gCP/boundary_conditions.h>
#include <gCP/constitutive_laws.h>
#include <gCP/crystal_data.h>
#include <gCP/line_search.h>
#include <gCP/quadrature_point_history.h>
#include <gCP/run_time_parameters.h>
#include <gCP/utilities.h>

#include <deal.II/base/parameter_handler.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>

using namespace dealii;
using namespace V;
namespace V
{
Reporter rep;
Tier     tier;
} // namespace V

// ---------------------------------------------------------------- P01

template <int dim> void p01(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const int          nc = g.integer(1, 5), ns = g.integer(1, dim == 2 ? 6 : 12);
      auto               c = make_crystals<dim>(g, nc, ns);
      Triangulation<dim> tria;
      make_mesh(tria, nc, g.integer(1, 2));
      rep.begin(describe(c));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("valid-refused", [&] {
        load(g, c, tria);
        auto &d = *c.data;
        rep.check(d.is_initialized(), "not-initialised");
        if (!rep.check(d.get_n_crystals() == c.nc, "n-crystals") || !rep.check(d.get_n_slips() == c.ns, "n-slips")) return;
        for (unsigned i = 0; i < c.nc; ++i)
          {
            for (int a = 0; a < 3; ++a)
              for (int b = 0; b < 3; ++b)
                {
                  rep.close(d.get_3d_rotation_tensor(i)[a][b], c.R3[i][a][b], 1e-12, "rotation3d");
                  if (a < dim && b < dim) rep.close(d.get_rotation_tensor(i)[a][b], c.R[i][a][b], 1e-12, "rotation");
                }
            rep.check(d.get_slip_directions(i).size() == c.ns && d.get_slip_normals(i).size() == c.ns && d.get_symmetrized_schmid_tensors(i).size() == c.ns, "list-size");
            for (unsigned s = 0; s < c.ns; ++s)
              {
                auto m = d.get_slip_direction(i, s), nn = d.get_slip_normal(i, s), l = d.get_slip_orthogonal(i, s);
                rep.close(m.norm(), 1, 1e-12, "direction-unit");
                rep.close(nn.norm(), 1, 1e-12, "normal-unit");
                rep.close(m * nn, 0, 1e-12, "orthogonal");
                rep.close((m - c.m[i][s]).norm(), 0, 1e-12, "direction");
                rep.close((nn - c.n[i][s]).norm(), 0, 1e-12, "normal");
                rep.close((d.get_slip_directions(i)[s] - m).norm(), 0, 0, "direction-list");
                rep.close((d.get_slip_normals(i)[s] - nn).norm(), 0, 0, "normal-list");
                if (dim == 3)
                  {
                    rep.close(l.norm(), 1, 1e-12, "binormal-unit");
                    rep.close(std::min((l - c.l[i][s]).norm(), (l + c.l[i][s]).norm()), 0, 1e-12, "binormal");
                  }
                else
                  rep.close(l.norm(), 0, 0, "binormal-2d");
                auto P = schmid(c, i, s);
                for (int a = 0; a < dim; ++a)
                  for (int b = 0; b < dim; ++b)
                    {
                      rep.close(d.get_schmid_tensor(i, s)[a][b], c.m[i][s][a] * c.n[i][s][b], 1e-12, "schmid");
                      rep.close(d.get_symmetrized_schmid_tensor(i, s)[a][b], P[a][b], 1e-12, "schmid-sym");
                      rep.close(d.get_symmetrized_schmid_tensors(i)[s][a][b], P[a][b], 1e-12, "schmid-sym-list");
                    }
              }
          }
      });
      // malformed variants of the same data set
      auto bad = [&](const std::string &what, const std::function<void(Crystals<dim> &)> &f, const std::string &remove = "") {
        auto b = c;
        f(b);
        rep.begin(what + " of " + describe(b));
        rep.nontrivial(rep.current);
        rep.count("malformed:" + what);
        write_rows(g, "eu", b.euler);
        write_rows(g, "dir", b.dirs);
        write_rows(g, "nor", b.normals);
        if (!remove.empty()) std::remove((remove + ".txt").c_str());
        must_throw("malformed-accepted:" + what, [&] {
          gCP::CrystalsData<dim> d;
          d.init(tria, "eu", "dir", "nor");
        });
      };
      switch (g.integer(0, 12))
        {
          case 0: bad("missing-orientations", [](auto &) {}, "eu"); break;
          case 1: bad("missing-directions", [](auto &) {}, "dir"); break;
          case 2: bad("missing-normals", [](auto &) {}, "nor"); break;
          case 3: bad("one-orientation-less", [&](auto &b) { b.euler.pop_back(); }); break;
          case 4: bad("one-orientation-more", [&](auto &b) { b.euler.push_back(b.euler[0]); }); break;
          case 5: bad("one-direction-less", [&](auto &b) { b.dirs.pop_back(); }); break;
          case 6: bad("one-normal-less", [&](auto &b) { b.normals.pop_back(); }); break;
          case 7: bad("short-direction-row", [&](auto &b) { b.dirs[g.integer(0, ns - 1)].pop_back(); }); break;
          case 8: bad("short-normal-row", [&](auto &b) { b.normals[g.integer(0, ns - 1)].pop_back(); }); break;
          case 9: bad("long-direction-row", [&](auto &b) { b.dirs[g.integer(0, ns - 1)].push_back(0); }); break;
          case 10: bad("orientation-row", [&](auto &b) {
              auto &e = b.euler[g.integer(0, nc - 1)];
              if (dim == 2) e.push_back(g.coin() ? 0 : 30);
              else e.pop_back();
            }); break;
          default:
            bad("not-orthogonal", [&](auto &b) {
              int s = g.integer(0, ns - 1);
              double nn = 0, mm = 0;
              for (int a = 0; a < dim; ++a) nn += b.normals[s][a] * b.normals[s][a], mm += b.dirs[s][a] * b.dirs[s][a];
              double e = g.slogu(1e-5, 1.) * std::sqrt(mm / nn);
              for (int a = 0; a < dim; ++a) b.dirs[s][a] += e * b.normals[s][a];
            });
        }
    }
  // accessors before initialisation
  gCP::CrystalsData<dim> d;
  rep.begin("uninitialised");
  must_throw("uninitialised-accepted", [&] { d.get_n_slips(); });
  must_throw("uninitialised-accepted", [&] { d.get_slip_direction(0, 0); });
}

// ---------------------------------------------------------------- P02

template <int dim> void p02(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const int nc = g.integer(1, 4);
      auto      c = ready_crystals<dim>(g, nc, g.integer(1, 3));
      RTP::HookeLawParameters p;
      const double            scale = g.logu(1e-3, 1e6);
      const bool              iso = g.coin(0.3);
      p.C1122 = scale * g.uni(0.1, 0.6);
      p.C1111 = scale * g.uni(0.7, 1.4);
      p.C1212 = iso ? 0.5 * (p.C1111 - p.C1122) : scale * g.uni(0.1, 1.);
      const double cs = g.coin() ? 1.0 : g.logu(1e-2, 1e6);
      rep.begin(cat("C1111=", p.C1111, " C1122=", p.C1122, " C1212=", p.C1212, " over ", cs, " ", describe(c)));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      const double tol = 1e-11 * scale / cs;
      auto         ref = [&](int i, int j, int k, int l) {
        return ((i == j && j == k && k == l) ? p.C1111 :
                (i == j && k == l)           ? p.C1122 :
                ((i == k && j == l) || (i == l && j == k)) ? p.C1212 :
                                                             0.0) / cs;
      };
      auto cubic = [&](const Tensor<2, 3> &e) {
        Tensor<2, 3> s;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            for (int a = 0; a < 3; ++a)
              for (int b = 0; b < 3; ++b) s[i][j] += ref(i, j, a, b) * e[a][b];
        return s;
      };
      auto expect3 = [&](const Tensor<2, 3> &R, const Tensor<2, 3> &e) { return R * cubic(transpose(R) * e * R) * transpose(R); };
      auto embed = [](const SymmetricTensor<2, dim> &e) {
        Tensor<2, 3> t;
        for (int a = 0; a < dim; ++a)
          for (int b = 0; b < dim; ++b) t[a][b] = e[a][b];
        return t;
      };
      guarded("exception", [&] {
        gCP::ConstitutiveLaws::HookeLaw<dim> law(c.data, p, cs), mono(p, cs);
        must_throw("uninitialised-accepted", [&] { law.get_stress_tensor(0, SymmetricTensor<2, dim>()); });
        law.init();
        mono.init();
        for (int rep_i = 0; rep_i < 4; ++rep_i)
          for (int i = 0; i <= nc; ++i)
            {
              const bool         is_mono = (i == nc);
              const Tensor<2, 3> R = is_mono ? Tensor<2, 3>(unit_symmetric_tensor<3>()) : c.R3[i];
              const auto         e = any_sym<dim>(g, 1.0);
              const auto         s = is_mono ? mono.get_stress_tensor(e) : law.get_stress_tensor(i, e);
              const auto        &C = is_mono ? mono.get_stiffness_tetrad() : law.get_stiffness_tetrad(i);
              const auto        &C3 = is_mono ? mono.get_stiffness_tetrad_3d() : law.get_stiffness_tetrad_3d(i);
              const auto         x = expect3(R, embed(e));
              const SymmetricTensor<2, dim> Ce = C * e;
              SymmetricTensor<2, 3>         e3 = symmetrize(embed(e));
              const SymmetricTensor<2, 3>   s3 = C3 * e3;
              double                        energy = 0;
              for (int a = 0; a < 3; ++a)
                for (int b = 0; b < 3; ++b)
                  {
                    rep.close(s3[a][b], x[a][b], tol, "stress3d");
                    if (a >= dim || b >= dim) continue;
                    energy += s[a][b] * e[a][b];
                    rep.close(s[a][b], x[a][b], tol, "stress");
                    rep.close(Ce[a][b], s[a][b], tol, "tetrad-vs-stress");
                    for (int u = 0; u < dim; ++u)
                      for (int v = 0; v < dim; ++v)
                        {
                          rep.close(C[a][b][u][v], C[u][v][a][b], tol, "major-symmetry");
                          rep.close(C[a][b][u][v], C3[a][b][u][v], tol, "in-plane-part");
                        }
                  }
              rep.check(energy >= -tol, "negative-energy", [&] { return cat(energy); });
              if (!is_mono && iso)
                {
                  auto m = mono.get_stress_tensor(e);
                  for (int a = 0; a < dim; ++a)
                    for (int b = 0; b < dim; ++b) rep.close(s[a][b], m[a][b], tol, "isotropic-orientation");
                }
            }
        must_throw("wrong-overload-accepted", [&] { law.get_stress_tensor(SymmetricTensor<2, dim>()); });
        must_throw("wrong-overload-accepted", [&] { mono.get_stress_tensor(0, SymmetricTensor<2, dim>()); });
      });
    }
}

// ---------------------------------------------------------------- P03

template <int dim> void p03(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const int    nc = g.integer(1, 4), ns = g.integer(1, dim == 2 ? 4 : 12), nq = g.integer(1, 4);
      auto         c = ready_crystals<dim>(g, nc, ns);
      const double dn = g.coin() ? 1.0 : g.logu(1e-3, 1e3), es = g.logu(1e-8, 1), gs = g.logu(1e-8, 1);
      rep.begin(cat("dimensionless=", dn, " strain~", es, " slip~", gs, " nq=", nq, " ", describe(c)));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::Kinematics::ElasticStrain<dim>                el(c.data, dn);
        gCP::ConstitutiveLaws::ResolvedShearStressLaw<dim> rss(c.data);
        std::vector<std::vector<double>>                   slip(ns, std::vector<double>(nq)), rate = slip;
        for (auto &s : slip) for (auto &v : s) v = g.coin(0.1) ? 0 : gs * g.uni(-1, 1);
        for (auto &s : rate) for (auto &v : s) v = g.coin(0.1) ? 0 : gs * g.uni(-1, 1);
        for (int i = 0; i < nc; ++i)
          for (int q = 0; q < nq; ++q)
            {
              const auto e = any_sym<dim>(g, es), sig = any_sym<dim>(g, 1.0);
              const auto ee = el.get_elastic_strain_tensor(i, q, e, slip), pe = el.get_plastic_strain_tensor(i, q, slip),
                         pr = el.get_plastic_strain_tensor(i, q, rate);
              SymmetricTensor<2, dim> x;
              double                  work = 0;
              for (int s = 0; s < ns; ++s)
                {
                  x += slip[s][q] * schmid(c, i, s);
                  const double tau = rss.get_resolved_shear_stress(i, s, sig);
                  rep.close(tau, sig * schmid(c, i, s), 1e-12 * dim * dim, "resolved-shear-stress");
                  work += tau * rate[s][q];
                }
              const double tp = 1e-13 * gs * ns * dim, te = tp * dn + 1e-13 * es;
              for (int a = 0; a < dim; ++a)
                for (int b = 0; b < dim; ++b)
                  {
                    rep.close(pe[a][b], x[a][b], tp, "plastic-strain");
                    rep.close(ee[a][b], e[a][b] - dn * x[a][b], te, "elastic-strain");
                    rep.close(ee[a][b] + dn * pe[a][b], e[a][b], te, "additive-split");
                  }
              rep.close(trace(pe), 0, tp, "plastic-volume");
              rep.close(work, sig * pr, 1e-11 * gs * ns * dim * dim, "power-conjugacy");
            }
      });
    }
}

// ---------------------------------------------------------------- P04

template <int dim> void p04(Rng &g, unsigned n)
{
  using F = RTP::RegularizationFunction;
  const std::vector<F> fs = {F::Atan, F::Sqrt, F::Gd, F::Tanh, F::Erf};
  for (unsigned k = 0; k < n; ++k)
    {
      const int ns = g.integer(1, 5), nq = g.integer(1, 3);
      auto      c = ready_crystals<dim>(g, g.integer(1, 2), ns);
      RTP::ScalarMicrostressLawParameters p;
      RTP::HardeningLaw                   h;
      p.regularization_function = fs[k % 5];
      p.regularization_parameter = g.logu(1e-6, 10.);
      p.flag_rate_independent = g.coin(0.25);
      h.linear_hardening_modulus = g.coin(0.1) ? 0 : g.logu(1e-2, 1e4);
      h.hardening_parameter = g.uni(0, 2);
      h.flag_perfect_plasticity = g.coin(0.3);
      h.initial_slip_resistance = 1;
      const double cg = g.coin() ? 1.0 : g.logu(1e-1, 1e3), dt = g.logu(1e-6, 10.);
      rep.begin(cat(reg_name(p.regularization_function), " p=", p.regularization_parameter, " rate-independent=", p.flag_rate_independent, " H=", h.linear_hardening_modulus,
                    " q=", h.hardening_parameter, " perfect=", h.flag_perfect_plasticity, " g0=", cg, " dt=", dt, " ns=", ns));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::ConstitutiveLaws::ScalarMicrostressLaw<dim> law(c.data, p, h, cg);
        const F      f = p.regularization_function;
        const double r0 = p.regularization_parameter;
        auto         ref = [&](double rate) { return p.flag_rate_independent ? double((rate > 0) - (rate < 0)) : reg_ref(f, rate, r0); };
        double       last = -1e300, lastx = 0;
        std::vector<double> xs;
        for (int i = 0; i < 24; ++i) xs.push_back(g.slogu(1e-9, 1e7));
        xs.insert(xs.end(), {0., 1., -1., 1e-300, 700., -700., 800., 1e12, -1e12});
        std::sort(xs.begin(), xs.end());
        for (double x : xs)
          {
            const double rate = x * r0, old = g.coin() ? 0 : g.uni(-.01, .01) * std::fabs(rate * dt);
            const double slip = old + rate * dt, res = g.logu(1e-2, 1e3);
            const double real_rate = (slip - old) / dt;
            const double v = law.get_scalar_microstress(slip, old, res, dt);
            rep.close(v, res * ref(real_rate), 1e-12 * res, "value");
            rep.check(std::fabs(v) <= res * (1 + 1e-12), "bounded", [&] { return cat(v, " > ", res); });
            rep.check(v * real_rate >= 0, "dissipation", [&] { return cat("rate ", real_rate, " stress ", v); });
            const double w = law.get_scalar_microstress(-slip, -old, res, dt);
            rep.close(w, -v, 1e-13 * res, "odd");
            const double s = gCP::Utilities::sigmoid_function(real_rate, r0, f);
            rep.close(s, reg_ref(f, real_rate, r0), 1e-12, "sigmoid");
            const double ds = gCP::Utilities::sigmoid_function_derivative(real_rate, r0, f);
            const double dr = dreg_ref(f, real_rate, r0);
            rep.close(ds, dr, 1e-9 * dr + 1e-14 / r0, "sigmoid-derivative");
            const double u = law.get_scalar_microstress(x * r0 * dt, 0, 1.0, dt);
            rep.check(u >= last - 1e-13, "monotone", [&] { return cat("f(", x, ")=", u, " < f(", lastx, ")=", last); });
            last = u;
            lastx = x;
          }
        for (int t = 0; t < 6; ++t)
          {
            std::vector<std::vector<double>> a(ns, std::vector<double>(nq)), b = a;
            std::vector<double>              res(ns);
            for (int s = 0; s < ns; ++s)
              {
                res[s] = g.logu(1e-2, 1e3);
                for (int q = 0; q < nq; ++q)
                  {
                    b[s][q] = g.coin(0.3) ? 0 : g.uni(-1, 1) * r0 * dt;
                    a[s][q] = b[s][q] + (g.coin(0.2) ? 0 : g.slogu(1e-4, t % 2 ? 20. : 1e5)) * r0 * dt;
                  }
              }
            const int  q = g.integer(0, nq - 1);
            const auto J = law.get_jacobian(q, a, b, res, dt);
            if (!rep.check(J.m() == unsigned(ns) && J.n() == unsigned(ns), "tangent-size")) return;
            for (int i = 0; i < ns; ++i)
              for (int j = 0; j < ns; ++j)
                {
                  const double ri = (a[i][q] - b[i][q]) / dt, rj = (a[j][q] - b[j][q]) / dt;
                  double       H = h.flag_perfect_plasticity ? 0.0 : h.linear_hardening_modulus / cg * (i == j ? 1.0 : h.hardening_parameter);
                  double       x = H * ref(ri) * ref(rj), sc = H;
                  if (i == j && !p.flag_rate_independent)
                    {
                      const double d = res[i] / dt * dreg_ref(f, ri, r0);
                      x += d;
                      sc += d + res[i] / dt / r0 * 1e-6;
                    }
                  rep.close(J[i][j], x, 1e-9 * sc, i == j ? "tangent-diagonal" : "tangent-off-diagonal");
                  rep.close(J[i][j], J[j][i], 1e-10 * sc, "tangent-symmetry");
                }
          }
      });
    }
}

// ---------------------------------------------------------------- P05

template <int dim> void p05(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const int nc = g.integer(1, 3), ns = g.integer(1, dim == 2 ? 3 : 8);
      auto      c = ready_crystals<dim>(g, nc, ns);
      RTP::VectorialMicrostressLawParameters p;
      p.energetic_length_scale = g.logu(1e-3, 1e2);
      p.initial_slip_resistance = g.logu(1e-2, 1e3);
      p.defect_energy_index = g.coin(0.4) ? 2.0 : g.coin(0.3) ? 3.0 : g.uni(2.0, 4.0);
      const bool   dimless = g.coin();
      const double P = p.defect_energy_index;
      const double F = dimless ? 1.0 : p.initial_slip_resistance * std::pow(p.energetic_length_scale, P);
      rep.begin(cat("length=", p.energetic_length_scale, " S0=", p.initial_slip_resistance, " index=", P, " dimensionless=", dimless, " ", describe(c)));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::ConstitutiveLaws::VectorialMicrostressLaw<dim> law(c.data, p);
        must_throw("uninitialised-accepted", [&] { law.get_vectorial_microstress(0, 0, Tensor<1, dim>()); });
        law.init(dimless);
        for (int i = 0; i < nc; ++i)
          for (int s = 0; s < ns; ++s)
            for (int t = 0; t < 5; ++t)
              {
                const double   sc = g.logu(1e-4, 1e3);
                Tensor<1, dim> gr = any_vec<dim>(g, sc);
                const auto    &m = c.m[i][s], &l = c.l[i][s], &nn = c.n[i][s];
                if (t == 1) gr = 0;
                if (t == 2) gr = sc * nn;
                if (t == 3) gr = sc * m;
                const double a = m * gr, b = l * gr;
                auto         pw = [&](double x, double e) { return x == 0 ? (e == 0 ? 1.0 : 0.0) : std::pow(std::fabs(x), e); };
                const Tensor<1, dim> x = F * (pw(a, P - 2) * a * m + pw(b, P - 2) * b * l);
                const double         tol = 1e-11 * F * std::pow(std::max(gr.norm(), 1e-300), P - 1);
                const auto           xi = law.get_vectorial_microstress(i, s, gr);
                const auto           J = law.get_jacobian(i, s, gr);
                // the tangent is only Hoelder continuous: a component known to
                // round-off only leaves this uncertainty
                auto         unsure = [&](double x) { const double d = 1e-14 * gr.norm(); return P == 2 ? 0. : pw(std::fabs(x) + d, P - 2) - pw(std::max(0., std::fabs(x) - d), P - 2); };
                const double tj = F * (P - 1) * (1e-10 * std::pow(std::max(gr.norm(), 1e-300), P - 2) + unsure(a) + unsure(b));
                for (int u = 0; u < dim; ++u)
                  {
                    rep.close(xi[u], x[u], tol, "value");
                    for (int v = 0; v < dim; ++v)
                      {
                        const double y = F * (P - 1) * (pw(a, P - 2) * m[u] * m[v] + pw(b, P - 2) * l[u] * l[v]);
                        rep.close(J[u][v], y, tj, "tangent");
                      }
                  }
                rep.check(xi * gr >= -tol * gr.norm(), "negative-work");
                // no dependence on the component along the slip normal
                const double shift = sc * g.uni(-1, 1);
                const auto   xn = law.get_vectorial_microstress(i, s, gr + shift * nn);
                rep.close((xn - xi).norm(), 0, 1e-10 * F * std::pow(gr.norm() + std::fabs(shift), P - 1), "normal-component");
                // homogeneous
                const double lam = g.uni(0.5, 2);
                const auto   xl = law.get_vectorial_microstress(i, s, lam * gr);
                rep.close((xl - std::pow(lam, P - 1) * xi).norm(), 0, 20 * tol, "homogeneity");
                // central difference of the returned vector
                const Tensor<1, dim> dir = any_unit<dim>(g);
                if (t == 0 && std::fabs(a) > 1e-2 * sc && (dim == 2 || std::fabs(b) > 1e-2 * sc))
                  {
                    const double e = 1e-5 * sc;
                    const auto   fd = (law.get_vectorial_microstress(i, s, gr + e * dir) - law.get_vectorial_microstress(i, s, gr - e * dir)) / (2 * e);
                    rep.close((fd - J * dir).norm(), 0, 1e-4 * F * (P - 1) * std::pow(gr.norm(), P - 2), "tangent-difference");
                  }
              }
      });
    }
}

// ---------------------------------------------------------------- P06

template <int dim> void p06(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const int nc = g.integer(2, 4), ns = g.integer(1, dim == 2 ? 4 : 12), nq = g.integer(1, 3);
      auto      c = ready_crystals<dim>(g, nc, ns);
      RTP::MicrotractionLawParameters p;
      p.grain_boundary_modulus = g.coin(0.1) ? 0 : g.logu(1e-2, 1e5);
      const double cv = g.coin() ? 1.0 : g.logu(1e-2, 1e3), gs = g.logu(1e-6, 1);
      int          A = g.integer(0, nc - 1), B = g.integer(0, nc - 2);
      if (B >= A) ++B;
      std::vector<Tensor<1, dim>> N;
      for (int q = 0; q < nq; ++q)
        {
          // often in the slip plane of one side: the moduli then reach one
          Tensor<1, dim> v = any_unit<dim>(g);
          if (g.coin(0.5))
            {
              const auto &nn = c.n[g.coin() ? A : B][g.integer(0, ns - 1)];
              v -= (v * nn) * nn;
              if (v.norm() < 0.1)
                {
                  if (dim == 2) { v[0] = -nn[1]; v[1] = nn[0]; }
                  else v = c.m[A][0] - (c.m[A][0] * nn) * nn;
                }
              if (v.norm() < 1e-3) v = any_unit<dim>(g);
              v /= v.norm();
            }
          N.push_back(v);
        }
      std::ostringstream ns_;
      ns_ << std::setprecision(17);
      for (auto &v : N) ns_ << "(" << v << ")";
      rep.begin(cat("modulus=", p.grain_boundary_modulus, " over ", cv, " crystals ", A, ",", B, " N=", ns_.str(), " ", describe(c)));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("valid-refused", [&] {
        gCP::ConstitutiveLaws::MicrotractionLaw<dim> law(c.data, p, cv);
        std::vector<std::vector<double>>             a(ns, std::vector<double>(nq)), b = a;
        for (auto &s : a) for (auto &v : s) v = g.coin(0.15) ? 0 : gs * g.uni(-1, 1);
        for (auto &s : b) for (auto &v : s) v = g.coin(0.15) ? 0 : gs * g.uni(-1, 1);
        const auto M = law.get_grain_interaction_moduli(A, B, N), W = law.get_grain_interaction_moduli(B, A, N);
        if (!rep.check(int(M.first.size()) == nq && int(M.second.size()) == nq, "moduli-size")) return;
        const double L = p.grain_boundary_modulus / cv;
        for (int q = 0; q < nq; ++q)
          {
            // boundary Burgers tensor of each slip system, as 3x3
            auto bt = [&](int cr, int s) {
              Tensor<2, 3> t;
              Tensor<1, 3> m, nn, NN;
              for (int i = 0; i < dim; ++i) m[i] = c.m[cr][s][i], nn[i] = c.n[cr][s][i], NN[i] = N[q][i];
              return Tensor<2, 3>(outer_product(m, cross_product_3d(nn, NN)));
            };
            Tensor<2, 3> G;
            for (int s = 0; s < ns; ++s) G += b[s][q] * bt(B, s) - a[s][q] * bt(A, s);
            const double E = 0.5 * p.grain_boundary_modulus * scalar_product(G, G);
            const double te = 1e-11 * p.grain_boundary_modulus * gs * gs * ns * ns, tt = 1e-11 * L * gs * ns;
            rep.close(law.get_free_energy_density(B, A, q, N, b, a), E, te, "energy");
            rep.close(law.get_free_energy_density(A, B, q, N, a, b), E, te, "energy-exchange");
            const auto Ji = law.get_intra_gateaux_derivative(q, M), Jx = law.get_inter_gateaux_derivative(q, M),
                       Wx = law.get_inter_gateaux_derivative(q, W);
            for (int s = 0; s < ns; ++s)
              {
                const double ta = law.get_microtraction(q, s, M, a, b), tb = law.get_microtraction(q, s, W, b, a);
                // minus the derivative of the energy with respect to the slip of either side
                rep.close(ta, L * scalar_product(G, bt(A, s)), tt, "microtraction");
                rep.close(tb, -L * scalar_product(G, bt(B, s)), tt, "microtraction-other-side");
                for (int r = 0; r < ns; ++r)
                  {
                    const double ci = scalar_product(bt(A, s), bt(A, r)), cx = scalar_product(bt(A, s), bt(B, r));
                    rep.close(M.first[q][s][r], ci, 1e-12, "intra-modulus");
                    rep.close(M.second[q][s][r], cx, 1e-12, "inter-modulus");
                    rep.close(M.second[q][s][r], W.second[q][r][s], 1e-12, "inter-exchange");
                    rep.close(M.first[q][s][r], M.first[q][r][s], 1e-12, "intra-symmetry");
                    rep.close(Ji[s][r], -L * ci, 1e-11 * L, "intra-tangent");
                    rep.close(Jx[s][r], L * cx, 1e-11 * L, "inter-tangent");
                    rep.close(Wx[r][s], Jx[s][r], 1e-11 * L, "inter-tangent-exchange");
                  }
                if (c.euler[A] == c.euler[B])
                  {
                    rep.count("same-orientation-pairs");
                    rep.close(law.get_microtraction(q, s, M, a, a), 0, tt, "no-jump");
                  }
              }
          }
        must_throw("equal-crystals-accepted", [&] { law.get_grain_interaction_moduli(A, A, N); });
      });
    }
}

// ---------------------------------------------------------------- P07, P08

template <int dim> struct Opening
{
  Tensor<1, dim> d;
  double         dn, dt;
};

template <int dim> void p07(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::CohesiveLawParameters p;
      p.critical_cohesive_traction = g.logu(1e-1, 1e3);
      p.critical_opening_displacement = g.logu(1e-4, 1.);
      p.tangential_to_normal_stiffness_ratio = g.coin(0.4) ? 1.0 : g.logu(0.2, 3.);
      const double Tc = p.critical_cohesive_traction, dc = p.critical_opening_displacement,
                   be = p.tangential_to_normal_stiffness_ratio;
      const double cs = g.coin() ? 1.0 : g.logu(1e-1, 1e3), cd = g.coin(0.7) ? 1.0 : g.logu(1e-3, 1e1);
      const double u = dc / cd; // opening scale in the units of the unknowns
      const auto   N = any_unit<dim>(g);
      std::ostringstream no;
      no << std::setprecision(17) << N;
      rep.begin(cat("dim=", dim, " Tc=", Tc, " dc=", dc, " beta=", be, " sigma0=", cs, " u0=", cd, " N=(", no.str(), ") path ", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::ConstitutiveLaws::CohesiveLaw<dim> law(p, cs, cd);
        auto T = [&](double x) { return Tc * x / dc * std::exp(1 - x / dc); };
        auto parts = [&](const Tensor<1, dim> &d) {
          const double   dn = d * N;
          Tensor<1, dim> t = d - dn * N;
          return std::make_pair(dn, t);
        };
        auto eff_ref = [&](const Tensor<1, dim> &d) {
          auto         q = parts(d);
          const double m = std::max(0., q.first);
          return std::sqrt(m * m + be * be * q.second.norm_square());
        };
        auto ref = [&](const Tensor<1, dim> &d, double mx) {
          auto           q = parts(d);
          Tensor<1, dim> v = std::max(0., q.first) * N + be * be * q.second;
          const double   e = eff_ref(d);
          if (e == 0 || mx == 0) return Tensor<1, dim>();
          // on the envelope and on the secant alike
          return Tensor<1, dim>(v * (T(cd * mx) / mx / cs));
        };
        // energy: zero at zero, its slope is the envelope
        rep.close(law.get_free_energy_density(0), 0, 1e-14 * Tc * dc, "energy-zero");
        double last_peak = 0, at = 0;
        for (int i = 0; i < 12; ++i)
          {
            const double x = dc * g.logu(1e-2, 6.), h = 1e-5 * dc;
            const double fd = (law.get_free_energy_density(x + h) - law.get_free_energy_density(x - h)) / (2 * h);
            rep.close(fd, T(x), 1e-7 * Tc, "energy-derivative");
          }
        // envelope: largest at the critical opening
        for (int i = 1; i <= 60; ++i)
          {
            const double   x = u * i / 20.;
            const auto     d = Tensor<1, dim>(x * N);
            const double   e = law.get_effective_opening_displacement(d, N);
            const auto     t = law.get_cohesive_traction(d, N, e, 0.5 * e, 1.0);
            if (t.norm() > last_peak) last_peak = t.norm(), at = x;
          }
        rep.close(at, u, 0.05 * u * 1.01, "peak-position");
        rep.close(last_peak, Tc / cs, 2e-3 * Tc / cs, "peak-value");
        // random history: loading, unloading, reloading, compression, zero
        double         mx = 0, old = 0;
        Tensor<1, dim> d;
        for (int step = 0; step < 40; ++step)
          {
            const int kind = g.integer(0, 7);
            if (kind == 0) d = 0;
            else if (kind == 1) d = -u * g.uni(0, 2) * N;                // pure compression
            else if (kind == 2) d *= g.uni(0, 1.6);                     // proportional
            else if (kind == 3) d += 0.2 * u * any_vec<dim>(g, 1.);     // small change
            else if (kind == 4) d = u * g.uni(0, 3) * N;                // pure opening
            else if (kind == 5) ;                                       // nothing moves
            else d = any_vec<dim>(g, u * g.logu(1e-3, 4.));
            const double e = law.get_effective_opening_displacement(d, N);
            rep.close(e, eff_ref(d), 1e-12 * (u + e), "effective-opening");
            mx = std::max(mx, e);
            const double dt = g.logu(1e-3, 1.);
            const bool   loading = (e == mx && e >= old);
            rep.count(loading ? "loading" : "secant");
            rep.count(d * N < 0 ? "compressed" : "open");
            const auto t = law.get_cohesive_traction(d, N, mx, old, dt), x = ref(d, mx);
            // with the secant of a dimensionless maximum the value is T(cd mx) e/mx
            const double tol = 1e-10 * Tc / cs * std::max(1., be * be) * (1 + e / u);
            rep.close((t - x).norm(), 0, tol, loading ? "envelope" : "secant");
            rep.check(t * d >= -tol * u, "pulls-the-wrong-way", [&] { return cat(t * d); });
            if (d * N < 0) rep.close(t * N, 0, tol, "normal-traction-in-compression");
            const auto J = law.get_jacobian(d, N, mx, old, dt);
            for (int a = 0; a < dim; ++a) for (int b = 0; b < dim; ++b) rep.finite(J[a][b], "tangent-finite");
            // derivative at fixed history, away from the kinks
            const double dn = d * N, h = 1e-6 * u;
            // (with respect to the opening in physical units, cd times the argument)
            if (e > 1e-2 * u && std::fabs(dn) > 1e-3 * u && (loading || e < mx - 1e-3 * u))
              {
                rep.count("tangents-differenced");
                const auto dir = any_unit<dim>(g);
                auto       tr = [&](double s) {
                  const Tensor<1, dim> z = d + s * h * dir;
                  const double         ez = law.get_effective_opening_displacement(z, N);
                  return law.get_cohesive_traction(z, N, loading ? ez : mx, loading ? 0.5 * ez : old, dt);
                };
                const auto fd = (tr(1) - tr(-1)) / (2 * h);
                rep.close((fd / cd - J * dir).norm(), 0, 2e-5 * Tc / dc / cs * std::max(1., be * be) * std::exp(1.), loading ? "tangent-envelope" : "tangent-secant");
              }
            // sometimes the point is where it was: same opening, committed again
            old = e;
          }
        // closed opening cycle takes work in
        {
          Tensor<1, dim> d0 = any_vec<dim>(g, u), d1 = any_vec<dim>(g, 2 * u), d2 = any_vec<dim>(g, 2 * u);
          if (g.coin()) d0 = 0;
          const std::vector<Tensor<1, dim>> pts = {d0, d1, d2, d0};
          double         w = 0, m = law.get_effective_opening_displacement(d0, N), o = m, scale = 0;
          Tensor<1, dim> z = d0, tz = law.get_cohesive_traction(z, N, m, o, 1.0);
          // the work of the monotone envelope up to the first point is already in
          for (int s = 0; s < 3; ++s)
            for (int i = 1; i <= 300; ++i)
              {
                const Tensor<1, dim> y = pts[s] + (pts[s + 1] - pts[s]) * (i / 300.);
                const double         e = law.get_effective_opening_displacement(y, N);
                m = std::max(m, e);
                const auto ty = law.get_cohesive_traction(y, N, m, o, 1.0);
                w += 0.5 * (tz + ty) * (y - z);
                scale += 0.5 * (tz + ty).norm() * (y - z).norm();
                z = y, tz = ty, o = e;
              }
          rep.check(w >= -2e-3 * scale, "cycle-returns-work", [&] { return cat("work ", w, " of ", scale); });
        }
      });
    }
}

template <int dim> void p08(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::ContactLawParameters p;
      p.penalty_coefficient = g.logu(1e-2, 1e6);
      const double cs = g.coin() ? 1.0 : g.logu(1e-1, 1e3), cd = g.coin() ? 1.0 : g.logu(1e-3, 1e1);
      const auto   N = any_unit<dim>(g);
      std::ostringstream no;
      no << std::setprecision(17) << N;
      rep.begin(cat("dim=", dim, " penalty=", p.penalty_coefficient, " sigma0=", cs, " u0=", cd, " N=(", no.str(), ")"));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::ConstitutiveLaws::ContactLaw<dim> law(p, cs, cd);
        const double                           K = p.penalty_coefficient / cs;
        for (int t = 0; t < 25; ++t)
          {
            const double   sc = g.logu(1e-6, 1);
            Tensor<1, dim> d = any_vec<dim>(g, sc);
            if (t == 0) d = 0;
            if (t == 1) d = sc * N;
            if (t == 2) d = -sc * N;
            if (t == 3) d -= (d * N) * N;
            const double   dn = d * N;
            const auto     tr = law.get_contact_traction(d, N);
            const auto     J = law.get_jacobian(d, N);
            rep.count(dn < 0 ? "penetrating" : "apart");
            const double tol = 1e-12 * K * cd * sc;
            rep.close((tr - (dn < 0 ? K * cd * dn : 0.0) * N).norm(), 0, tol, "traction");
            if (dn > 0) rep.close(tr.norm(), 0, 0, "traction-when-apart");
            for (int a = 0; a < dim; ++a) for (int b = 0; b < dim; ++b) rep.finite(J[a][b], "tangent-finite");
            rep.check(tr * d >= -tol * sc, "wrong-sign");
            if (std::fabs(dn) > 1e-3 * sc)
              {
                const auto   dir = any_unit<dim>(g);
                const double h = 1e-4 * sc;
                const auto   fd = (law.get_contact_traction(d + h * dir, N) - law.get_contact_traction(d - h * dir, N)) / (2 * h);
                rep.close((fd / cd - J * dir).norm(), 0, 1e-8 * K, "tangent");
              }
          }
      });
    }
}

// ---------------------------------------------------------------- P09

template <int dim> void p09(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      const unsigned    ns = g.integer(1, 12), nq = g.integer(1, 3);
      RTP::HardeningLaw h;
      h.initial_slip_resistance = g.coin(0.1) ? 0 : g.logu(1e-1, 1e3);
      h.linear_hardening_modulus = g.coin(0.1) ? 0 : g.logu(1e-1, 1e4);
      h.hardening_parameter = g.uni(0, 2);
      h.flag_perfect_plasticity = g.coin(0.2);
      const double cg = g.coin() ? 1.0 : g.logu(1e-1, 1e3);
      std::string  ops;
      rep.begin(cat("ns=", ns, " g0=", h.initial_slip_resistance, " H=", h.linear_hardening_modulus, " q=", h.hardening_parameter, " perfect=", h.flag_perfect_plasticity,
                    " char=", cg, " history ", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::QuadraturePointHistory<dim> H;
        std::vector<std::vector<double>> a(ns, std::vector<double>(nq)), b = a;
        must_throw("uninitialised-accepted", [&] { gCP::QuadraturePointHistory<dim> x; x.update_values(0, a, b); });
        H.init(h, ns, cg);
        std::vector<double> com(ns, h.initial_slip_resistance / cg), cur = com;
        auto                compare = [&](const char *after, bool exact) {
          const auto v = H.get_slip_resistances();
          if (!rep.check(v.size() == ns, "size")) return;
          for (unsigned s = 0; s < ns; ++s)
            {
              rep.close(v[s], cur[s], (exact ? 0. : 1e-12) * std::fabs(cur[s]), std::string("after-") + after);
              rep.check(H.get_slip_resistance(s) == v[s], "accessors-agree");
            }
        };
        compare("init", false);
        cur = com = H.get_slip_resistances();
        double inc = g.logu(1e-6, 1e-1);
        for (int op = 0; op < 60; ++op)
          switch (g.integer(0, 5))
            {
              case 0:
                {
                  H.store_current_values();
                  com = cur;
                  compare("commit", true);
                  rep.count("commits");
                  break;
                }
              case 1:
                {
                  H.reset_values();
                  cur = com;
                  compare("rollback", true);
                  rep.count("rollbacks");
                  break;
                }
              default:
                {
                  for (auto &s : a) for (auto &v : s) v = g.coin(0.2) ? 0 : inc * g.uni(-1, 1);
                  for (auto &s : b) for (auto &v : s) v = g.coin(0.2) ? 0 : inc * g.uni(-1, 1);
                  if (g.coin(0.1)) b = a;
                  const unsigned q = g.integer(0, nq - 1);
                  H.update_values(q, a, b);
                  cur = com;
                  if (!h.flag_perfect_plasticity)
                    for (unsigned s = 0; s < ns; ++s)
                      for (unsigned r = 0; r < ns; ++r)
                        cur[s] += h.linear_hardening_modulus / cg * (s == r ? 1. : h.hardening_parameter) * std::fabs(a[r][q] - b[r][q]);
                  compare("update", h.flag_perfect_plasticity);
                  const auto v = H.get_slip_resistances();
                  for (unsigned s = 0; s < ns; ++s) rep.check(v[s] >= com[s], "softening", [&] { return cat(v[s], " < ", com[s]); });
                  H.update_values(q, a, b);
                  for (unsigned s = 0; s < ns; ++s) rep.check(H.get_slip_resistance(s) == v[s], "repeat-changes");
                  cur = v;
                  rep.count("updates");
                }
            }
      });
    }
}

// ---------------------------------------------------------------- P10

template <int dim> void p10_storage(Rng &g, unsigned n)
{
  using D = gCP::InterfaceQuadraturePointHistory<dim>;
  for (unsigned k = 0; k < n; ++k)
    {
      Triangulation<dim>    tria;
      std::vector<unsigned> reps(dim);
      Point<dim>            a, b;
      for (int i = 0; i < dim; ++i) reps[i] = g.integer(1, 3), b[i] = 1;
      GridGenerator::subdivided_hyper_rectangle(tria, reps, a, b);
      if (tria.n_active_cells() < 10 && g.coin(0.3)) tria.refine_global(1);
      const int nc = g.integer(1, 3), nq = g.integer(1, 4);
      for (auto &cell : tria.active_cell_iterators()) cell->set_material_id(g.integer(0, nc - 1));
      rep.begin(cat("storage dim=", dim, " cells=", tria.n_active_cells(), " crystals=", nc, " points=", nq, " seed-case ", k));
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::InterfaceDataStorage<typename Triangulation<dim>::cell_iterator, D> st;
        st.initialize(tria.begin_active(), tria.end(), nq);
        RTP::DamageEvolution       de;
        RTP::CohesiveLawParameters cp;
        std::map<D *, int>         seen;
        unsigned                   faces = 0;
        for (auto &cell : tria.active_cell_iterators())
          for (auto f : cell->face_indices())
            if (!cell->at_boundary(f) && cell->neighbor(f)->material_id() != cell->material_id())
              {
                ++faces;
                auto d = st.get_data(cell->id(), cell->neighbor(f)->id()), e = st.get_data(cell->neighbor(f)->id(), cell->id());
                if (!rep.check(int(d.size()) == nq && int(e.size()) == nq, "point-count")) return;
                const auto &cst = st;
                auto        ce = cst.get_data(cell->neighbor(f)->id(), cell->id());
                rep.check(ce.size() == d.size(), "const-point-count");
                std::set<D *> own;
                for (int q = 0; q < nq; ++q)
                  {
                    rep.check(d[q] && d[q] == e[q], "two-sides-differ");
                    rep.check(q < int(ce.size()) && ce[q].get() == d[q].get(), "const-access-differs");
                    own.insert(d[q].get());
                    ++seen[d[q].get()];
                    d[q]->init(de, cp);
                    d[q]->set(0.125);
                    rep.check(e[q]->get_damage_variable() == 0.125, "write-not-seen");
                  }
                rep.check(int(own.size()) == nq, "points-shared-within-face");
              }
            else if (!cell->at_boundary(f))
              must_throw("history-inside-crystal", [&] { st.get_data(cell->id(), cell->neighbor(f)->id()); });
        for (auto &p : seen) rep.check(p.second == 2, "object-shared-by-faces", [&] { return cat(p.second); });
        rep.count("boundary-faces", faces);
      });
    }
}

template <int dim> void p10(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::DamageEvolution       de;
      RTP::CohesiveLawParameters cp;
      cp.critical_cohesive_traction = g.logu(1, 1e3);
      cp.critical_opening_displacement = g.logu(1e-3, 1);
      cp.tangential_to_normal_stiffness_ratio = g.coin() ? 1. : g.logu(.3, 3.);
      const bool m1 = g.coin();
      de.damage_evolution_model = m1 ? RTP::DamageEvolutionModel::M1 : RTP::DamageEvolutionModel::OrtizEtAl;
      de.damage_accumulation_constant = g.logu(1e-2, 10);
      de.damage_decay_constant = g.coin() ? 0 : g.logu(1e-3, 1);
      de.damage_decay_exponent = g.coin() ? 1 : g.uni(0.5, 3);
      de.endurance_limit = g.coin() ? 0 : g.logu(1e-2, 10);
      de.flag_set_damage_to_zero = g.coin(0.1);
      const double dc = cp.critical_opening_displacement, be = cp.tangential_to_normal_stiffness_ratio, cd = g.coin() ? 1. : g.logu(1e-2, 10);
      rep.begin(cat("model=", m1 ? "accumulation" : "opening", " dc=", dc, " beta=", be, " A=", de.damage_accumulation_constant, " decay=", de.damage_decay_constant,
                    "^", de.damage_decay_exponent, " endurance=", de.endurance_limit, " zero=", de.flag_set_damage_to_zero, " u0=", cd, " history ", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        gCP::InterfaceQuadraturePointHistory<dim> H;
        gCP::ConstitutiveLaws::CohesiveLaw<dim>   law(cp);
        H.init(de, cp);
        H.store_current_values();
        rep.check(H.get_damage_variable() == 0 && H.get_max_effective_opening_displacement() == 0, "initial");
        double com_d = 0, com_m = 0, cur_d = 0, cur_m = 0, old = 0;
        const auto N = any_unit<dim>(g);
        auto       compare = [&](const char *after, double tol) {
          rep.close(H.get_damage_variable(), cur_d, tol, std::string("damage-after-") + after);
          rep.close(H.get_max_effective_opening_displacement(), cur_m, 0, std::string("maximum-after-") + after);
          rep.check(H.get_damage_variable() >= 0 && H.get_damage_variable() <= 1, "damage-range", [&] { return cat(H.get_damage_variable()); });
        };
        for (int op = 0; op < 60; ++op)
          switch (g.integer(0, 6))
            {
              case 0:
                H.store_current_values();
                com_d = cur_d;
                com_m = cur_m;
                compare("commit", 0);
                rep.count("commits");
                break;
              case 1:
                H.reset_values();
                cur_d = com_d;
                cur_m = com_m;
                compare("rollback", 0);
                rep.count("rollbacks");
                break;
              case 2:
                {
                  // end of a step: the opening the next rate refers to
                  const auto u1 = any_vec<dim>(g, dc), u2 = g.coin(0.2) ? u1 : any_vec<dim>(g, dc);
                  if (g.coin()) H.store_effective_opening_displacement(u1, u2, N);
                  else H.store_effective_opening_displacement(u1, u2, N, 1.0);
                  old = H.get_old_effective_opening_displacement();
                  const auto   o = u1 - u2; // neighbour minus current
                  const double on = std::max(0., o * N), ot = (o - (o * N) * N).norm();
                  rep.close(old, std::sqrt(on * on + be * be * ot * ot), 1e-12 * dc * std::max(1., be), o * N < 0 ? "stored-opening-compressed" : "stored-opening");
                  rep.close(old, law.get_effective_opening_displacement(o, N), 1e-12 * dc * std::max(1., be), "stored-opening-vs-cohesive-law");
                  rep.count(o * N < 0 ? "compressed" : "opened");
                  compare("store", 0);
                  break;
                }
              default:
                {
                  const double e = g.coin(0.2) ? old : g.coin(0.1) ? 0 : dc * g.logu(1e-3, 5) / cd;
                  double       f = de.endurance_limit + g.logu(1e-3, 5) / dc / de.damage_accumulation_constant;
                  if (g.coin(0.15)) f = de.endurance_limit * g.uni(0, 1); // below the endurance limit
                  auto upd = [&] {
                    if (m1) H.update_values(e, cd, f);
                    else H.update_values(e);
                  };
                  upd();
                  cur_m = std::max(com_m, e);
                  if (m1)
                    {
                      cur_d = com_d + de.damage_accumulation_constant * cd * std::max(0., e - old) *
                                        std::pow(1 - com_d + de.damage_decay_constant, de.damage_decay_exponent) * std::max(0., f - de.endurance_limit);
                      rep.count(f < de.endurance_limit ? "below-endurance" : e > old ? "accumulating" : "closing");
                      if (cur_d > 1) cur_d = 1, rep.count("saturated");
                    }
                  else
                    cur_d = 1 - (1 + cur_m / dc) * std::exp(-cur_m / dc);
                  if (de.flag_set_damage_to_zero) cur_d = 0;
                  compare(f < de.endurance_limit && m1 ? "update-below-endurance" : "update", 1e-12);
                  rep.check(H.get_damage_variable() >= com_d - 1e-12, f < de.endurance_limit && m1 ? "healing-below-endurance" : "healing",
                            [&] { return cat(H.get_damage_variable(), " < ", com_d); });
                  const double d1 = H.get_damage_variable();
                  upd();
                  rep.check(H.get_damage_variable() == d1, "repeat-changes");
                  cur_d = d1;
                  rep.count("updates");
                }
            }
      });
    }
}

// ---------------------------------------------------------------- P11

static double ff_val(double f, double f0, double slope, double lam) { return f - f0 - lam * slope; }

void p11(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::LineSearchParameters p;
      p.alpha = g.coin() ? 1e-4 : g.logu(1e-6, 0.4);
      p.beta = 0.9;
      p.n_max_iterations = g.integer(1, 20);
      gCP::LineSearch ls(p);
      const int       searches = g.integer(1, 4);
      rep.begin(cat("alpha=", p.alpha, " limit=", p.n_max_iterations, " searches=", searches, " case ", k));
      rep.nontrivial(rep.current);
      std::string desc = rep.current;
      for (int s = 0; s < searches; ++s)
        {
          const double f0 = g.coin(.03) ? 0. : g.logu(1e-20, 1e10); // zero: the state is in equilibrium already
          std::string  trace = cat(desc, " search ", s, " f0=", f0, ":");
          ls.reinit(f0, s, 1);
          rep.check(ls.get_n_iterations() == 0, "not-reset");
          double       lam = 1.0, old_lam = 0, ff = 0, old_ff = 0;
          const double slope = -2 * f0;
          const int    shape = g.integer(0, 4);
          const double c2 = g.logu(1e-2, 1e4), c3 = g.uni(-3, 3);
          for (unsigned it = 0; it < p.n_max_iterations + 2; ++it)
            {
              double f = 0;
              switch (shape)
                {
                  case 0: f = f0 * (1 - 2 * lam + c2 * lam * lam); break;                       // quadratic
                  case 1: f = f0 * (1 - 2 * lam + c2 * lam * lam + c3 * lam * lam * lam); break; // cubic
                  case 2: f = f0 * g.logu(1e-3, 1e6); break;                                     // anything
                  case 3: f = f0 * (1 + g.logu(1e-16, 1e-1)); break;                             // flat
                  default: f = f0 * (it == 0 ? g.logu(1.01, 3) : g.logu(1, 1e8)); break;         // worse when closer
                }
              f = std::max(f, 0.0);
              trace += cat(" f(", lam, ")=", f);
              rep.current = trace;
              const double armijo = f0 + p.alpha * lam * slope;
              const bool   acc = ls.suficient_descent_condition(f, lam);
              const unsigned it_now = ls.get_n_iterations();
              rep.check(it_now == it, "iteration-count");
              if (it > p.n_max_iterations) rep.check(acc, "limit-ignored");
              else if (std::fabs(f - armijo) > 1e-12 * f0) rep.check(acc == (f < armijo), "acceptance", [&] { return cat("f=", f, " bound=", armijo, " accepted=", acc); });
              if (f0 == 0 && f == 0) { rep.check(acc, "equilibrium-not-accepted"); rep.count("zero-residuals"); break; }
              if (f < armijo && it > 0 && g.coin(0.7)) break; // as the solver: stop when accepted
              double nl = NAN;
              rep.count(it == 0 ? "quadratic-steps" : "cubic-steps");
              bool degenerate = false;
              double expect = NAN;
              if (it == 0)
                {
                  const double den = 2 * (f - f0 - slope);
                  expect = den > 0 ? -slope / den : NAN;
                  expect = std::isnan(expect) ? expect : std::min(0.5, std::max(0.1, expect));
                }
              else
                {
                  // cubic through f0, slope and the last two trials
                  const long double a1 = (long double)ff_val(f, f0, slope, lam), a2 = (long double)ff_val(old_ff, f0, slope, old_lam);
                  const long double a = (a1 / ((long double)lam * lam) - a2 / ((long double)old_lam * old_lam)) / ((long double)lam - old_lam);
                  const long double b = (-old_lam * a1 / ((long double)lam * lam) + lam * a2 / ((long double)old_lam * old_lam)) / ((long double)lam - old_lam);
                  const long double disc = b * b - 3 * a * slope;
                  const long double mag = std::fabs(a1) / (lam * lam) + std::fabs(a2) / (old_lam * old_lam);
                  if (disc < 1e-9L * (b * b + std::fabs(3 * a * slope)) || std::fabs(a) < 1e-7L * mag / std::fabs(lam - old_lam)) degenerate = true;
                  else
                    {
                      expect = double((-b + std::sqrt(disc)) / (3 * a));
                      // cancellation in the textbook form
                      if (std::fabs(-b + std::sqrt(disc)) < 1e-6L * std::fabs(b)) degenerate = true;
                      expect = std::min(0.5 * lam, std::max(0.1 * lam, expect));
                    }
                  rep.count(disc < 0 ? "negative-discriminant" : "regular-cubic");
                }
              bool ok = guarded(it == 0 ? "first-step-exception" : "later-step-exception", [&] { nl = ls.get_lambda(f, lam); });
              if (!ok) break;
              rep.finite(nl, "not-finite");
              rep.check(nl > 0, "not-positive");
              if (it == 0) rep.check(nl >= 0.1 - 1e-15 && nl <= 0.5 + 1e-15, "first-bounds", [&] { return cat(nl); });
              else rep.check(nl >= 0.1 * lam * (1 - 1e-14) && nl <= 0.5 * lam * (1 + 1e-14), "later-bounds", [&] { return cat(nl, " from ", lam); });
              if (!degenerate && std::isfinite(expect)) rep.close(nl, expect, 1e-6 * lam, it == 0 ? "quadratic-minimiser" : "cubic-minimiser");
              old_lam = lam;
              old_ff = f;
              lam = nl;
              (void)ff;
            }
          rep.sample(trace.substr(0, 400));
          rep.nontrivial(trace);
        }
      const double r = g.slogu(1e-12, 1e6);
      rep.close(gCP::LineSearch::get_objective_function_value(r), 0.5 * r * r, 1e-14 * r * r, "objective");
    }
  // freshness: a search gives the same steps whatever was searched before
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::LineSearchParameters p;
      p.n_max_iterations = 15;
      gCP::LineSearch used(p), fresh(p);
      rep.begin(cat("freshness ", k));
      guarded("exception", [&] {
        used.reinit(g.logu(1e-3, 1e3));
        double l = 1;
        for (int i = g.integer(1, 5); i > 0; --i) l = used.get_lambda(g.logu(1e3, 1e4), l);
        const double f0 = g.logu(1e-3, 1e3);
        used.reinit(f0);
        fresh.reinit(f0);
        double la = 1, lb = 1;
        for (int i = 0; i < 5; ++i)
          {
            const double f = f0 * (1 - 2 * la + 30 * la * la) + f0 * 0.01 * i;
            const double ff = std::max(f, f0);
            la = used.get_lambda(ff, la);
            lb = fresh.get_lambda(ff, lb);
            rep.check(la == lb, "earlier-search-leaks", [&] { return cat(la, " vs ", lb); });
          }
      });
    }
}

// ---------------------------------------------------------------- P26

void p26(Rng &g, unsigned n)
{
  using LF = gCP::Utilities::Logger::Format;
  for (unsigned k = 0; k < n; ++k)
    {
      const int                nc = g.integer(1, 6), rows = g.integer(1, 12);
      std::vector<std::string> names;
      std::vector<LF>          fm;
      rep.begin(cat("log with ", nc, " columns ", rows, " rows case ", k));
      rep.nontrivial(rep.current);
      for (int i = 0; i < nc; ++i)
        {
          std::string s;
          for (int j = g.integer(1, 8); j > 0; --j) s += char('A' + g.integer(0, 25));
          s += std::to_string(i);
          names.push_back(s);
          fm.push_back(std::vector<LF>{LF::Integer, LF::Decimal, LF::Scientific}[g.integer(0, 2)]);
        }
      std::vector<std::vector<double>> expect;
      guarded("exception", [&] {
        gCP::Utilities::Logger log("log.txt");
        std::vector<double>    v(nc, 0.0);
        for (int i = 0; i < nc; ++i) log.declare_column(names[i], fm[i]);
        must_throw("duplicate-accepted", [&] { log.declare_column(names[g.integer(0, nc - 1)], LF::Decimal); });
        for (int r = 0; r < rows; ++r)
          {
            for (int i = 0; i < nc; ++i)
              if (g.coin(0.7))
                {
                  v[i] = fm[i] == LF::Integer ? g.integer(0, 2000000) : fm[i] == LF::Decimal ? g.uni(-1e4, 1e4) : g.slogu(1e-30, 1e30);
                  if (g.coin(0.2)) log.update_value(names[i], 1.0); // overwritten
                  log.update_value(names[i], v[i]);
                }
            log.log_to_file();
            expect.push_back(v);
          }
      });
      std::ifstream in("log.txt");
      std::string   line;
      unsigned      r = 0;
      while (std::getline(in, line))
        {
          std::istringstream ss(line);
          std::string        tok;
          std::vector<std::string> toks;
          while (ss >> tok) toks.push_back(tok);
          if (toks.empty()) continue;
          if (!rep.check(r < expect.size() && int(toks.size()) == nc, "row-shape", [&] { return line; })) break;
          for (int i = 0; i < nc; ++i)
            {
              char        *e;
              const double x = std::strtod(toks[i].c_str(), &e), y = expect[r][i];
              rep.check(*e == 0, "not-a-number", [&] { return toks[i]; });
              const bool has_e = toks[i].find('e') != std::string::npos, has_dot = toks[i].find('.') != std::string::npos;
              if (fm[i] == LF::Integer) rep.check(x == y && !has_e && !has_dot, "integer", [&] { return cat(toks[i], " for ", y); });
              if (fm[i] == LF::Decimal) rep.check(std::fabs(x - y) <= 1e-6 && !has_e && has_dot, "decimal", [&] { return cat(toks[i], " for ", y); });
              if (fm[i] == LF::Scientific) rep.check(std::fabs(x - y) <= 1e-6 * std::fabs(y) && has_e, "scientific", [&] { return cat(toks[i], " for ", y); });
            }
          ++r;
        }
      rep.check(r == expect.size(), "row-count", [&] { return cat(r, " of ", expect.size()); });
      rep.count("rows", r);
      rep.sample(line);

      // file comparison
      std::string a, b;
      for (int i = g.integer(0, 1) * g.integer(1, 5000); i > 0; --i) a += char(g.next() & 255);
      const int kind = g.integer(0, 5);
      b = a;
      bool same = true;
      if (kind == 0 && !a.empty()) { b[g.integer(0, int(a.size()) - 1)] ^= char(1 << g.integer(0, 7)); same = false; }
      if (kind == 1) { b += char(g.next() & 255); same = false; }
      if (kind == 2 && !a.empty()) { b.pop_back(); same = false; }
      if (kind == 3 && !a.empty()) { b.back() ^= 1; same = false; }
      std::ofstream("fa.bin", std::ios::binary) << a;
      std::ofstream("fb.bin", std::ios::binary) << b;
      rep.begin(cat("files of ", a.size(), " and ", b.size(), " bytes, kind ", kind));
      rep.nontrivial(rep.current);
      rep.check(gCP::Utilities::files_are_identical("fa.bin", "fb.bin") == same, same ? "same-files-differ" : "different-files-same");
      rep.check(gCP::Utilities::files_are_identical("fb.bin", "fa.bin") == same, same ? "same-files-differ" : "different-files-same");
      rep.check(!gCP::Utilities::files_are_identical("fa.bin", "missing.bin"), "missing-file-same");
      rep.check(!gCP::Utilities::files_are_identical("missing.bin", "fa.bin"), "missing-file-same");
      rep.count(same ? "same-pairs" : "different-pairs");

      rep.check(gCP::Utilities::macaulay_brackets(1.5) == 1.5 && gCP::Utilities::macaulay_brackets(-1.5) == 0 && gCP::Utilities::macaulay_brackets(0) == 0, "macaulay");
      rep.check(gCP::Utilities::signum_function(-2) == -1 && gCP::Utilities::signum_function(3) == 1 && gCP::Utilities::signum_function(0) == 0, "signum");
    }
}

#include "parameters.h"

// ---------------------------------------------------------------- main

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  deal_II_exceptions::disable_abort_on_exception();
  const std::string p = argv[1];
  tier.seed = std::strtoull(argv[2], nullptr, 10);
  tier.set(argv[3]);
  rep.open(argv[4]);
  Rng g(tier.seed * 1000003 + std::hash<std::string>()(p));
  auto both = [&](auto f2, auto f3, unsigned n) { f2(g, tier.n(n)); f3(g, tier.n(n)); };
  if (p == "P01") both(p01<2>, p01<3>, 250);
  else if (p == "P02") both(p02<2>, p02<3>, 60);
  else if (p == "P03") both(p03<2>, p03<3>, 250);
  else if (p == "P04") both(p04<2>, p04<3>, 200);
  else if (p == "P05") both(p05<2>, p05<3>, 200);
  else if (p == "P06") both(p06<2>, p06<3>, 250);
  else if (p == "P07") both(p07<2>, p07<3>, 150);
  else if (p == "P08") both(p08<2>, p08<3>, 400);
  else if (p == "P09") both(p09<2>, p09<3>, 200);
  else if (p == "P10") { both(p10<2>, p10<3>, 300); both(p10_storage<2>, p10_storage<3>, 25); }
  else if (p == "P11") p11(g, tier.n(1500));
  else if (p == "P12") p12(g);
  else if (p == "P13") p13(g);
  else if (p == "P26") p26(g, tier.n(200));
  else return 3;
  rep.end();
  return 0;
}
