// Judging states of a problem against the independent evaluation.
#pragma once
#include "fem_problem.h"

static double l2(const std::vector<double> &v)
{
  double s = 0;
  for (double x : v) s += x * x;
  return std::sqrt(s);
}

// the reference residual and the solver's, row by row
template <int dim>
void compare_residual(Problem<dim> &P, const typename Problem<dim>::Vec &x, const typename Problem<dim>::Vec &old, double dt, const std::string &key)
{
  const auto R = P.reference(x, old, dt);
  const auto r = P.evaluate(x);
  double     top = 0;
  for (double s : R.scale) top = std::max(top, s);
  const auto &nc = P.fe->get_newton_method_constraints();
  unsigned    rows = 0, bad = 0;
  double      worst = 0;
  std::string at;
  for (unsigned i = 0; i < r.size(); ++i)
    {
      if (nc.is_constrained(i)) continue;
      ++rows;
      const double tol = 1e-10 * R.scale[i] + 1e-14 * top, d = std::fabs(r[i] - R.r[i]);
      if (!(d <= tol))
        {
          ++bad;
          if (!(d / tol <= worst)) worst = d / tol, at = cat("row ", i, " got ", r[i], " expected ", R.r[i], " scale ", R.scale[i]);
        }
    }
  rep.count("residual-rows", rows);
  rep.check(bad == 0, key, [&] { return cat(bad, " of ", rows, " rows; ", at); });

  // the history the solver holds
  const auto &h = P.solver->quadrature_point_history;
  for (const auto &cell : P.fe->get_triangulation().active_cell_iterators())
    {
      const auto d = P.solver->quadrature_point_history.get_data(cell);
      for (unsigned q = 0; q < d.size(); ++q)
        for (int s = 0; s < P.cfg.ns; ++s)
          {
            const double want = R.resist[cell->active_cell_index()][q][s];
            rep.close(d[q]->get_slip_resistance(s), want, 1e-11 * want, key + "-slip-resistance");
          }
      if (P.cfg.deco)
        for (const auto f : cell->face_indices())
          if (!cell->face(f)->at_boundary() && cell->neighbor(f)->material_id() != cell->material_id())
            {
              const auto H = P.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id());
              for (unsigned q = 0; q < H.size(); ++q)
                {
                  const auto &w = R.gbh.at({unsigned(cell->face(f)->index()), q});
                  const double dc = P.prm.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
                  rep.close(H[q]->get_damage_variable(), w.d, 1e-9, key + "-damage");
                  rep.close(H[q]->get_max_effective_opening_displacement(), w.mx, 1e-10 * (w.mx + dc), key + "-max-opening");
                }
            }
    }
  (void)h;
}

// giving up is a legitimate answer; an internal contradiction is not
static void refused(const std::string &name, const std::string &text)
{
  rep.count("refused:" + name);
  rep.check(name == "ExcMaxIterations" || name == "abort" || name.find("NumberNotFinite") != std::string::npos || name.find("NoConvergence") != std::string::npos,
            "internal-refusal:" + name, [&] { return text; });
}

// reported converged: equilibrium and constraints by the independent evaluation
template <int dim> double check_step(Problem<dim> &P, double dt, double tol, const std::string &key)
{
  const auto x = P.get(P.fe->solution), old = P.get(P.fe->old_solution);
  const auto R = P.reference(x, old, dt);
  double     s2 = 0, noise = 0;
  const auto &nc = P.fe->get_newton_method_constraints();
  for (unsigned i = 0; i < x.size(); ++i)
    if (!nc.is_constrained(i)) s2 += R.r[i] * R.r[i], noise += R.scale[i] * R.scale[i];
  const double r = std::sqrt(s2), limit = 1.0001 * tol + 1e-11 * std::sqrt(noise);
  rep.check(r <= limit, key + "-equilibrium", [&] { return cat("residual ", r, " limit ", limit); });
  for (auto &e : P.prescribed())
    rep.close(x[e.first], e.second, 1e-13 * (std::fabs(e.second) + P.strain0 * P.cfg.L), key + "-constraint");
  rep.count("converged-steps");
  P.commit(R);
  return r;
}
