// Monitors P21 and P22: what is reported of a solution.
#pragma once
#include <gCP/boundary_conditions.h>
#include <gCP/postprocessing.h>

#include <deal.II/dofs/dof_tools.h>
#include <deal.II/numerics/data_out.h>

// ---------------------------------------------------------------- P22

template <int dim> void p22(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g);
      c.deco = true;
      c.nc = std::max(c.nc, 2);
      c.refine = dim == 2 && g.coin(.2) ? 1 : 0;
      c.supply = c.neumann = c.macro = false;
      rep.begin("damage " + describe(c, p, dim, dt) + cat(" refine=", c.refine, " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim>          P(g, c, p, dt, e0);
        auto                 &S = *P.solver;
        const QGauss<dim - 1> qf(3);
        const FE_Q<dim>       lin(2);
        std::map<types::global_dof_index, Point<dim>> where;
        DoFTools::map_dofs_to_support_points(*P.mapping, S.get_projection_dof_handler(), where);
        const double h = .25 * c.L / c.cells / (1 << c.refine);
        (void)h;
        for (int round = 0; round < 4; ++round)
          {
            const int    kind = g.integer(0, 4);
            const double value = g.coin(.2) ? 1. : g.uni(0, 1);
            Tensor<1, dim> dir = any_unit<dim>(g);
            rep.count(kind == 0 ? "uniform" : kind == 1 ? "random" : "varying");
            // given damage by face and place
            std::map<std::array<long, 3>, double> at;
            double                                lo = 1e300, hi = -1e300;
            for (const auto &cell : P.tria.active_cell_iterators())
              for (const auto fi : cell->face_indices())
                if (!cell->face(fi)->at_boundary() && cell->neighbor(fi)->material_id() != cell->material_id())
                  {
                    FEFaceValues<dim> ff(*P.mapping, lin, qf, update_quadrature_points);
                    ff.reinit(cell, fi);
                    auto d = S.interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(fi)->id());
                    for (unsigned q = 0; q < qf.size(); ++q)
                      {
                        const auto key = spot(ff.quadrature_point(q), c.L);
                        if (!at.count(key))
                          at[key] = kind == 0 ? value : kind == 1 ? g.unit() : .5 + .5 * std::sin(4 * (ff.quadrature_point(q) * dir) / c.L + value);
                        d[q]->set(at[key]);
                        lo = std::min(lo, at[key]);
                        hi = std::max(hi, at[key]);
                      }
                  }
            // own projection by place
            std::map<std::array<long, 3>, double> w, b;
            double                                area = 0, total = 0;
            for (const auto &cell : P.tria.active_cell_iterators())
              for (const auto fi : cell->face_indices())
                if (!cell->face(fi)->at_boundary() && cell->neighbor(fi)->material_id() != cell->material_id())
                  {
                    FEFaceValues<dim> ff(*P.mapping, lin, qf, update_values | update_quadrature_points | update_JxW_values);
                    ff.reinit(cell, fi);
                    for (unsigned q = 0; q < qf.size(); ++q)
                      {
                        const double d = at.at(spot(ff.quadrature_point(q), c.L));
                        area += ff.JxW(q);
                        total += d * ff.JxW(q);
                        for (unsigned i = 0; i < lin.n_dofs_per_cell(); ++i)
                          {
                            if (!lin.has_support_on_face(i, fi)) continue;
                            const auto key = spot(P.mapping->transform_unit_to_real_cell(cell, lin.get_unit_support_points()[i]), c.L);
                            w[key] += ff.shape_value(i, q) * ff.JxW(q);
                            b[key] += ff.shape_value(i, q) * d * ff.JxW(q);
                          }
                      }
                  }
            const bool before = g.coin();
            if (before) rep.close(S.get_macroscopic_damage(), total / area, 1e-10, "macroscopic-damage");
            const auto &v = S.get_damage_at_grain_boundaries();
            rep.check(v.size() == where.size(), "field-size");
            double   sum = 0, wsum = 0;
            unsigned on = 0, off = 0;
            for (auto &e : where)
              {
                const auto   key = spot(e.second, c.L);
                const double x = v(e.first);
                rep.finite(x, "field-finite");
                if (w.count(key))
                  {
                    ++on;
                    rep.check(S.lumped_projection_matrix(e.first) > 0, "weight-not-positive");
                    rep.close(S.lumped_projection_matrix(e.first), w[key], 1e-9 * area, "weight");
                    rep.close(x, b[key] / w[key], 1e-8, "node-damage");
                    if (kind == 0) rep.close(x, value, 1e-10, "uniform-damage");
                    sum += x * S.lumped_projection_matrix(e.first);
                    wsum += S.lumped_projection_matrix(e.first);
                  }
                else
                  {
                    ++off;
                    rep.check(x == 0, "damage-away-from-boundaries", [&] { return cat(x); });
                  }
              }
            rep.count("nodes-on", on);
            rep.count("nodes-off", off);
            rep.close(sum / area, total / area, 1e-9, "total-damage");
            rep.close(wsum / area, 1., 1e-9, "total-weight");
            rep.close(S.get_macroscopic_damage(), total / area, 1e-10, "macroscopic-damage");
            rep.check(S.get_macroscopic_damage() >= lo - 1e-12 && S.get_macroscopic_damage() <= hi + 1e-12, "macroscopic-damage-range");
            // asking twice changes nothing
            const double first = v(where.begin()->first), l2 = v.l2_norm();
            const auto  &v2 = S.get_damage_at_grain_boundaries();
            rep.check(v2(where.begin()->first) == first && std::fabs(v2.l2_norm() - l2) <= 1e-14 * (1 + l2), "asked-twice");
          }
      });
    }
}

// ---------------------------------------------------------------- P21

template <int dim> struct Fields : public DataOut<dim>
{
  const std::vector<DataOutBase::Patch<dim, dim>> &patches() const { return this->get_patches(); }
  std::vector<std::string>                         names() const { return this->get_dataset_names(); }
};

template <int dim> Tensor<2, 3> hooke3(const Problem<dim> &P, unsigned k, const Tensor<2, 3> &E, double cs)
{
  const auto  &p = P.prm.constitutive_laws_parameters.hooke_law_parameters;
  const auto   R = P.c.R3[k];
  const auto   e0 = transpose(R) * E * R;
  Tensor<2, 3> s0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      s0[i][j] = (i == j ? p.C1111 * e0[i][i] + p.C1122 * (e0[(i + 1) % 3][(i + 1) % 3] + e0[(i + 2) % 3][(i + 2) % 3]) : 2 * p.C1212 * e0[i][j]) / cs;
  return R * s0 * transpose(R);
}
static double dev_norm2(const Tensor<2, 3> &t)
{
  double       s = 0;
  const double m = trace(t) / 3;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) s += std::pow(t[i][j] - (i == j ? m : 0), 2);
  return s;
}

template <int dim> struct At
{
  Tensor<1, dim>      u;
  Tensor<2, 3>        strain, plastic; // without the macroscopic strain
  std::vector<double> slip;
  double              edge = 0, screw = 0;
};
// the solution at points of a cell
template <int dim> std::vector<At<dim>> at_points(Problem<dim> &P, const std::vector<double> &x, const typename DoFHandler<dim>::active_cell_iterator &cell,
                                                  const FEValuesBase<dim> &fv)
{
  const unsigned                       k = cell->material_id();
  std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
  cell->get_dof_indices(di);
  std::vector<At<dim>> r(fv.n_quadrature_points);
  for (unsigned q = 0; q < r.size(); ++q)
    {
      At<dim> &a = r[q];
      a.slip.assign(P.cfg.ns, 0.);
      std::vector<Tensor<1, dim>> gs(P.cfg.ns);
      for (unsigned i = 0; i < di.size(); ++i)
        {
          const auto w = P.who(k, i);
          const auto gr = fv.shape_grad(i, q);
          if (w.slip)
            {
              a.slip[w.index] += x[di[i]] * fv.shape_value(i, q);
              gs[w.index] += x[di[i]] * gr;
            }
          else
            {
              a.u[w.index] += x[di[i]] * fv.shape_value(i, q);
              for (int j = 0; j < dim; ++j) a.strain[w.index][j] += .5 * x[di[i]] * gr[j], a.strain[j][w.index] += .5 * x[di[i]] * gr[j];
            }
        }
      for (int s = 0; s < P.cfg.ns; ++s)
        {
          const auto sc = schmid(P.c, k, s);
          for (int i = 0; i < dim; ++i)
            for (int j = 0; j < dim; ++j) a.plastic[i][j] += a.slip[s] * sc[i][j];
          a.edge += std::pow(gs[s] * P.c.m[k][s], 2);
          a.screw += std::pow(gs[s] * P.c.l[k][s], 2);
        }
    }
  return r;
}

template <int dim> void p21_fields(Rng &g, unsigned n)
{
  static const char *voigt[6] = {"11", "22", "33", "23", "13", "12"};
  static const int   vi[6] = {0, 1, 2, 1, 0, 0}, vj[6] = {0, 1, 2, 2, 2, 1};
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g);
      c.supply = c.neumann = false;
      if (!c.deco && c.gb != GB::Microtraction && g.coin(.5))
        {
          auto &f = p.dimensionless_form_parameters;
          f.flag_solve_dimensionless_problem = true;
          f.characteristic_quantities.length = g.logu(.1, 10);
          f.characteristic_quantities.displacement = g.logu(.01, 1);
          f.characteristic_quantities.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1111 * g.logu(.1, 10);
          f.characteristic_quantities.slip_resistance = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance * g.logu(.1, 10);
          f.init(p.constitutive_laws_parameters);
        }
      const bool light = g.coin(.15), raw = g.coin(.3), fluct = g.coin(.5);
      const int  sub = dim == 2 ? g.integer(1, 3) : g.integer(1, 2);
      if (g.coin(.4)) c.distort = 0;
      rep.begin("fields " + describe(c, p, dim, dt) + cat(p.dimensionless_form_parameters.flag_solve_dimensionless_problem ? " dimensionless" : "", " light=", light, " raw=", raw, " fluctuations=", fluct, " subdivisions=", sub, " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim> P(g, c, p, dt, e0);
        P.set_load(e0 * g.uni(-1, 1));
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        const auto   x = P.random_state(g, g.coin(.1) ? 0 : 1, g.coin(.1) ? 0 : 1, op * g.logu(.05, 2));
        P.fe->solution = P.ghosted(x);
        const auto   D = P.dims();
        const auto  &q = p.dimensionless_form_parameters.characteristic_quantities;
        double       U = 1, T = 1, E = 1, rho = 1;
        if (D.on && !raw) U = q.displacement, T = q.stiffness * q.displacement / q.length, E = q.displacement / q.length, rho = 1 / q.length;
        gCP::Postprocessing::Postprocessor<dim> post(P.fe, P.c.data, p.dimensionless_form_parameters, light, raw, fluct);
        if (!light || g.coin()) post.init(P.solver->get_hooke_law());
        Tensor<2, 3> macro;
        if (c.macro)
          {
            post.set_macroscopic_strain(P.macro);
            for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) macro[i][j] = P.macro[i][j];
          }
        Fields<dim> out;
        out.attach_dof_handler(P.fe->get_dof_handler());
        out.add_data_vector(P.fe->solution, post);
        out.build_patches(*P.mapping, sub, DataOut<dim>::curved_inner_cells);
        const auto names = out.names();
        // expected names
        std::vector<std::string> want(dim, "Displacement");
        auto                     two = [](int s) { char b[8]; std::snprintf(b, sizeof b, "%02d", s); return std::string(b); };
        for (int s = 0; s < c.ns; ++s) want.push_back("Slip_" + two(s + 1));
        if (!light)
          {
            for (auto s : {"EquivalentPlasticStrain", "EquivalentAbsolutePlasticStrain", "EquivalentEdgeDislocationDensity", "EquivalentScrewDislocationDensity", "VonMisesStress", "VonMisesPlasticStrain"}) want.push_back(s);
            for (int i = 0; i < 6; ++i) want.push_back(std::string("Stress_") + voigt[i]);
            for (auto s : {"Strain_", "ElasticStrain_", "PlasticStrain_"})
              for (int i = 0; i < 6; ++i) want.push_back(std::string(s) + voigt[i] + (i < 3 ? "" : "x2"));
            if (fluct)
              {
                want.push_back("VonMisesStressFluctuations");
                for (int i = 0; i < 6; ++i) want.push_back(std::string("StressFluctuations_") + voigt[i]);
                for (int i = 0; i < 6; ++i) want.push_back(std::string("StrainFluctuations_") + voigt[i] + (i < 3 ? "" : "x2"));
              }
          }
        auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
        if (!rep.check(sorted(names) == sorted(want), "field-names", [&] { std::string s; for (auto &e : names) s += e + " "; return s; })) return;
        // points of a patch
        std::vector<Point<dim>> pts;
        for (int a = 0; a <= (dim == 3 ? sub : 0); ++a)
          for (int b = 0; b <= sub; ++b)
            for (int d = 0; d <= sub; ++d)
              {
                Point<dim> z;
                z[0] = double(d) / sub, z[1] = double(b) / sub;
                if (dim == 3) z[dim - 1] = double(a) / sub;
                pts.push_back(z);
              }
        const Quadrature<dim> quad(pts);
        rep.check(out.patches().size() == P.tria.n_active_cells(), "cells");
        unsigned ci = 0;
        for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
          {
            const auto &patch = out.patches()[ci++];
            if (!rep.check(patch.vertices[0].distance(cell->vertex(0)) < 1e-9 * c.L, "patch-order")) return;
            FEValues<dim> fv(*P.mapping, cell->get_fe(), quad, update_values | update_gradients);
            fv.reinit(typename Triangulation<dim>::cell_iterator(cell));
            const auto     A = at_points(P, x, cell, fv);
            const unsigned cr = cell->material_id();
            for (unsigned z = 0; z < pts.size(); ++z)
              {
                const auto                   &a = A[z];
                std::map<std::string, double> val, tol;
                double                        slips = 0, absolute = 0;
                for (int s = 0; s < c.ns; ++s) val["Slip_" + two(s + 1)] = a.slip[s], slips += a.slip[s], absolute += std::fabs(a.slip[s]);
                const auto   strain = a.strain + macro, elastic = strain - D.n0 * a.plastic;
                const auto   stress = hooke3(P, cr, elastic, D.C), sf = hooke3(P, cr, a.strain - D.n0 * a.plastic, D.C);
                const double big = std::max({strain.norm(), a.strain.norm(), D.n0 * absolute}) + 1e-30, bigs = big * (p.constitutive_laws_parameters.hooke_law_parameters.C1111 + p.constitutive_laws_parameters.hooke_law_parameters.C1212) / D.C;
                auto         set = [&](const std::string &name, double v, double t) { val[name] = v; tol[name] = t; };
                set("EquivalentPlasticStrain", slips, absolute);
                set("EquivalentAbsolutePlasticStrain", absolute, absolute);
                set("EquivalentEdgeDislocationDensity", rho * std::sqrt(a.edge), rho * e0 / c.L * c.cells * 30);
                set("EquivalentScrewDislocationDensity", rho * std::sqrt(a.screw), rho * e0 / c.L * c.cells * 30);
                set("VonMisesStress", T * std::sqrt(1.5 * dev_norm2(stress)), T * bigs);
                set("VonMisesPlasticStrain", std::sqrt(2. / 3 * dev_norm2(a.plastic)), absolute);
                set("VonMisesStressFluctuations", T * std::sqrt(1.5 * dev_norm2(sf)), T * bigs);
                for (int i = 0; i < 6; ++i)
                  {
                    const std::string v = voigt[i], w = v + (i < 3 ? "" : "x2");
                    const double      f = i < 3 ? 1 : 2;
                    set("Stress_" + v, T * stress[vi[i]][vj[i]], T * bigs);
                    set("Strain_" + w, f * E * strain[vi[i]][vj[i]], E * big);
                    set("ElasticStrain_" + w, f * E * elastic[vi[i]][vj[i]], E * big);
                    set("PlasticStrain_" + w, f * a.plastic[vi[i]][vj[i]], absolute);
                    set("StressFluctuations_" + v, T * sf[vi[i]][vj[i]], T * bigs);
                    set("StrainFluctuations_" + w, f * E * a.strain[vi[i]][vj[i]], E * big);
                  }
                int dis = 0;
                for (unsigned f = 0; f < names.size(); ++f)
                  {
                    const double got = patch.data(f, z);
                    const auto  &nm = names[f];
                    if (nm == "Displacement")
                      {
                        rep.close(got, U * a.u[dis], 1e-6 * U * (a.u.norm() + e0 * c.L), "Displacement");
                        ++dis;
                      }
                    else rep.close(got, val.at(nm), 1e-6 * (nm.substr(0, 5) == "Slip_" ? e0 : tol[nm]) + 1e-30, nm.substr(0, 5) == "Slip_" ? "Slip" : nm);
                  }
                rep.count("points");
              }
          }
        rep.count(light ? "light" : "full");
        if (D.on) rep.count(raw ? "dimensionless-raw" : "dimensionless");
        // the interpretation of the fields
        const auto in = post.get_data_component_interpretation();
        rep.check(in.size() == want.size(), "interpretations");
        for (unsigned f = 0; f < in.size(); ++f)
          rep.check((in[f] == DataComponentInterpretation::component_is_part_of_vector) == (f < unsigned(dim)), "interpretation");
      });
    }
}

// a table in org mode: columns by name, empty entries are left out
static std::map<std::string, std::vector<std::string>> org_table(const std::string &text, std::vector<std::string> *order = nullptr)
{
  std::map<std::string, std::vector<std::string>> t;
  std::vector<std::string>                        names;
  std::istringstream                              in(text);
  std::string                                     line;
  while (std::getline(in, line))
    {
      if (line.empty() || line[0] != '|') continue;
      std::vector<std::string> cells;
      std::string              cell;
      for (unsigned i = 1; i < line.size(); ++i)
        if (line[i] == '|')
          {
            const auto a = cell.find_first_not_of(' '), b = cell.find_last_not_of(' ');
            cells.push_back(a == std::string::npos ? "" : cell.substr(a, b - a + 1));
            cell.clear();
          }
        else cell += line[i];
      if (names.empty()) { names = cells; if (order) *order = cells; for (auto &s : names) t[s]; }
      else for (unsigned i = 0; i < cells.size() && i < names.size(); ++i) t[names[i]].push_back(cells[i]);
    }
  return t;
}

// the averages of a state, by name, with tolerances
struct Averages
{
  std::map<std::string, double> row, tol;
  double                        force = 0, big = 0, C = 0; // shear force on the upper boundary
  Tensor<2, 3>                  stress;
};
template <int dim> Averages averages(Problem<dim> &P, const std::vector<double> &x, const Tensor<2, 3> &macro)
{
  static const char *voigt[6] = {"11", "22", "33", "23", "13", "12"};
  static const int   vi[6] = {0, 1, 2, 1, 0, 0}, vj[6] = {0, 1, 2, 2, 2, 1};
  const QGauss<dim>     q(3);
  const QGauss<dim - 1> qf(3);
  const auto            D = P.dims();
  const auto           &p = P.prm;
  Averages              result;
  auto                 &row = result.row, &tol = result.tol;
  Tensor<2, 3> s, sf, e;
  double       V = 0, big = 1e-30, F = 0;
  for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
    {
      FEValues<dim> fv(*P.mapping, cell->get_fe(), q, update_values | update_gradients | update_JxW_values);
      fv.reinit(typename Triangulation<dim>::cell_iterator(cell));
      const auto A = at_points(P, x, cell, fv);
      for (unsigned z = 0; z < q.size(); ++z)
        {
          V += fv.JxW(z);
          s += hooke3(P, cell->material_id(), macro + A[z].strain - D.n0 * A[z].plastic, D.C) * fv.JxW(z);
          sf += hooke3(P, cell->material_id(), A[z].strain - D.n0 * A[z].plastic, D.C) * fv.JxW(z);
          e += A[z].strain * fv.JxW(z);
          big = std::max(big, A[z].strain.norm() + D.n0 * A[z].plastic.norm() + macro.norm());
        }
      for (const auto fi : cell->face_indices())
        if (cell->face(fi)->at_boundary() && cell->face(fi)->boundary_id() == 3)
          {
            FEFaceValues<dim> ff(*P.mapping, cell->get_fe(), qf, update_values | update_gradients | update_JxW_values);
            ff.reinit(typename Triangulation<dim>::cell_iterator(cell), fi);
            const auto B = at_points(P, x, cell, ff);
            for (unsigned z = 0; z < qf.size(); ++z)
              F += hooke3(P, cell->material_id(), B[z].strain - D.n0 * B[z].plastic, D.C)[0][1] * ff.JxW(z);
          }
    }
  s /= V, sf /= V, e /= V;
  const double C = (p.constitutive_laws_parameters.hooke_law_parameters.C1111 + p.constitutive_laws_parameters.hooke_law_parameters.C1212) / D.C;
  for (int i = 0; i < 6; ++i)
    {
      if (dim == 2 && (vi[i] == 2 || vj[i] == 2)) continue;
      const std::string v = voigt[i];
      row["Stress_" + v] = s[vi[i]][vj[i]];
      row["StressFluctuations_" + v] = sf[vi[i]][vj[i]];
      row["Strain_" + v] = e[vi[i]][vj[i]] + macro[vi[i]][vj[i]];
      row["StrainFluctuations_" + v] = e[vi[i]][vj[i]];
      tol["Stress_" + v] = tol["StressFluctuations_" + v] = 1e-9 * C * big;
      tol["Strain_" + v] = tol["StrainFluctuations_" + v] = 1e-9 * big;
    }
  {
      // in the plane: the components of the plane, as documented
      auto plane = [](Tensor<2, 3> t) {
        if (dim == 3) return dev_norm2(t);
        const double m = (t[0][0] + t[1][1]) / 3;
        return std::pow(t[0][0] - m, 2) + std::pow(t[1][1] - m, 2) + 2 * t[0][1] * t[0][1];
      };
      row["VonMisesStress"] = std::sqrt(1.5 * plane(s));
      row["VonMisesStressFluctuations"] = std::sqrt(1.5 * plane(sf));
      row["VonMisesStrain"] = std::sqrt(2. / 3 * plane(e + macro));
      row["VonMisesStrainFluctuations"] = std::sqrt(2. / 3 * plane(e));
      tol["VonMisesStress"] = tol["VonMisesStressFluctuations"] = 1e-7 * C * big;
      tol["VonMisesStrain"] = tol["VonMisesStrainFluctuations"] = 1e-7 * big;
    }
  result.force = F;
  result.big = big;
  result.C = C;
  result.stress = s;
  return result;
}

template <int dim> void p21_averages(Rng &g, unsigned n)
{
  static const char *voigt[6] = {"11", "22", "33", "23", "13", "12"};
  static const int   vi[6] = {0, 1, 2, 1, 0, 0}, vj[6] = {0, 1, 2, 2, 2, 1};
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g);
      c.supply = c.neumann = false;
      c.L = g.coin(.3) ? 1. : g.logu(.2, 5);
      c.distort = g.coin() ? 0 : c.distort;
      if (!c.deco && c.gb != GB::Microtraction && g.coin(.4))
        {
          auto &f = p.dimensionless_form_parameters;
          f.flag_solve_dimensionless_problem = true;
          f.characteristic_quantities.length = g.logu(.1, 10);
          f.characteristic_quantities.displacement = g.logu(.01, 1);
          f.characteristic_quantities.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1111 * g.logu(.1, 10);
          f.characteristic_quantities.slip_resistance = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance * g.logu(.1, 10);
          f.init(p.constitutive_laws_parameters);
        }
      rep.begin("averages " + describe(c, p, dim, dt) + cat(p.dimensionless_form_parameters.flag_solve_dimensionless_problem ? " dimensionless" : "", " distort=", c.distort, " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim> P(g, c, p, dt, e0);
        const auto   D = P.dims();
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        gCP::Postprocessing::Homogenization<dim> hom(P.fe, P.mapping);
        {
          std::ofstream file("homogenised.txt");
          hom.init(P.solver->get_elastic_strain_law(), P.solver->get_hooke_law(), file);
        }
        Tensor<2, 3> macro;
        if (c.macro)
          {
            hom.set_macroscopic_strain(P.macro);
            for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) macro[i][j] = P.macro[i][j];
          }
        // the loading programme
        RTP::SimpleLoading sl;
        sl.loading_type = g.coin(.4) ? RTP::LoadingType::Monotonic : RTP::LoadingType::Cyclic;
        sl.start_time = 0;
        sl.max_load = e0 * g.uni(.5, 2);
        sl.min_load = g.coin() ? -sl.max_load : e0 * g.uni(-1, .4);
        sl.period = g.logu(.1, 10);
        sl.duration_loading_and_unloading_phase = sl.start_of_cyclic_phase = g.logu(.1, 10);
        sl.n_cycles = g.integer(1, 3);
        sl.start_of_unloading_phase = sl.start_of_cyclic_phase + sl.n_cycles * sl.period;
        const double end = sl.start_of_unloading_phase + sl.duration_loading_and_unloading_phase, height = c.L * g.logu(.5, 2);
        gCP::BoundaryConditions::DisplacementControl<dim> control(sl, P.fe->get_n_components(), c.nc, height, c.deco, 1.);
        const double width = c.L;
        auto shear = std::make_unique<gCP::Postprocessing::SimpleShear<dim>>(P.fe, P.mapping, sl.max_load, sl.min_load, sl.period, sl.duration_loading_and_unloading_phase,
                                                                            sl.loading_type, 3, width, sl.start_of_unloading_phase);
        shear->init(P.solver->get_elastic_strain_law(), P.solver->get_hooke_law());
        std::vector<std::map<std::string, double>> rows, srows;
        std::map<std::string, double>              tol;
        const unsigned                             nr = g.integer(1, 4);
        const QGauss<dim>                          q(3);
        const QGauss<dim - 1>                      qf(3);
        double                                     stol = 1e-30;
        for (unsigned r = 0; r < nr; ++r)
          {
            P.set_load(e0 * g.uni(-1, 1));
            const auto x = P.random_state(g, g.coin(.1) ? 0 : 1, g.coin(.1) ? 0 : 1, op * g.logu(.05, 2));
            P.fe->solution = P.ghosted(x);
            const double t = end * (r + g.uni(.05, .95)) / nr;
            hom.compute_macroscopic_quantities(t);
            shear->compute_data(t);
            auto         A = averages(P, x, macro);
            auto        &row = A.row;
            const double C = A.C, big = A.big, F = A.force;
            const auto   s = A.stress;
            for (auto &z : A.tol) tol[z.first] = z.second;
            row["Time"] = t;
            tol["Time"] = 1e-3 * end;
            rows.push_back(row);
            // getters
            for (int i = 0; i < dim; ++i)
              for (int j = 0; j < dim; ++j) rep.close(hom.get_macroscopic_stress()[i][j], s[i][j], 1e-9 * C * big, "macroscopic-stress");
            Vector<double> u(P.fe->get_n_components());
            control.set_time(t);
            control.vector_value(Point<dim>(), u);
            srows.push_back({{"shear_at_upper_boundary", u[0] / height}, {"stress_12_at_upper_boundary", F / std::pow(width, dim - 1)}});
            stol = std::max(stol, C * big);
            rep.count("rows");
          }
        hom.output_macroscopic_quantities_to_file();
        hom.path_to_output_file.close();
        std::ifstream     f("homogenised.txt");
        std::stringstream text;
        text << f.rdbuf();
        auto table = org_table(text.str());
        for (auto &e : rows[0])
          {
            auto &col = table[e.first];
            if (!rep.check(col.size() == nr, "rows:" + e.first, [&] { return cat(col.size(), " instead of ", nr); })) continue;
            for (unsigned r = 0; r < nr; ++r) rep.close(std::strtod(col[r].c_str(), nullptr), rows[r][e.first], tol[e.first] + 1e-9 * std::fabs(rows[r][e.first]), "average:" + e.first);
          }
        std::ostringstream so;
        shear->output_data_to_file(so);
        auto st = org_table(so.str());
        for (auto &e : srows[0])
          {
            if (e.first[1] == 't' && c.distort > 0) continue; // the cross section is not the nominal one
            auto &col = st[e.first];
            if (!rep.check(col.size() == nr, "rows:" + e.first, [&] { return cat(col.size(), " instead of ", nr); })) continue;
            for (unsigned r = 0; r < nr; ++r)
              rep.close(std::strtod(col[r].c_str(), nullptr), srows[r][e.first], e.first[1] == 't' ? 2e-6 * stol : 2e-6 * std::fabs(sl.max_load) + 2e-6 * std::fabs(srows[r][e.first]), "boundary:" + e.first);
          }
      });
    }
}
