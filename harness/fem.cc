// Monitors of the finite element level: properties P14 to P22.
#include "fem_steps.h"

namespace V
{
Reporter rep;
Tier     tier;
} // namespace V

// ---------------------------------------------------------------- P17

template <int dim> void p17_weak(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g);
      // dimensionless form: no decohesion, no microtraction
      if (!c.deco && c.gb != GB::Microtraction && g.coin(.3))
        {
          auto &f = p.dimensionless_form_parameters;
          f.flag_solve_dimensionless_problem = true;
          f.characteristic_quantities.length = g.logu(.1, 10);
          f.characteristic_quantities.displacement = g.logu(.01, 1);
          f.characteristic_quantities.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1111 * g.logu(.1, 10);
          f.characteristic_quantities.slip_resistance = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance * g.logu(.1, 10);
          f.init(p.constitutive_laws_parameters);
        }
      rep.begin("weak form " + describe(c, p, dim, dt) + (p.dimensionless_form_parameters.flag_solve_dimensionless_problem ? " dimensionless" : "") + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim> P(g, c, p, dt, e0);
        P.start(dt);
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        auto         old = P.get(P.fe->old_solution);
        for (int step = 0; step < 3; ++step)
          {
            P.set_load(e0 * g.uni(-1, 1));
            const double su = g.logu(.1, 3), ss = g.logu(.1, 3);
            compare_residual(P, P.random_state(g, su, ss, op * g.logu(.05, 3)), old, dt, "weak-form");
            auto x = P.random_state(g, su, ss, op * g.logu(.05, 3));
            if (step == 1) for (unsigned i = 0; i < x.size(); ++i) if (!P.fe->get_affine_constraints().is_constrained(i)) x[i] = old[i]; // nothing moves
            compare_residual(P, x, old, dt, "weak-form");
            P.accept(x, dt);
            old = x;
            rep.count("accepted-states");
          }
      });
    }
}

template <int dim> Cfg solvable_cfg(Rng &g, bool deco_allowed = true)
{
  Cfg c = any_cfg<dim>(g, true);
  if (dim == 3) { c.udeg = c.sdeg = 1; c.cells = 2; c.ns = std::min(c.ns, 2); }
  if (!deco_allowed) c.deco = false;
  if (c.deco) { c.nc = 2; c.patches = false; c.all_driven = false; c.neumann = false; c.supply = false; }
  c.neumann = c.neumann && g.coin();
  return c;
}

template <int dim> void p17_solve(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g);
      const int alg = c.deco ? 0 : g.integer(0, 5);
      p.solution_algorithm = alg < 4 ? RTP::SolutionAlgorithm::Monolithic : alg == 4 ? RTP::SolutionAlgorithm::Bouncing : RTP::SolutionAlgorithm::Embracing;
      c.single = alg < 4;
      const bool   starve = g.coin(.25);
      auto        &np = p.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters;
      double       tol = np.absolute_tolerance;
      if (alg >= 4)
        {
          auto &a = p.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters,
               &b = p.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters;
          a.absolute_tolerance = b.absolute_tolerance = tol = 1e-6 * p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance;
          a.n_max_iterations = b.n_max_iterations = tier.thorough ? 200 : 80;
          tol *= std::sqrt(2.);
          if (starve) a.n_max_iterations = b.n_max_iterations = g.integer(1, 3);
        }
      else if (starve) np.n_max_iterations = g.integer(1, 4);
      rep.begin("solve " + describe(c, p, dim, dt) + cat(" algorithm ", int(p.solution_algorithm), starve ? " starved" : "", " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        auto         Q = std::make_unique<Problem<dim>>(g, c, p, dt, e0);
        auto        &P = *Q;
        double       load = 0;
        for (int step = 0; step < 4 && on_time(); ++step)
          {
            load += e0 * g.uni(-.4, 1.);
            P.set_load(load);
            P.time.set_desired_next_step_size(dt);
            const auto before = P.get(P.fe->solution);
            std::string name, text;
            if (!attempt([&] { P.solver->solve_nonlinear_system(step == 0); }, name, text))
              {
                // giving up leaves the accepted solution alone
                refused(name, text);
                const auto after = P.get(P.fe->solution);
                rep.check(before == after, "failed-step-changed-solution");
                if (name == "abort") Q.release();
                break;
              }
            check_step(P, dt, tol, "step");
            P.fe->update_solution_vectors();
            P.time.advance_time();
          }
      });
    }
}

// ---------------------------------------------------------------- P15

// position of a degree of freedom, rounded
template <int dim> std::array<long, 3> spot(const Point<dim> &x, double h)
{
  std::array<long, 3> r{{0, 0, 0}};
  for (int i = 0; i < dim; ++i) r[i] = std::lround(x[i] / h * 1e6);
  return r;
}

template <int dim> void p15_layout(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g);
      c.udeg = g.integer(1, dim == 2 ? 3 : 2);
      c.sdeg = g.integer(1, dim == 2 ? 3 : 2);
      c.cells = dim == 2 ? g.integer(2, 5) : g.integer(2, 3);
      c.nc = g.integer(1, 4);
      c.deco = c.nc > 1 && g.coin();
      c.patches = c.nc > 1 && g.coin(.7);
      c.refine = g.coin(.3) ? 1 : 0;
      c.distort = 0;
      c.neumann = c.supply = c.macro = false;
      rep.begin("layout " + describe(c, p, dim, dt) + cat(" refine=", c.refine, " ranks=", n_ranks(), " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        // the layout only: no solver
        parallel::distributed::Triangulation<dim> tria(MPI_COMM_WORLD);
        std::vector<unsigned>                     reps(dim, c.cells);
        if (!c.patches) reps[1] = std::max<unsigned>(c.cells, c.nc);
        Point<dim> b;
        for (int i = 0; i < dim; ++i) b[i] = 1;
        GridGenerator::subdivided_hyper_rectangle(tria, reps, Point<dim>(), b, true);
        std::map<CellId, unsigned>           of;
        std::map<std::array<long, 3>, unsigned> crystal_at; // by centre of the coarse cell
        std::vector<unsigned>                ids;
        unsigned                             ncoarse = 1;
        for (auto r : reps) ncoarse *= r;
        bool ok = false;
        while (!ok)
          {
            ids.clear();
            std::vector<bool> seen(c.nc, false);
            for (unsigned i = 0; i < ncoarse; ++i)
              {
                unsigned y = (i / reps[0]) % reps[1];
                ids.push_back(c.patches ? g.integer(0, c.nc - 1) : std::min<unsigned>(c.nc - 1, (y + .5) / reps[1] * c.nc));
                seen[ids.back()] = true;
              }
            ok = std::all_of(seen.begin(), seen.end(), [](bool x) { return x; });
          }
        auto want_id = [&](const Point<dim> &x) {
          unsigned i = 0, m = 1;
          for (int d = 0; d < dim; ++d)
            {
              i += m * std::min<unsigned>(reps[d] - 1, x[d] * reps[d]);
              m *= reps[d];
            }
          return ids[i];
        };
        if (c.refine) tria.refine_global(1);
        // only owned cells know their crystal beforehand
        for (const auto &cell : tria.active_cell_iterators())
          if (cell->is_locally_owned()) cell->set_material_id(want_id(cell->center()));
        gCP::FEField<dim> fe(tria, c.udeg, c.sdeg, c.deco, c.single);
        must_throw("setup-dofs-before-extractors", [&] { gCP::FEField<dim> f(tria, 1, 1); f.setup_dofs(); });
        fe.setup_extractors(c.nc, c.ns);
        fe.update_ghost_material_ids();
        for (const auto &cell : fe.get_dof_handler().active_cell_iterators())
          if (cell->is_locally_owned()) cell->set_active_fe_index(cell->material_id());
        must_throw("vectors-before-dofs", [&] { fe.setup_vectors(); });
        fe.setup_dofs();

        unsigned nu_cell = dim * std::pow(c.udeg + 1, dim) + .5, ns_cell = c.ns * unsigned(std::pow(c.sdeg + 1, dim) + .5);
        hp::MappingCollection<dim> mc{MappingQ<dim>(1)};
        std::map<types::global_dof_index, Point<dim>> pts;
        DoFTools::map_dofs_to_support_points(mc, fe.get_dof_handler(), pts);
        const unsigned nu = c.deco ? dim * c.nc : dim;
        using Key = std::tuple<std::array<long, 3>, int, int, int>; // where, kind, crystal, index
        std::map<Key, types::global_dof_index>            dof_of;
        std::map<types::global_dof_index, Key>            key_of;
        IndexSet                                          disp(fe.n_dofs()), slip(fe.n_dofs());
        for (const auto &cell : fe.get_dof_handler().active_cell_iterators())
          {
            if (cell->is_artificial()) continue;
            const unsigned m = want_id(cell->center());
            rep.check(cell->material_id() == m, cell->is_ghost() ? "ghost-crystal" : "own-crystal");
            rep.check(cell->active_fe_index() == m, "active-element");
            const auto &f = cell->get_fe();
            if (!rep.check(f.n_dofs_per_cell() == nu_cell + ns_cell, "unknowns-per-cell", [&] { return cat("got ", f.n_dofs_per_cell(), " expected ", nu_cell + ns_cell); })) continue;
            std::vector<types::global_dof_index> di(f.n_dofs_per_cell());
            cell->get_dof_indices(di);
            std::vector<unsigned> per(nu + c.ns * c.nc, 0);
            for (unsigned i = 0; i < di.size(); ++i)
              {
                const unsigned comp = f.system_to_component_index(i).first;
                ++per[comp];
                Key      key;
                unsigned local;
                if (comp < nu)
                  {
                    if (c.deco) rep.check(comp / dim == m, "foreign-displacement");
                    key = Key{spot(pts.at(di[i]), 1.), 0, c.deco ? int(m) : 0, int(comp % dim)};
                    local = comp % dim;
                    disp.add_index(di[i]);
                  }
                else
                  {
                    rep.check((comp - nu) / c.ns == m, "foreign-slip");
                    key = Key{spot(pts.at(di[i]), 1.), 1, int(m), int((comp - nu) % c.ns)};
                    local = dim + (comp - nu) % c.ns;
                    slip.add_index(di[i]);
                  }
                rep.check(fe.get_global_component(m, i) == local, "component-helper");
                // one unknown per place and meaning, one meaning per unknown
                auto a = dof_of.emplace(key, di[i]);
                rep.check(a.first->second == di[i], comp >= nu ? "slip-not-continuous" :
                          // deal.II identifies the unknowns of lines in space only when all of them agree
                          dim == 3 && c.udeg > 1 && c.sdeg > 1 && i >= f.get_first_line_index() && i < f.get_first_quad_index(0) ? "displacement-not-continuous:lines-in-3d" :
                          "displacement-not-continuous", [&] { return cat("at ", pts.at(di[i]), " ", pts.at(a.first->second), " unknowns ", di[i], " ", a.first->second, " crystal ", m, " cell ", cell->id()); });
                auto z = key_of.emplace(di[i], key);
                rep.check(z.first->second == key, comp < nu ? "displacement-shared" : "slip-shared");
              }
            for (unsigned q = 0; q < nu + unsigned(c.ns * c.nc); ++q)
              {
                const bool mine = q < nu ? (!c.deco || q / dim == m) : (q - nu) / c.ns == m;
                rep.check(per[q] == (mine ? (q < nu ? nu_cell / dim : ns_cell / c.ns) : 0), "unknowns-per-component");
              }
            rep.count(cell->is_ghost() ? "ghost-cells" : "cells");
          }
        rep.count("unknowns", key_of.size());
        // sets
        IndexSet owned = fe.get_locally_owned_dofs();
        disp.compress();
        slip.compress();
        rep.check((disp & owned) == fe.get_locally_owned_displacement_dofs(), "owned-displacements");
        rep.check((slip & owned) == fe.get_locally_owned_plastic_slip_dofs(), "owned-slips");
        const unsigned long nd = Utilities::MPI::sum((unsigned long)(disp & owned).n_elements(), MPI_COMM_WORLD),
                            nsl = Utilities::MPI::sum((unsigned long)(slip & owned).n_elements(), MPI_COMM_WORLD);
        rep.check(nd == fe.get_n_displacement_dofs(), "count-displacements", [&] { return cat("got ", fe.get_n_displacement_dofs(), " expected ", nd); });
        rep.check(nsl == fe.get_n_plastic_slip_dofs(), "count-slips", [&] { return cat("got ", fe.get_n_plastic_slip_dofs(), " expected ", nsl); });
        rep.check(nd + nsl == fe.n_dofs(), "count-all");
        // with two blocks the displacements come first
        if (c.single) rep.check(owned.is_contiguous(), "numbering");
        else
          {
            for (auto i : disp) rep.check(i < nd, "numbering");
            for (auto i : slip) rep.check(i >= nd, "numbering");
          }
        // blocks
        const auto  &ob = fe.get_locally_owned_dofs_per_block();
        rep.check(ob.size() == (c.single ? 1u : 2u), "blocks");
        if (ob.size() == (c.single ? 1u : 2u))
          {
            if (c.single) rep.check(ob[0] == owned, "block-set");
            else rep.check(ob[0] == owned.get_view(0, nd) && ob[1] == owned.get_view(nd, nd + nsl), "block-set");
            IndexSet rel;
            DoFTools::extract_locally_relevant_dofs(fe.get_dof_handler(), rel);
            rep.check(rel == fe.get_locally_relevant_dofs(), "relevant-set");
          }
        // extractors
        for (int m = 0; m < c.nc; ++m)
          {
            rep.check(fe.get_displacement_extractor(m).first_vector_component == (c.deco ? unsigned(dim * m) : 0u), "displacement-extractor");
            for (int s = 0; s < c.ns; ++s) rep.check(fe.get_slip_extractor(m, s).component == nu + unsigned(m * c.ns + s), "slip-extractor");
          }
        rep.check(fe.get_n_components() == nu + c.nc * c.ns, "components");
        // norms
        fe.setup_vectors();
        const double base = g.logu(1e-8, 1e5);
        auto         v = fe.get_distributed_vector_instance(fe.solution);
        double       su = 0, ss = 0;
        for (auto i : owned)
          {
            const double x = base * std::sin(1. + i * 0.7);
            v(i) = x;
            (slip.is_element(i) ? ss : su) += x * x;
          }
        v.compress(VectorOperation::insert);
        su = std::sqrt(Utilities::MPI::sum(su, MPI_COMM_WORLD));
        ss = std::sqrt(Utilities::MPI::sum(ss, MPI_COMM_WORLD));
        guarded("norm-refused", [&] {
          const auto nn = fe.get_sub_l2_norms(v);
          rep.close(nn[0], su, 1e-12 * su, "norm-displacements");
          rep.close(nn[1], ss, 1e-12 * ss, "norm-slips");
          rep.close(fe.get_l2_norm(v), std::hypot(su, ss), 1e-12 * (su + ss), "norm");
          fe.solution = v;
          rep.close(fe.get_l2_norm(fe.solution), std::hypot(su, ss), 1e-12 * (su + ss), "norm-ghosted");
        });
        // histories of solutions
        fe.update_solution_vectors();
        auto w = v;
        w *= 2.;
        fe.solution = w;
        fe.update_solution_vectors();
        for (auto i : owned)
          {
            rep.check(fe.old_solution(i) == w(i) && fe.old_old_solution(i) == v(i), "solution-vectors");
          }
        // ghosts see the owner's values
        for (auto i : fe.get_locally_relevant_dofs()) rep.check(fe.old_old_solution(i) == base * std::sin(1. + i * 0.7), "ghost-values");
        // a copy has the same layout
        gCP::FEField<dim> cp(fe);
        rep.check(cp.n_dofs() == fe.n_dofs() && cp.get_n_displacement_dofs() == nd && cp.get_n_plastic_slip_dofs() == nsl &&
                  cp.get_locally_owned_dofs() == owned && cp.get_locally_owned_plastic_slip_dofs() == (slip & owned), "copy");
      });
    }
}

// ---------------------------------------------------------------- P16

template <int dim> void p16(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g, true);
      auto  &sm = p.constitutive_laws_parameters.scalar_microstress_law_parameters;
      if (!c.deco && c.gb != GB::Microtraction && g.coin(.3))
        {
          auto &f = p.dimensionless_form_parameters;
          f.flag_solve_dimensionless_problem = true;
          f.characteristic_quantities.length = g.logu(.1, 10);
          f.characteristic_quantities.displacement = g.logu(.01, 1);
          f.characteristic_quantities.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1111 * g.logu(.1, 10);
          f.characteristic_quantities.slip_resistance = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance * g.logu(.1, 10);
          f.init(p.constitutive_laws_parameters);
        }
      rep.begin("tangent " + describe(c, p, dim, dt) + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim> P(g, c, p, dt, e0);
        P.start(dt);
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        const auto   D = P.dims();
        const auto  &hl = p.constitutive_laws_parameters.hardening_law_parameters;
        const auto  &nc = P.fe->get_newton_method_constraints();
        for (int step = 0; step < 2; ++step)
          {
            P.set_load(e0 * g.uni(-1, 1));
            P.accept(P.random_state(g, 1, 1, op * g.logu(.05, 2)), dt);
          }
        const auto old = P.get(P.fe->old_solution);
        for (int t = 0; t < 3; ++t)
          {
            P.set_load(e0 * g.uni(-1, 1));
            typename Problem<dim>::Vec x, v(P.ndof(), 0.);
            typename Problem<dim>::Ref R;
            const double               h = 1e-6;
            // away from the kinks of |.|, of contact and of the envelope
            bool smooth = false;
            for (int tries = 0; tries < 40 && !smooth; ++tries)
              {
                x = P.random_state(g, g.logu(.3, 3), g.logu(.3, 3), op * g.logu(.05, 3));
                R = P.reference(x, old, dt);
                smooth = R.min_rate > 20 * h * e0 && (!c.deco || R.min_open > 20 * h * (e0 + op));
              }
            if (!smooth) { rep.count("states-at-a-kink"); continue; }
            for (auto &vi : v) vi = e0 * g.uni(-1, 1);
            for (auto &e : P.prescribed()) v[e.first] = 0;
            P.set_trial(x);
            P.solver->reset_and_update_internal_variables();
            P.solver->assemble_jacobian();
            // the damage of this state is kept while the state varies
            std::vector<std::vector<double>> dam;
            auto faces = [&](auto f) {
              if (!c.deco) return;
              unsigned at = 0;
              for (const auto &cell : P.fe->get_triangulation().active_cell_iterators())
                for (const auto fi : cell->face_indices())
                  if (!cell->face(fi)->at_boundary() && cell->neighbor(fi)->material_id() != cell->material_id())
                    f(at++, P.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(fi)->id()));
            };
            faces([&](unsigned, auto H) {
              std::vector<double> d;
              for (auto &q : H) d.push_back(q->get_damage_variable());
              dam.push_back(d);
            });
            auto res = [&](double s) {
              auto y = x;
              for (unsigned i = 0; i < y.size(); ++i) y[i] += s * v[i];
              P.set_trial(y);
              P.solver->reset_and_update_internal_variables();
              faces([&](unsigned at, auto H) { for (unsigned q = 0; q < H.size(); ++q) H[q]->set(dam[at][q]); });
              P.solver->assemble_residual();
              return P.get(P.solver->residual);
            };
            const auto rp = res(h), rm = res(-h);
            // J v and the sums of absolute products
            typename Problem<dim>::Vec Jv(P.ndof(), 0.), abs(P.ndof(), 0.);
            const auto                &J = P.solver->jacobian;
            double                     asym = 0, top = 0;
            unsigned                   nnz = 0;
            for (unsigned bi = 0, io = 0; bi < J.n_block_rows(); io += J.block(bi, 0).m(), ++bi)
              for (unsigned bj = 0, jo = 0; bj < J.n_block_cols(); jo += J.block(bi, bj).n(), ++bj)
                for (auto it = J.block(bi, bj).begin(); it != J.block(bi, bj).end(); ++it)
                  {
                    const unsigned i = io + it->row(), j = jo + it->column();
                    Jv[i] += it->value() * v[j];
                    abs[i] += std::fabs(it->value() * v[j]);
                    ++nnz;
                    if (!c.deco && !nc.is_constrained(i) && !nc.is_constrained(j))
                      {
                        const double a = it->value(), b = J.el(j, i);
                        // compare with the diagonal entries: rows differ in scale
                        const double s = std::sqrt(std::fabs(J.el(i, i) * J.el(j, j))) + std::fabs(a) + std::fabs(b);
                        if (s > 0) asym = std::max(asym, std::fabs(a - b) / s);
                      }
                  }
            rep.count("matrix-entries", nnz);
            if (!c.deco) rep.check(asym <= 1e-9, "symmetry", [&] { return cat("relative asymmetry ", asym); });
            // the hardening term enters with sgn(rate) in the residual and with
            // the regularised sign in the (symmetric) matrix
            typename Problem<dim>::Vec corr(P.ndof(), 0.);
            if (!hl.flag_perfect_plasticity)
              {
                const QGauss<dim> q(3);
                for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
                  {
                    FEValues<dim> fv(*P.mapping, cell->get_fe(), q, update_values | update_JxW_values);
                    fv.reinit(typename Triangulation<dim>::cell_iterator(cell));
                    std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
                    cell->get_dof_indices(di);
                    for (unsigned qq = 0; qq < q.size(); ++qq)
                      {
                        std::vector<double> rate(c.ns, 0.), w(c.ns, 0.), f(c.ns);
                        for (unsigned i = 0; i < di.size(); ++i)
                          {
                            const auto wi = P.who(cell->material_id(), i);
                            if (!wi.slip) continue;
                            rate[wi.index] += fv.shape_value(i, qq) * (x[di[i]] - old[di[i]]) / dt;
                            w[wi.index] += fv.shape_value(i, qq) * v[di[i]];
                          }
                        for (int a = 0; a < c.ns; ++a) f[a] = reg_ref(sm.regularization_function, rate[a], sm.regularization_parameter);
                        for (unsigned i = 0; i < di.size(); ++i)
                          {
                            const auto wi = P.who(cell->material_id(), i);
                            if (!wi.slip) continue;
                            for (int b = 0; b < c.ns; ++b)
                              {
                                const double H = hl.linear_hardening_modulus / D.S * (unsigned(b) == wi.index ? 1. : hl.hardening_parameter);
                                corr[di[i]] += fv.shape_value(i, qq) * f[wi.index] * H * ((rate[b] > 0 ? 1 : -1) - f[b]) * w[b] * fv.JxW(qq);
                              }
                          }
                      }
                  }
              }
            unsigned    bad = 0, rows = 0;
            double      worst = 0, atop = 0;
            std::string at;
            for (unsigned i = 0; i < x.size(); ++i) if (!nc.is_constrained(i)) atop = std::max(atop, abs[i]), top = std::max(top, R.scale[i]);
            for (unsigned i = 0; i < x.size(); ++i)
              {
                if (nc.is_constrained(i)) continue;
                ++rows;
                const double fd = -(rp[i] - rm[i]) / (2 * h), got = Jv[i] + corr[i];
                const double tol = 1e-5 * abs[i] + 1e-10 * atop + 1e-14 / h * (R.scale[i] + 1e-2 * top);
                if (!(std::fabs(fd - got) <= tol))
                  {
                    ++bad;
                    if (!(std::fabs(fd - got) / tol <= worst)) worst = std::fabs(fd - got) / tol, at = cat("row ", i, " J v ", got, " difference quotient ", fd, " tolerance ", tol);
                  }
              }
            rep.count("matrix-rows", rows);
            rep.check(bad == 0, "directional-derivative", [&] { return cat(bad, " of ", rows, " rows; ", at); });
          }
      });
    }
}

#include "fem_more.h"

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  deal_II_exceptions::disable_abort_on_exception();
  const std::string p = argv[1];
  tier.seed = std::strtoull(argv[2], nullptr, 10);
  tier.set(argv[3]);
  rep.active = my_rank() == 0;
  rep.open(argv[4] + (my_rank() ? "." + std::to_string(my_rank()) : std::string()));
  rep.active = true;
  Rng g(tier.seed * 1000003 + std::hash<std::string>()(p));
  if (p == "P15") { p15_layout<2>(g, tier.n(60)); p15_layout<3>(g, tier.n(16)); }
  else if (p == "P16") { p16<2>(g, tier.n(40)); p16<3>(g, tier.n(6)); }
  else if (p == "P17") { p17_weak<2>(g, tier.n(40)); p17_weak<3>(g, tier.n(4)); p17_solve<2>(g, tier.n(8)); if (g.coin(.5) || tier.thorough) p17_solve<3>(g, tier.n(1)); }
  else if (!more(p, g)) return 3;
  rep.end();
  if (abort_seen()) std::_Exit(0); // what was leaked would trouble the destructors
  return 0;
}
