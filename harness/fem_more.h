// Monitors P14 and P18 to P22.
#pragma once


// ---------------------------------------------------------------- P20

// driving force of every slip unknown at displacement x and the slips of the
// last step, as a weighted mean over its support; also the weights
template <int dim> void drive_of(Problem<dim> &P, const std::vector<double> &x, const std::vector<double> &old, double dt,
                                 std::vector<double> &force, std::vector<double> &weight)
{
  auto        y = x;
  const auto &slips = P.fe->get_locally_owned_plastic_slip_dofs();
  for (auto i : slips) y[i] = old[i];
  const auto R = P.reference(y, old, dt); // nothing slips: no dissipative part
  force = R.r;
  weight.assign(P.ndof(), 0.);
  const auto  &vm = P.prm.constitutive_laws_parameters.vectorial_microstress_law_parameters;
  const auto   D = P.dims();
  const double F = D.on ? 1. : vm.initial_slip_resistance * std::pow(vm.energetic_length_scale, vm.defect_energy_index);
  const QGauss<dim>     q(3);
  const QGauss<dim - 1> qf(3);
  for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
    {
      const unsigned k = cell->material_id();
      FEValues<dim>  fv(*P.mapping, cell->get_fe(), q, update_values | update_JxW_values);
      fv.reinit(typename Triangulation<dim>::cell_iterator(cell));
      std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
      cell->get_dof_indices(di);
      for (unsigned i = 0; i < di.size(); ++i)
        if (P.who(k, i).slip)
          for (unsigned p = 0; p < q.size(); ++p) weight[di[i]] += fv.shape_value(i, p) * fv.JxW(p);
      for (const auto fi : cell->face_indices())
        if (cell->face(fi)->at_boundary())
          {
            // no microscopic traction is assumed at the outside
            FEFaceValues<dim> ff(*P.mapping, cell->get_fe(), qf, update_values | update_gradients | update_JxW_values | update_normal_vectors);
            ff.reinit(typename Triangulation<dim>::cell_iterator(cell), fi);
            for (unsigned p = 0; p < qf.size(); ++p)
              for (int a = 0; a < P.cfg.ns; ++a)
                {
                  Tensor<1, dim> gr;
                  for (unsigned i = 0; i < di.size(); ++i)
                    if (P.who(k, i).slip && P.who(k, i).index == unsigned(a)) gr += old[di[i]] * ff.shape_grad(i, p);
                  // quadratic defect energy
                  const Tensor<1, dim> xi = F * ((gr * P.c.m[k][a]) * P.c.m[k][a] + (gr * P.c.l[k][a]) * P.c.l[k][a]);
                  for (unsigned i = 0; i < di.size(); ++i)
                    if (P.who(k, i).slip && P.who(k, i).index == unsigned(a))
                      force[di[i]] += D.n2 * ff.shape_value(i, p) * (xi * ff.normal_vector(p)) * ff.JxW(p);
                }
          }
    }
  for (auto i : slips) force[i] /= weight[i];
}

template <int dim> void p20(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g, false);
      if (c.gb == GB::Microtraction) c.gb = GB::Microfree;
      const int alg = g.integer(0, 9);
      p.solution_algorithm = alg < 7 ? RTP::SolutionAlgorithm::Monolithic : alg < 9 ? RTP::SolutionAlgorithm::Bouncing : RTP::SolutionAlgorithm::Embracing;
      c.single = alg < 7;
      if (alg >= 7)
        {
          auto &a = p.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters,
               &b = p.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters;
          a.absolute_tolerance = b.absolute_tolerance = 1e-8 * p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance;
          a.n_max_iterations = b.n_max_iterations = tier.thorough ? 200 : 80;
        }
      const std::string kind = alg < 7 ? "" : alg < 9 ? "-bouncing" : "-embracing";
      auto &sm = p.constitutive_laws_parameters.scalar_microstress_law_parameters;
      auto &hl = p.constitutive_laws_parameters.hardening_law_parameters;
      sm.flag_rate_independent = true;
      hl.flag_perfect_plasticity = g.coin(.15);
      hl.linear_hardening_modulus = p.constitutive_laws_parameters.hooke_law_parameters.C1212 * g.logu(.1, 10);
      p.flag_skip_extrapolation = g.coin(.3);
      const bool uniform = g.coin(.8); // uniform stress: whole systems yield at once
      if (uniform)
        {
          c.all_driven = true;
          c.slip_fixed = g.coin(.2);
          c.supply = c.neumann = false;
          c.nc = g.coin(.7) ? 1 : 2;
          c.gb = GB::Microfree;
          if (g.coin(.6)) c.ns = 1;
        }
      const bool dimless = g.coin(.25);
      if (dimless)
        {
          auto &f = p.dimensionless_form_parameters;
          f.flag_solve_dimensionless_problem = true;
          f.characteristic_quantities.length = g.logu(.3, 3);
          f.characteristic_quantities.displacement = f.characteristic_quantities.length * g.logu(.3, 3);
          f.characteristic_quantities.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1111 * g.logu(.3, 3);
          f.characteristic_quantities.slip_resistance = hl.initial_slip_resistance * g.logu(.3, 3);
          f.init(p.constitutive_laws_parameters);
          e0 *= f.characteristic_quantities.length / f.characteristic_quantities.displacement * 0 + 1;
        }
      p.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.n_max_iterations = 60;
      rep.begin("active set " + describe(c, p, dim, dt) + cat(uniform ? " uniform" : "", dimless ? " dimensionless" : "", " extrapolation=", !p.flag_skip_extrapolation, " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        auto         Q = std::make_unique<Problem<dim>>(g, c, p, dt, e0);
        auto        &P = *Q;
        double       load = 0;
        const auto  &slips = P.fe->get_locally_owned_plastic_slip_dofs();
        const auto  &nc = P.fe->get_newton_method_constraints();
        const double Sc = P.dims().S;
        // resistance of the slip unknowns after the last step
        std::vector<double> node(P.ndof(), hl.initial_slip_resistance / Sc);
        // the unknowns of all systems of a crystal at a place
        std::map<types::global_dof_index, std::vector<types::global_dof_index>> mates;
        {
          std::map<std::pair<unsigned, std::array<long, 3>>, std::vector<types::global_dof_index>> at;
          std::map<types::global_dof_index, std::pair<unsigned, std::array<long, 3>>>              of;
          for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
            {
              std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
              cell->get_dof_indices(di);
              for (unsigned i = 0; i < di.size(); ++i)
                {
                  const auto w = P.who(cell->material_id(), i);
                  if (!w.slip) continue;
                  const auto key = std::make_pair(unsigned(cell->material_id()), spot(P.points.at(di[i]), c.L));
                  auto      &v = at[key];
                  v.resize(c.ns, numbers::invalid_dof_index);
                  v[w.index] = di[i];
                  of[di[i]] = key;
                }
            }
          for (auto &o : of) mates[o.first] = at[o.second];
        }
        for (int step = 0; step < 6 && on_time(); ++step)
          {
            load += (step == 0 ? g.uni(.5, 2.) : uniform ? (g.coin(.6) ? g.uni(.2, 1.5) : g.uni(-1., .2)) : g.uni(-.4, .6)) * e0;
            P.set_load(load);
            P.time.set_desired_next_step_size(dt);
            std::string name, text;
            if (!attempt([&] { P.solver->solve_nonlinear_system(step == 0); }, name, text))
              {
                refused(name, text);
                if (name == "abort") Q.release();
                break;
              }
            rep.count("steps");
            const auto x = P.get(P.fe->solution), old = P.get(P.fe->old_solution);
            const auto R = P.reference(x, old, dt);
            std::vector<double> force, weight;
            drive_of(P, x, old, dt, force, weight);
            {
              // the forces the solver decides on, in the state it accepted
              P.solver->assemble_trial_microstress_right_hand_side();
              P.solver->compute_trial_microstress();
              const auto trial = P.get(P.solver->trial_microstress->solution);
              double     top = 0;
              for (auto i : slips) top = std::max(top, std::fabs(force[i]));
              for (auto i : slips)
                if (!nc.is_constrained(i)) rep.close(trial[i], force[i], 1e-8 * (node[i] + top), "driving-force" + kind);
              rep.count("driving-forces", slips.n_elements());
              if (c.ns > 1 && !uniform) rep.count("driving-forces-gradients", slips.n_elements());
            }
            double   s2 = 0, noise = 0;
            unsigned act = 0, inact = 0, wrong = 0;
            for (unsigned i = 0; i < x.size(); ++i)
              {
                const bool slip = slips.is_element(i), a = P.solver->locally_owned_active_set.is_element(i);
                if (nc.is_constrained(i)) { if (slip) rep.check(x[i] == 0, "held-moved" + kind); continue; }
                if (slip)
                  {
                    double latent = 0;
                    if (!hl.flag_perfect_plasticity)
                      for (int b = 0; b < c.ns; ++b)
                        {
                          const auto j = mates[i][b];
                          latent += hl.linear_hardening_modulus / Sc * (j == i ? 1. : hl.hardening_parameter) * std::fabs(x[j] - old[j]);
                        }
                    const double now = P.solver->slip_resistance(i), tiny = 1e-8 * node[i];
                    if (!a)
                      {
                        ++inact;
                        rep.check(x[i] == old[i], "inactive-moved" + kind, [&] { return cat("by ", x[i] - old[i]); });
                        rep.check(std::fabs(force[i]) <= node[i] + latent + tiny, "inactive-overstressed" + kind, [&] { return cat("force ", force[i], " resistance ", node[i], " + ", latent); });
                        rep.check(now >= node[i] - tiny && now <= node[i] + latent + tiny, "resistance-inactive" + kind, [&] { return cat("got ", now, " expected ", node[i], " to ", node[i] + latent); });
                        if (std::fabs(force[i]) > .5 * node[i]) rep.count("inactive-near-yield");
                      }
                    else
                      {
                        ++act;
                        rep.check(std::fabs(force[i]) >= node[i] - tiny, "active-below-yield" + kind, [&] { return cat("force ", force[i], " resistance ", node[i]); });
                        rep.close(now, node[i] + latent, tiny, "resistance-active" + kind);
                        if ((x[i] - old[i]) * force[i] < 0) ++wrong;
                      }
                    node[i] = now;
                    if (!a) continue;
                  }
                s2 += R.r[i] * R.r[i], noise += R.scale[i] * R.scale[i];
              }
            if (act) rep.count("steps-with-active" + kind);
            if (act && inact) rep.count("steps-mixed");
            rep.count("active", act);
            rep.count("inactive", inact);
            rep.count("wrong", wrong);
            const double tol = alg < 7 ? p.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.absolute_tolerance : std::sqrt(2.) * p.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters.absolute_tolerance;
            rep.check(std::sqrt(s2) <= 1.0001 * tol + 1e-11 * std::sqrt(noise), "equilibrium" + kind, [&] { return cat("residual ", std::sqrt(s2), " tolerance ", tol, " step ", step); });
            P.commit(R);
            P.fe->update_solution_vectors();
            P.time.advance_time();
          }
      });
    }
}

// rate dependent: all slips are free
template <int dim> void p20_rate(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g, false);
      const int alg = g.integer(0, 2);
      p.solution_algorithm = RTP::SolutionAlgorithm(alg);
      c.single = p.solution_algorithm == RTP::SolutionAlgorithm::Monolithic;
      rep.begin("rate dependent " + describe(c, p, dim, dt) + cat(" algorithm ", alg, " #", k));
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        auto         Q = std::make_unique<Problem<dim>>(g, c, p, dt, e0);
        auto        &P = *Q;
        P.set_load(e0 * g.uni(.1, 1.));
        P.time.set_desired_next_step_size(dt);
        std::string name, text;
        const bool ok = attempt([&] { P.solver->solve_nonlinear_system(true); }, name, text);
        if (!ok) refused(name, text);
        if (name == "abort") Q.release();
        // with the staggered algorithms it is determined on the way
        if (ok || c.single)
          {
            rep.check(P.solver->locally_owned_active_set == P.fe->get_locally_owned_plastic_slip_dofs(), "rate-dependent-all-active");
            rep.count("rate-dependent");
          }
      });
    }
}

// ---------------------------------------------------------------- P18

// everything the solver keeps at its points: trial values and committed ones
struct Image
{
  std::vector<double> now, kept;
  bool operator==(const Image &o) const { return now == o.now && kept == o.kept; }
};
template <int dim> Image image(Problem<dim> &P)
{
  Image r;
  for (const auto &cell : P.fe->get_triangulation().active_cell_iterators())
    {
      for (auto &d : P.solver->quadrature_point_history.get_data(cell))
        {
          r.now.insert(r.now.end(), d->slip_resistances.begin(), d->slip_resistances.end());
          r.kept.insert(r.kept.end(), d->tmp_slip_resistances.begin(), d->tmp_slip_resistances.end());
        }
      if (!P.cfg.deco) continue;
      for (const auto f : cell->face_indices())
        if (!cell->face(f)->at_boundary() && cell->neighbor(f)->material_id() != cell->material_id())
          for (auto &h : P.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
            {
              r.now.push_back(h->damage_variable);
              r.now.push_back(h->max_effective_opening_displacement);
              r.kept.push_back(h->tmp_scalar_values[0]);
              r.kept.push_back(h->tmp_scalar_values[1]);
            }
    }
  return r;
}
template <int dim> std::vector<double> node_resistance(Problem<dim> &P, bool kept)
{
  std::vector<double> r;
  auto               &v = kept ? P.solver->tmp_slip_resistance : P.solver->slip_resistance;
  for (auto i : P.fe->get_locally_owned_plastic_slip_dofs()) r.push_back(v(i));
  return r;
}

template <int dim> void p18_ops(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0);
      Cfg    c = any_cfg<dim>(g, true);
      c.deco = c.nc > 1 && g.coin(.75);
      rep.begin("operations " + describe(c, p, dim, dt) + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Problem<dim> P(g, c, p, dt, e0);
        P.start(dt);
        using Vec = std::vector<double>;
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        auto         old = P.get(P.fe->old_solution);
        auto         any = [&] { return P.random_state(g, g.logu(.1, 3), g.logu(.1, 3), op * g.logu(.05, 3)); };
        for (int step = 0; step < 3; ++step)
          {
            P.set_load(e0 * g.uni(-1, 1));
            const Image K = image(P);
            const Vec   KN = node_resistance(P, true);
            rep.check(K.now == K.kept, "uncommitted-at-start");
            struct Seen { Vec x, r; Image h; };
            std::vector<Seen> seen;
            for (int o = 0; o < 14; ++o)
              {
                const int what = g.integer(0, 7);
                rep.count("operations");
                if (what <= 1 || seen.empty())
                  {
                    Seen s;
                    s.x = any();
                    s.r = P.evaluate(s.x);
                    s.h = image(P);
                    seen.push_back(s);
                  }
                else if (what <= 3)
                  {
                    const Seen &s = g.pick(seen);
                    const Vec   r = P.evaluate(s.x);
                    rep.check(r == s.r, "residual-depends-on-history", [&] { double m = 0, t = 0; for (unsigned i = 0; i < r.size(); ++i) m = std::max(m, std::fabs(r[i] - s.r[i])), t = std::max(t, std::fabs(r[i])); return cat("difference ", m, " of ", t); });
                    rep.check(image(P).now == s.h.now, "trial-history-depends-on-history");
                    rep.count("re-evaluations");
                  }
                else if (what == 4)
                  {
                    // the matrix, and the residual again, of the same trial state
                    P.evaluate(g.pick(seen).x);
                    P.solver->assemble_jacobian();
                    const Image h = image(P);
                    P.solver->assemble_residual();
                    P.solver->assemble_jacobian();
                    rep.check(image(P) == h, "assembly-changes-history");
                  }
                else if (what == 5)
                  {
                    P.solver->reset_quadrature_point_history();
                    rep.check(image(P).now == K.kept, "reset-not-committed-state");
                    rep.count("resets");
                  }
                else if (what == 6)
                  {
                    // backtracking goes back to the stored trial state, in every block
                    const Vec x = any(), u = P.random_state(g, .3, .3, .1 * op);
                    P.set_trial(x);
                    P.solver->store_trial_solution();
                    auto up = u;
                    for (auto &e : P.prescribed()) up[e.first] = 0;
                    P.solver->newton_update = P.ghosted(up);
                    const unsigned nd = P.fe->get_n_displacement_dofs();
                    const int      b = c.single ? 0 : g.integer(0, 1);
                    auto mine = [&](unsigned i) { return c.single || (b == 0 ? i < nd : i >= nd); };
                    auto same = [&](double lam, const std::string &key) {
                      const Vec y = P.get(P.solver->trial_solution);
                      double    bad = 0;
                      for (unsigned i = 0; i < y.size(); ++i)
                        bad = std::max(bad, std::fabs(y[i] - (x[i] + (mine(i) ? lam * up[i] : 0))) / (std::fabs(x[i]) + std::fabs(up[i]) + 1e-3 * e0));
                      rep.check(bad <= 1e-13, key, [&] { return cat("relative error ", bad, " block ", b); });
                    };
                    const auto bi = static_cast<gCP::BlockIndex>(b);
                    double lam = g.uni(.1, 1.);
                    if (c.single) P.solver->update_trial_solution(lam);
                    else P.solver->update_trial_solution(lam, bi);
                    same(lam, "update-trial");
                    P.solver->reset_trial_solution(false, bi);
                    same(0, "reset-trial");
                    // the line search ends at the stored state plus the step it reports
                    auto &ls = (c.single ? P.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters :
                                b == 0 ? P.prm.staggered_algorithm_parameters.linear_momentum_solver_parameters : P.prm.staggered_algorithm_parameters.pseudo_balance_solver_parameters).line_search_parameters;
                    auto l = std::make_unique<gCP::LineSearch>(ls);
                    P.solver->reset_and_update_internal_variables();
                    P.solver->assemble_residual();
                    const auto norm = [&] { return c.single ? P.fe->get_l2_norm(P.solver->residual) : P.fe->get_sub_l2_norms(P.solver->residual)[b]; };
                    l->reinit(gCP::LineSearch::get_objective_function_value(norm()));
                    if (c.single) P.solver->update_trial_solution(1.);
                    else P.solver->update_trial_solution(1., bi);
                    P.solver->reset_and_update_internal_variables();
                    P.solver->assemble_residual();
                    lam = c.single ? P.solver->line_search_algorithm(l) : P.solver->line_search_algorithm(l, bi);
                    same(lam, "line-search-state");
                    rep.count("line-searches");
                    if (lam < 1) rep.count("backtracked");
                    // what is left behind belongs to that state
                    const Vec   left = P.get(P.solver->residual);
                    const Image h = image(P);
                    const Vec   r = P.evaluate(P.get(P.solver->trial_solution));
                    rep.check(left == r && image(P) == h, "line-search-leftovers");
                  }
                else
                  {
                    Vec x = any();
                    compare_residual(P, x, old, dt, "trial");
                  }
                rep.check(image(P).kept == K.kept, "committed-state-changed");
                rep.check(node_resistance(P, true) == KN, "committed-node-resistance-changed");
              }
            // committing makes the last trial values the committed ones
            const Vec   x = any();
            const auto  R = P.reference(x, old, dt);
            P.evaluate(x);
            const Image N = image(P);
            const Vec   NN = node_resistance(P, false);
            P.solver->store_effective_opening_displacement_in_quadrature_history();
            P.fe->solution = P.solver->trial_solution;
            P.fe->update_solution_vectors();
            P.time.advance_time();
            P.time.set_desired_next_step_size(dt);
            P.solver->prepare_quadrature_point_history();
            P.solver->store_slip_resistances();
            P.solver->reset_internal_newton_method_constraints();
            const Image M = image(P);
            rep.check(M.now == N.now && M.kept == N.now, "commit");
            rep.check(node_resistance(P, true) == NN, "commit-node-resistance");
            P.commit(R);
            old = x;
            rep.count("commits");
          }
      });
    }
}

// the same steps with and without detours
template <int dim> void p18_detour(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g);
      c.single = true;
      rep.begin("detours " + describe(c, p, dim, dt) + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Rng          g2 = g;
        Problem<dim> A(g, c, p, dt, e0), B(g2, c, p, dt, e0);
        const double op = p.constitutive_laws_parameters.cohesive_law_parameters.critical_opening_displacement;
        double       load = 0;
        bool         first = true;
        for (int step = 0; step < 4 && on_time(); ++step)
          {
            load += e0 * g.uni(-.4, 1.);
            A.set_load(load);
            B.set_load(load);
            A.time.set_desired_next_step_size(dt);
            B.time.set_desired_next_step_size(dt);
            std::string name, text;
            if (!attempt([&] { A.solver->solve_nonlinear_system(first); }, name, text)) { refused(name, text); break; }
            // other trial states first; the next step is what commits the last one
            B.solver->prepare_quadrature_point_history();
            B.solver->store_slip_resistances();
            for (int j = g.integer(0, 3); j > 0; --j)
              {
                B.set_trial(B.random_state(g, 1, 1, op * g.logu(.05, 3)));
                B.solver->reset_and_update_internal_variables();
                B.solver->assemble_residual();
                rep.count("other-states");
                B.solver->reset_and_update_slip_resistances();
                B.solver->slip_resistance = B.solver->tmp_slip_resistance;
                B.solver->reset_quadrature_point_history();
              }
            if (g.coin(.6))
              {
                // give up on the way, roll back, and start again
                auto          &np = B.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters;
                const unsigned keep = np.n_max_iterations;
                np.n_max_iterations = g.integer(1, 2);
                const Image before = image(B);
                if (!attempt([&] { B.solver->solve_nonlinear_system(first); }, name, text))
                  {
                    rep.count("abandoned");
                    B.solver->reset_quadrature_point_history();
                    rep.check(image(B).now == before.now, "abandoned-step-leaks");
                    B.solver->reset_and_update_slip_resistances();
                    B.solver->slip_resistance = B.solver->tmp_slip_resistance;
                    np.n_max_iterations = keep;
                    B.solver->solve_nonlinear_system(first);
                  }
                np.n_max_iterations = keep;
              }
            else B.solver->solve_nonlinear_system(first);
            const auto xa = A.get(A.fe->solution), xb = B.get(B.fe->solution);
            double     bad = 0;
            for (unsigned i = 0; i < xa.size(); ++i) bad = std::max(bad, std::fabs(xa[i] - xb[i]));
            rep.check(bad <= 1e-12 * e0 * std::max(1., c.L), "outcome-depends-on-detours", [&] { return cat("difference ", bad); });
            const Image a = image(A), b = image(B);
            double      m = 0;
            for (unsigned i = 0; i < a.now.size(); ++i) m = std::max(m, std::fabs(a.now[i] - b.now[i]) / (std::fabs(a.now[i]) + 1e-3 * op));
            rep.check(m <= 1e-9, "history-depends-on-detours", [&] { return cat("relative difference ", m); });
            rep.count("steps-compared");
            A.fe->update_solution_vectors();
            B.fe->update_solution_vectors();
            A.time.advance_time();
            B.time.advance_time();
            first = false;
          }
      });
    }
}

// ---------------------------------------------------------------- P14

static void p14_numbers(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      RTP::SolverParameters p;
      auto &cl = p.constitutive_laws_parameters;
      auto &f = p.dimensionless_form_parameters;
      auto &q = f.characteristic_quantities;
      cl.vectorial_microstress_law_parameters.initial_slip_resistance = g.logu(1e-3, 1e3);
      cl.vectorial_microstress_law_parameters.energetic_length_scale = g.logu(1e-3, 1e2);
      cl.vectorial_microstress_law_parameters.defect_energy_index = g.coin() ? 2. : g.uni(1., 4.);
      cl.hardening_law_parameters.linear_hardening_modulus = g.logu(1e-3, 1e3);
      cl.hardening_law_parameters.initial_slip_resistance = g.logu(1e-3, 1e3);
      f.flag_solve_dimensionless_problem = g.coin(.85);
      if (f.flag_solve_dimensionless_problem)
        {
          q.length = g.logu(1e-3, 1e3);
          q.displacement = g.logu(1e-6, 1e2);
          q.stiffness = g.logu(1e-3, 1e6);
          q.slip_resistance = g.logu(1e-3, 1e3);
          q.time = g.logu(1e-3, 1e3);
        }
      const double L = q.length, U = q.displacement, C = q.stiffness, S = q.slip_resistance;
      const auto  &v = cl.vectorial_microstress_law_parameters;
      f.init(cl);
      if (g.coin(.3)) f.init(cl);
      rep.begin(cat("numbers L=", L, " U=", U, " C=", C, " S=", S, " S0=", v.initial_slip_resistance, " l=", v.energetic_length_scale, " p=", v.defect_energy_index, f.flag_solve_dimensionless_problem ? "" : " off"));
      rep.nontrivial(rep.current);
      rep.count("number-sets");
      auto eq = [&](double a, double b, const char *key) { rep.close(a, f.flag_solve_dimensionless_problem ? b : 1., 1e-12 * std::fabs(a), key); };
      rep.check(f.dimensionless_numbers.size() == 4, "four-numbers");
      eq(q.strain, U / L, "strain");
      eq(q.stress, C * U / L, "stress");
      eq(q.resolved_shear_stress, C * U / L, "resolved-shear-stress");
      eq(q.macro_traction, C * U / L, "macro-traction");
      eq(q.body_force, C * U / L / L, "body-force");
      eq(q.micro_traction, v.initial_slip_resistance * L * std::pow(v.energetic_length_scale / L, v.defect_energy_index), "micro-traction");
      eq(q.dislocation_density, 1 / L, "dislocation-density");
      eq(f.dimensionless_numbers[0], L / U, "first-number");
      eq(f.dimensionless_numbers[1], cl.hardening_law_parameters.linear_hardening_modulus / S, "second-number");
      eq(f.dimensionless_numbers[2], v.initial_slip_resistance / S * std::pow(v.energetic_length_scale / L, v.defect_energy_index), "third-number");
      eq(f.dimensionless_numbers[3], C * U / L / S, "fourth-number");
      // what was given stays as given
      rep.check(q.length == L && q.displacement == U && q.stiffness == C && q.slip_resistance == S, "inputs-changed");
    }
}

template <int dim> void p14_solve(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g, false);
      if (c.gb == GB::Microtraction) c.gb = g.coin() ? GB::Microfree : GB::Microhard;
      if (g.coin(.4)) c.neumann = !c.all_driven;
      if (g.coin(.4)) c.supply = true;
      auto &vm = p.constitutive_laws_parameters.vectorial_microstress_law_parameters;
      if (g.coin(.4)) vm.defect_energy_index = g.uni(2., 3.);
      const double S = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance;
      c.L = g.coin(.5) ? 1. : g.logu(.1, 10.);
      vm.energetic_length_scale *= c.L;
      auto tol = [&](RTP::SolverParameters &a, double t) {
        for (auto *s : {&a.monolithic_algorithm_parameters.monolithic_system_solver_parameters, &a.staggered_algorithm_parameters.linear_momentum_solver_parameters,
                        &a.staggered_algorithm_parameters.pseudo_balance_solver_parameters})
          s->newton_parameters.absolute_tolerance = t;
      };
      auto   p2 = p;
      Cfg    c2 = c;
      auto  &f = p2.dimensionless_form_parameters;
      auto  &q = f.characteristic_quantities;
      f.flag_solve_dimensionless_problem = true;
      q.length = c.L * g.logu(.2, 5);
      q.displacement = g.coin(.3) ? q.length : g.coin(.5) ? q.length * e0 : q.length * g.logu(.1, 10.);
      q.stiffness = p.constitutive_laws_parameters.hooke_law_parameters.C1212 * g.logu(.3, 3.);
      q.slip_resistance = g.coin(.3) ? S : S * g.logu(.3, 3.);
      // special values of the dimensionless numbers
      const int special = g.integer(0, 5);
      if (special == 0) q.stiffness = q.slip_resistance * q.length / q.displacement;
      if (special == 1) q.slip_resistance = vm.initial_slip_resistance * std::pow(vm.energetic_length_scale / q.length, vm.defect_energy_index);
      f.init(p2.constitutive_laws_parameters);
      c2.L = c.L / q.length;
      c2.force_unit = 1 / q.stress;
      const double scale = std::pow(c.L, dim);
      tol(p, 1e-9 * S * scale);
      tol(p2, 1e-9 * S / q.slip_resistance * std::min(1., 1 / f.dimensionless_numbers[0]) * scale / std::pow(q.length, dim));
      const double to = q.length / q.displacement;
      rep.begin("dimensionless " + describe(c, p, dim, dt) + cat(" L=", c.L, " reference L=", q.length, " U=", q.displacement, " C=", q.stiffness, " S=", q.slip_resistance, " special=", special, " #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        Rng          g2 = g;
        auto         A = std::make_unique<Problem<dim>>(g, c, p, dt, e0), B = std::make_unique<Problem<dim>>(g2, c2, p2, dt, e0 * to);
        double       load = 0;
        const auto  &slips = A->fe->get_locally_owned_plastic_slip_dofs();
        rep.check(A->ndof() == B->ndof(), "same-unknowns");
        for (int step = 0; step < 4 && on_time(); ++step)
          {
            load += e0 * g.uni(-.5, 1.2);
            A->set_load(load);
            B->set_load(load * to);
            A->time.set_desired_next_step_size(dt);
            B->time.set_desired_next_step_size(dt);
            std::string na, nb, text;
            const bool a = attempt([&] { A->solver->solve_nonlinear_system(step == 0); }, na, text);
            const bool b = a && attempt([&] { B->solver->solve_nonlinear_system(step == 0); }, nb, text);
            if (!a || !b)
              {
                refused(a ? nb : na, text);
                rep.count(a ? "refused-second" : "refused-first");
                if (na == "abort") A.release();
                if (nb == "abort") B.release();
                break;
              }
            const auto x = A->get(A->fe->solution), y = B->get(B->fe->solution);
            double     du = 0, ds = 0, su = 0, ss = 0;
            for (unsigned i = 0; i < x.size(); ++i)
              if (slips.is_element(i)) ds = std::max(ds, std::fabs(x[i] - y[i])), ss = std::max(ss, std::fabs(x[i]));
              else du = std::max(du, std::fabs(x[i] - q.displacement * y[i])), su = std::max(su, std::fabs(x[i]));
            rep.check(du <= 1e-6 * e0 * c.L, "displacements", [&] { return cat("difference ", du, " of ", su, " step ", step); });
            rep.check(ds <= 1e-5 * e0, "slips", [&] { return cat("difference ", ds, " of ", ss, " step ", step); });
            const Image a1 = image(*A), b1 = image(*B);
            double      dr = 0;
            for (unsigned i = 0; i < a1.now.size(); ++i) dr = std::max(dr, std::fabs(a1.now[i] - q.slip_resistance * b1.now[i]));
            rep.check(dr <= 1e-5 * S, "slip-resistances", [&] { return cat("difference ", dr, " of ", S, " step ", step); });
            const auto n1 = node_resistance(*A, false), n2 = node_resistance(*B, false);
            double     dn = 0;
            for (unsigned i = 0; i < n1.size(); ++i) dn = std::max(dn, std::fabs(n1[i] - q.slip_resistance * n2[i]));
            rep.check(dn <= 1e-5 * S, "node-resistances", [&] { return cat("difference ", dn, " of ", S, " step ", step); });
            if (ss > .01 * e0) rep.count("steps-with-slip");
            rep.count("steps-compared");
            A->fe->update_solution_vectors();
            B->fe->update_solution_vectors();
            A->time.advance_time();
            B->time.advance_time();
          }
      });
    }
}

// ---------------------------------------------------------------- P19

template <int dim> void p19(Rng &g, unsigned n)
{
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g, false);
      auto  &hl = p.constitutive_laws_parameters.hardening_law_parameters;
      hl.hardening_parameter = std::min(1., hl.hardening_parameter);
      if (g.coin(.8)) c.udeg = c.sdeg = 1;
      if (g.coin(.6)) c.cells = 2;
      const double S = hl.initial_slip_resistance;
      rep.begin("algorithms " + describe(c, p, dim, dt) + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        const Rng                             start = g;
        std::vector<std::vector<std::vector<double>>> all; // solutions of every variant and step
        std::vector<std::string>              names;
        std::vector<int>                      which;
        std::vector<double>                   loads;
        for (int s = 0; s < 3; ++s) loads.push_back((s ? loads.back() : 0.) + e0 * g.uni(-.5, 1.2));
        const int staggered = g.coin(.6) ? 1 : 2;
        for (int v : {0, staggered, 3, 4})
          {
            auto p2 = p;
            Cfg  c2 = c;
            const int alg = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : 0;
            p2.solution_algorithm = alg == 0 ? RTP::SolutionAlgorithm::Monolithic : alg == 1 ? RTP::SolutionAlgorithm::Bouncing : RTP::SolutionAlgorithm::Embracing;
            c2.single = alg == 0;
            p2.flag_skip_extrapolation = v == 0 ? true : g.coin();
            p2.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop = g.coin();
            p2.staggered_algorithm_parameters.max_n_solution_loops = 120;
            std::string name = alg == 0 ? "monolithic" : alg == 1 ? "bouncing" : "embracing";
            for (auto *s : {&p2.monolithic_algorithm_parameters.monolithic_system_solver_parameters, &p2.staggered_algorithm_parameters.linear_momentum_solver_parameters,
                            &p2.staggered_algorithm_parameters.pseudo_balance_solver_parameters})
              {
                s->newton_parameters.absolute_tolerance = (alg ? 1e-8 : 1e-9) * S;
                s->newton_parameters.n_max_iterations = alg == 2 ? 80 : alg ? 150 : 60;
                s->newton_parameters.flag_line_search = v == 0 ? false : g.coin();
                s->krylov_parameters.solver_type = v == 0 ? RTP::SolverType::DirectSolver : v == 3 ? RTP::SolverType::CG : v == 4 ? RTP::SolverType::GMRES : RTP::SolverType(g.integer(0, 2));
              }
            auto &m = p2.monolithic_algorithm_parameters.monolithic_system_solver_parameters;
            auto &lm = p2.staggered_algorithm_parameters.linear_momentum_solver_parameters, &pb = p2.staggered_algorithm_parameters.pseudo_balance_solver_parameters;
            name += alg ? cat(" solvers ", int(lm.krylov_parameters.solver_type), int(pb.krylov_parameters.solver_type), " line search ", lm.newton_parameters.flag_line_search, pb.newton_parameters.flag_line_search,
                              " reset ", p2.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop) :
                          cat(" solver ", int(m.krylov_parameters.solver_type), " line search ", m.newton_parameters.flag_line_search);
            name += cat(" extrapolation ", !p2.flag_skip_extrapolation);
            names.push_back(name);
            all.push_back({});
            which.push_back(v);
            Rng   g2 = start;
            auto  Q = std::make_unique<Problem<dim>>(g2, c2, p2, dt, e0);
            auto &P = *Q;
            for (unsigned s = 0; s < (v == 2 ? 2 : loads.size()); ++s)
              {
                P.set_load(loads[s]);
                P.time.set_desired_next_step_size(dt);
                std::string what, text;
                if (!attempt([&] { P.solver->solve_nonlinear_system(s == 0); }, what, text))
                  {
                    
                    refused(what, text);
                    rep.count("refused-variant-" + std::to_string(v));
                    if (what == "abort") Q.release();
                    break;
                  }
                // by place: the numbering differs with the block structure
                const auto                       x = P.get(P.fe->solution);
                std::map<std::array<long, 6>, double> val;
                for (const auto &cell : P.fe->get_dof_handler().active_cell_iterators())
                  {
                    std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
                    cell->get_dof_indices(di);
                    for (unsigned i = 0; i < di.size(); ++i)
                      {
                        const auto w = P.who(cell->material_id(), i);
                        const auto a = spot(P.points.at(di[i]), c.L);
                        val[{w.slip, w.slip ? long(w.crystal) : 0L, long(w.index), a[0], a[1], a[2]}] = x[di[i]];
                      }
                  }
                std::vector<double> y;
                for (auto &e : val) y.push_back(e.second);
                all.back().push_back(y);
                P.fe->update_solution_vectors();
                P.time.advance_time();
              }
            if (v == 0 && all[0].empty()) break;
          }
        for (unsigned v = 1; v < all.size(); ++v)
          for (unsigned s = 0; s < std::min(all[0].size(), all[v].size()); ++s)
            {
              double d = 0, m = 0;
              rep.check(all[0][s].size() == all[v][s].size(), "same-unknowns");
              for (unsigned i = 0; i < all[0][s].size(); ++i) d = std::max(d, std::fabs(all[0][s][i] - all[v][s][i])), m = std::max(m, std::fabs(all[0][s][i]));
              rep.check(d <= (which[v] < 3 ? 2e-4 : 1e-5) * e0, "other-solution:" + names[v].substr(0, names[v].find(' ')), [&] { return cat("difference ", d, " of ", m, " step ", s, " with ", names[v]); });
              rep.count("steps-compared-" + std::to_string(which[v]));
            }
      });
    }
}

// ---------------------------------------------------------------- P27

// every system the Newton loops solve, whichever way, is solved
template <int dim> void p27(Rng &g, unsigned n)
{
  using TV = LinearAlgebraTrilinos::MPI::Vector;
  for (unsigned k = 0; k < n; ++k)
    {
      double dt, e0;
      auto   p = any_parameters(g, dt, e0, true);
      Cfg    c = solvable_cfg<dim>(g);
      c.single = g.coin(.4);
      if (!c.single) c.deco = false;
      p.solution_algorithm = c.single ? RTP::SolutionAlgorithm::Monolithic : g.coin() ? RTP::SolutionAlgorithm::Bouncing : RTP::SolutionAlgorithm::Embracing;
      auto &mono = p.monolithic_algorithm_parameters.monolithic_system_solver_parameters.krylov_parameters,
           &lin = p.staggered_algorithm_parameters.linear_momentum_solver_parameters.krylov_parameters,
           &pse = p.staggered_algorithm_parameters.pseudo_balance_solver_parameters.krylov_parameters;
      const double S = p.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance;
      const bool starve = g.coin(.2); // solved or refused, never in between
      for (auto *q : {&mono, &lin, &pse})
        {
          q->relative_tolerance = g.logu(1e-12, 1e-8);
          q->absolute_tolerance = 1e-16 * S;
          q->n_max_iterations = starve ? g.integer(1, 12) : 4000;
        }
      rep.begin("linear systems " + describe(c, p, dim, dt) + cat(" #", k));
      rep.sample(rep.current);
      rep.nontrivial(rep.current);
      guarded("exception", [&] {
        auto  Q = std::make_unique<Problem<dim>>(g, c, p, dt, e0);
        auto &P = *Q;
        P.start(dt);
        P.set_load(e0);
        auto &s = *P.solver;
        auto &sm = P.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters.krylov_parameters,
             &sl = P.prm.staggered_algorithm_parameters.linear_momentum_solver_parameters.krylov_parameters,
             &sp = P.prm.staggered_algorithm_parameters.pseudo_balance_solver_parameters.krylov_parameters;
        for (int round = 0; round < 3; ++round)
          {
            P.set_trial(P.random_state(g));
            s.reset_and_update_internal_variables();
            s.reset_internal_newton_method_constraints();
            // slips held by an active set
            if (g.coin(.5))
              {
                AffineConstraints<double> more(P.fe->get_locally_relevant_dofs());
                const double share = g.unit();
                for (const auto i : P.fe->get_locally_owned_plastic_slip_dofs())
                  if (g.coin(share)) more.add_line(i);
                more.close();
                s.internal_newton_method_constraints.merge(more, AffineConstraints<double>::left_object_wins);
                s.internal_newton_method_constraints.close();
                rep.count("with-held-slips");
              }
            s.assemble_linear_system();
            const auto &J = s.jacobian;
            const auto &r = s.residual;
            const auto &held = s.internal_newton_method_constraints;
            auto refuse = [&](const std::string &what, const std::string &text) {
              refused(what, text);
              rep.count(starve ? "unsolved-starved" : "unsolved");
              rep.check(starve, "gave-up", [&] { return what + " " + text; });
              if (what == "abort") Q.release(); // left in the middle
            };
            // rows of one block: what the update leaves of the right-hand side
            auto judge = [&](const TV &got, const TV &want, const std::vector<double> &size, unsigned first, double tol, const std::string &key) {
              double d2 = 0, w2 = 0, s2 = 0;
              for (unsigned i = 0; i < want.size(); ++i)
                if (!held.is_constrained(first + i)) d2 += std::pow(got(i) - want(i), 2), w2 += want(i) * want(i), s2 += size[i] * size[i];
              const double limit = 30 * tol + 1e-8 * std::sqrt(w2) + 1e-11 * std::sqrt(s2);
              rep.count("solved:" + key);
              rep.check(std::sqrt(d2) <= limit, "not-solved:" + key, [&] { return cat("left ", std::sqrt(d2), " of ", std::sqrt(w2), " limit ", limit); });
            };
            auto absolute = [](const auto &A, const TV &x, std::vector<double> &y) {
              y.resize(A.m(), 0.);
              for (auto it = A.begin(); it != A.end(); ++it) y[it->row()] += std::fabs(it->value() * x(it->column()));
            };
            auto zeros = [&](const TV &x, unsigned first, const std::string &key) {
              for (unsigned i = 0; i < x.size(); ++i)
                if (held.is_constrained(first + i)) rep.check(x(i) == 0., "moved-a-constrained-unknown:" + key, [&] { return cat(first + i, " by ", x(i)); });
            };
            const unsigned nu = c.single ? 0 : r.block(0).size();
            for (int kind = 0, shift = g.integer(0, 2); kind < 3; ++kind)
              {
                const int type = (kind + shift) % 3;
                sm.solver_type = sl.solver_type = sp.solver_type = RTP::SolverType(type);
                const bool cg = RTP::SolverType(type) == RTP::SolverType::CG;
                if (cg && c.deco) continue; // not symmetric
                std::string what, text;
                if (c.single)
                  {
                    // started from the update of the last iteration
                    if (g.coin()) s.newton_update = 0.;
                    if (!attempt([&] { s.solve_linearized_system(); }, what, text)) { refuse(what, text); return; }
                    const TV x(s.newton_update.block(0));
                    TV y(r.block(0));
                    J.block(0, 0).vmult(y, x);
                    std::vector<double> a;
                    absolute(J.block(0, 0), x, a);
                    judge(y, r.block(0), a, 0, std::max(sm.relative_tolerance * r.block(0).l2_norm(), sm.absolute_tolerance), cat("monolithic ", type));
                    zeros(x, 0, "monolithic");
                    continue;
                  }
                for (int b = 0; b < 2; ++b)
                  {
                    if (!attempt([&] { s.solve_decoupled_linearized_subsystem(b ? gCP::BlockIndex::Micro : gCP::BlockIndex::Macro); }, what, text)) { refuse(what, text); return; }
                    const TV x(s.newton_update.block(b));
                    TV y(r.block(b));
                    J.block(b, b).vmult(y, x);
                    std::vector<double> a;
                    absolute(J.block(b, b), x, a);
                    const auto &kp = b ? sp : sl;
                    judge(y, r.block(b), a, b ? nu : 0, std::max(kp.relative_tolerance * r.block(b).l2_norm(), kp.absolute_tolerance), cat(b ? "slips " : "displacements ", type));
                    zeros(x, b ? nu : 0, "staggered");
                    rep.check(s.newton_update.block(1 - b).l2_norm() == 0., "other-block-moved", [&] { return cat(s.newton_update.block(1 - b).l2_norm()); });
                  }
              }
            if (c.single) continue;
            // displacements with the slips following in equilibrium
            std::string what, text;
            if (!attempt([&] { s.solve_reduced_linearized_system(); }, what, text)) { refuse(what, text); return; }
            const TV x(s.newton_update.block(0));
            TV       y(r.block(0)), z(r.block(0)), m(r.block(1)), v(r.block(1));
            J.block(1, 0).vmult(m, x);
            SolverControl                  control(1, 0.);
            TrilinosWrappers::SolverDirect direct(control);
            v = 0.;
            direct.solve(J.block(1, 1), v, m);
            J.block(0, 0).vmult(y, x);
            J.block(0, 1).vmult(z, v);
            y -= z;
            std::vector<double> a;
            absolute(J.block(0, 0), x, a);
            absolute(J.block(0, 1), v, a);
            judge(y, r.block(0), a, 0,
                  std::max(sl.relative_tolerance * r.block(0).l2_norm(), sl.absolute_tolerance) + 10 * std::max(sp.relative_tolerance * r.block(1).l2_norm(), sp.absolute_tolerance), "reduced");
            zeros(x, 0, "reduced");
            rep.check(s.newton_update.block(1).l2_norm() == 0., "other-block-moved", [&] { return cat(s.newton_update.block(1).l2_norm()); });
          }
      });
    }
}

#include "fem_post.h"

static bool more(const std::string &p, Rng &g)
{
  if (p == "P21") { p21_fields<2>(g, tier.n(70)); p21_fields<3>(g, tier.n(14)); p21_averages<2>(g, tier.n(60)); p21_averages<3>(g, tier.n(14)); return true; }
  if (p == "P27") { p27<2>(g, tier.n(40)); p27<3>(g, tier.n(8)); return true; }
  if (p == "P22") { p22<2>(g, tier.n(90)); p22<3>(g, tier.n(25)); return true; }
  if (p == "P20") { p20<2>(g, tier.n(34)); p20<3>(g, tier.n(1)); p20_rate<2>(g, tier.n(3)); }
  else if (p == "P14") { p14_numbers(g, tier.n(300)); p14_solve<2>(g, tier.n(14)); p14_solve<3>(g, tier.n(1)); }
  else if (p == "P19") { p19<2>(g, tier.n(4)); p19<3>(g, tier.n(1)); }
  else if (p == "P18")
    {
      if (tier.seed % 2) MultithreadInfo::set_thread_limit(4);
      p18_ops<2>(g, tier.n(28)); p18_ops<3>(g, tier.n(2)); p18_detour<2>(g, tier.n(7));
    }
  else return false;
  return true;
}
