// A randomly configured problem on the real solver, and an independent
// evaluation of its weak form.
#pragma once
#include "crystals.h"

#include <gCP/fe_field.h>
#include <gCP/gradient_crystal_plasticity.h>

#include <deal.II/base/discrete_time.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/timer.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/grid_tools.h>

using GB = RTP::BoundaryConditionsAtGrainBoundaries;
using TrilinosBlock = LinearAlgebraTrilinos::MPI::BlockVector;

static unsigned my_rank() { return Utilities::MPI::this_mpi_process(MPI_COMM_WORLD); }
static unsigned n_ranks() { return Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD); }

template <int dim> void load_ranked(Rng &g, Crystals<dim> &c, const Triangulation<dim> &tria)
{
  const std::string s = std::to_string(my_rank());
  write_rows(g, "eu" + s, c.euler);
  write_rows(g, "dir" + s, c.dirs);
  write_rows(g, "nor" + s, c.normals);
  c.data = std::make_shared<gCP::CrystalsData<dim>>();
  c.data->init(tria, "eu" + s, "dir" + s, "nor" + s);
}

// what a problem is made of
struct Cfg
{
  int    udeg = 1, sdeg = 1, nc = 2, ns = 2;
  bool   deco = false, single = true;
  int    cells = 3;          // per direction
  double distort = 0;        // of the mesh
  bool   patches = false;    // random patches instead of layers
  int    refine = 0;
  GB     gb = GB::Microfree;
  bool   slip_fixed = false; // slips held at the driven boundaries
  bool   all_driven = false; // displacements prescribed on the whole boundary
  bool   supply = false, neumann = false, macro = false;
  bool   coincident = false; // two slip systems as similar as possible
  double L = 1;              // size of the body
  double force_unit = 1;     // of body forces and tractions
};

template <int dim> struct AnyField : public TensorFunction<1, dim>
{
  Tensor<1, dim> a;
  Tensor<2, dim> b;
  Tensor<1, dim> value(const Point<dim> &p) const override
  {
    Tensor<1, dim> r = a * (1 + this->get_time());
    return r + b * Tensor<1, dim>(p);
  }
};

template <int dim> struct Problem
{
  using Solver = gCP::GradientCrystalPlasticitySolver<dim>;
  using Cell = typename DoFHandler<dim>::active_cell_iterator;

  Cfg                                        cfg;
  RTP::SolverParameters                      prm;
  using Mesh = parallel::distributed::Triangulation<dim>;
  std::unique_ptr<Mesh>                      own_tria;
  Mesh                                      &tria;
  Crystals<dim>                              c;
  std::shared_ptr<Mapping<dim>>              mapping;
  std::shared_ptr<gCP::FEField<dim>>         fe;
  std::unique_ptr<DiscreteTime>              own_time;
  DiscreteTime                              &time;
  std::shared_ptr<ConditionalOStream>        pcout;
  std::shared_ptr<TimerOutput>               timer;
  std::shared_ptr<Solver>                    solver;
  std::shared_ptr<AnyField<dim>>             supply, neumann;
  SymmetricTensor<2, dim>                    macro;
  Tensor<2, dim>                             drive;   // prescribed gradient per unit load
  std::map<types::global_dof_index, Point<dim>> points;
  double                                     strain0 = 1e-3; // natural scale of strains
  double                                     load_factor = 0;
  std::vector<long>                          fold; // if not empty: the row of each unknown, or -1

  unsigned ndof() const { return fe->n_dofs(); }

  // partition of unity in crystals of a coarse cell
  std::vector<unsigned> ids;

  Problem(Rng &g, const Cfg &cf, const RTP::SolverParameters &p, double dt, double e0,
          const Crystals<dim> *given = nullptr)
    : cfg(cf), prm(p), own_tria(std::make_unique<Mesh>(MPI_COMM_WORLD)), tria(*own_tria),
      own_time(std::make_unique<DiscreteTime>(0., 1e3 * dt, dt)), time(*own_time), strain0(e0)
  {
    const double          L = cfg.L;
    std::vector<unsigned> reps(dim, cfg.cells);
    if (dim == 3) reps[0] = std::max(1, cfg.cells - 1);
    if (!cfg.patches) reps[1] = std::max<unsigned>(cfg.cells, cfg.nc);
    Point<dim> b;
    for (int i = 0; i < dim; ++i) b[i] = L;
    GridGenerator::subdivided_hyper_rectangle(tria, reps, Point<dim>(), b, true);
    const unsigned n = tria.n_active_cells();
    ids.resize(n);
    {
      // every crystal is there
      bool ok = false;
      while (!ok)
        {
          std::vector<bool> seen(cfg.nc, false);
          for (const auto &cell : tria.active_cell_iterators())
            {
              const unsigned k = cell->active_cell_index();
              ids[k] = cfg.patches ? g.integer(0, cfg.nc - 1) :
                                     std::min<unsigned>(cfg.nc - 1, cell->center()[1] / L * cfg.nc + 1e-9);
              seen[ids[k]] = true;
            }
          ok = std::all_of(seen.begin(), seen.end(), [](bool x) { return x; });
        }
    }
    for (const auto &cell : tria.active_cell_iterators()) cell->set_material_id(ids[cell->active_cell_index()]);
    if (cfg.distort > 0)
      {
        double ph[3] = {g.uni(0, 6), g.uni(0, 6), g.uni(0, 6)};
        GridTools::transform(
          [&](const Point<dim> &x) {
            Point<dim> y = x;
            for (int i = 0; i < dim; ++i)
              y[i] += cfg.distort * L * std::sin(2.1 * x[(i + 1) % dim] / L + ph[i]) * std::cos(1.3 * x[i] / L + ph[(i + 1) % dim]);
            return y;
          },
          tria);
      }
    if (cfg.refine) tria.refine_global(cfg.refine);
    if (given) c = *given;
    else c = make_crystals<dim>(g, cfg.nc, cfg.ns);
    load_ranked(g, c, tria);

    mapping = std::make_shared<MappingQ<dim>>(1);
    fe = std::make_shared<gCP::FEField<dim>>(tria, cfg.udeg, cfg.sdeg, cfg.deco, cfg.single);
    fe->setup_extractors(cfg.nc, cfg.ns);
    fe->update_ghost_material_ids();
    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      if (cell->is_locally_owned()) cell->set_active_fe_index(cell->material_id());
    fe->setup_dofs();
    hp::MappingCollection<dim> mc(*mapping);
    DoFTools::map_dofs_to_support_points(mc, fe->get_dof_handler(), points);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) drive[i][j] = g.uni(-1, 1);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) macro[std::min(i, j)][std::max(i, j)] = strain0 * g.uni(-1, 1);
    constrain(true);
    fe->setup_vectors();

    prm.logger_output_directory = "./r" + std::to_string(my_rank()) + "_";
    prm.allow_decohesion = cfg.deco;
    prm.boundary_conditions_at_grain_boundaries = cfg.gb;
    prm.verbose = false;
    pcout = std::make_shared<ConditionalOStream>(std::cout, false);
    timer = std::make_shared<TimerOutput>(*pcout, TimerOutput::never, TimerOutput::wall_times);
    solver = std::make_shared<Solver>(prm, time, fe, c.data, mapping, pcout, timer);
    if (cfg.macro) solver->set_macroscopic_strain(macro);
    if (cfg.supply)
      {
        supply = std::make_shared<AnyField<dim>>();
        fill(g, *supply, cfg.force_unit * force_scale());
        solver->set_supply_term(supply);
      }
    if (cfg.neumann)
      {
        neumann = std::make_shared<AnyField<dim>>();
        fill(g, *neumann, cfg.force_unit * prm.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance);
        solver->set_neumann_boundary_condition(1, neumann);
      }
    solver->init();
    init_model();
  }
  // looks at a problem set up by somebody else
  Problem(const Cfg &cf, const RTP::SolverParameters &p, Mesh &t, DiscreteTime &ti, double e0)
    : cfg(cf), prm(p), tria(t), time(ti), strain0(e0)
  {}
  virtual ~Problem() = default;
  double force_scale() const { return prm.constitutive_laws_parameters.hardening_law_parameters.initial_slip_resistance / cfg.L; }
  void   fill(Rng &g, AnyField<dim> &f, double s)
  {
    for (int i = 0; i < dim; ++i)
      {
        f.a[i] = s * g.uni(-1, 1);
        for (int j = 0; j < dim; ++j) f.b[i][j] = s / cfg.L * g.uni(-1, 1);
      }
  }

  // ------------------------------------------------------------ who is who
  struct Who
  {
    bool     slip;
    unsigned crystal, index; // crystal, displacement direction or slip system
  };
  Who who(unsigned crystal, unsigned i) const
  {
    const unsigned comp = fe->get_fe_collection()[crystal].system_to_component_index(i).first;
    const unsigned nu = cfg.deco ? dim * cfg.nc : dim;
    if (comp < nu) return {false, crystal, comp % dim};
    return {true, (comp - nu) / cfg.ns, (comp - nu) % cfg.ns};
  }

  // own constraints: prescribed displacements and held slips
  virtual std::map<types::global_dof_index, double> prescribed() const
  {
    std::map<types::global_dof_index, double> r;
    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      if (!cell->is_artificial())
        {
          const auto                          &f = cell->get_fe();
          std::vector<types::global_dof_index> di(f.n_dofs_per_cell());
          cell->get_dof_indices(di);
          for (const auto fi : cell->face_indices())
            {
              const bool ext = cell->face(fi)->at_boundary();
              const int  b = ext ? int(cell->face(fi)->boundary_id()) : -1;
              const bool gbf = !ext && cell->neighbor(fi)->material_id() != cell->material_id();
              for (unsigned i = 0; i < di.size(); ++i)
                {
                  if (!f.has_support_on_face(i, fi)) continue;
                  const Who w = who(cell->material_id(), i);
                  if (!w.slip && (b == 2 || b == 3 || (ext && cfg.all_driven)))
                    {
                      Tensor<1, dim> X(points.at(di[i]));
                      r[di[i]] = cfg.all_driven ? load_factor * (drive * X)[w.index] :
                                 b == 2         ? 0. :
                                                  load_factor * cfg.L * drive[w.index][1];
                    }
                  if (w.slip && ((b == 2 || b == 3) ? cfg.slip_fixed : (gbf && cfg.gb == GB::Microhard)))
                    r[di[i]] = 0.;
                }
            }
        }
    return r;
  }
  void constrain(bool newton_too)
  {
    AffineConstraints<double> a(fe->get_locally_relevant_dofs()), n(fe->get_locally_relevant_dofs());
    for (auto &e : prescribed())
      {
        if (!fe->get_locally_relevant_dofs().is_element(e.first)) continue;
        a.add_line(e.first);
        a.set_inhomogeneity(e.first, e.second);
        n.add_line(e.first);
      }
    a.close();
    n.close();
    fe->set_affine_constraints(a);
    if (newton_too) fe->set_newton_method_constraints(n);
  }
  void set_load(double f)
  {
    load_factor = f;
    constrain(false);
  }

  // ------------------------------------------------------------ vectors
  using Vec = std::vector<double>;
  Vec get(const TrilinosBlock &v) const
  {
    Vec r(ndof());
    for (unsigned i = 0; i < ndof(); ++i) r[i] = v(i);
    return r;
  }
  TrilinosBlock ghosted(const Vec &x) const
  {
    TrilinosBlock d = fe->get_distributed_vector_instance(fe->solution), r;
    for (unsigned i = 0; i < ndof(); ++i) d(i) = x[i];
    d.compress(VectorOperation::insert);
    r.reinit(fe->solution);
    r = d;
    return r;
  }
  void set_trial(const Vec &x) { solver->trial_solution = ghosted(x); }

  // a random state that meets the constraints; displacements of the order of
  // strain0 * L, slips of the order of strain0
  Vec random_state(Rng &g, double su = 1, double ss = 1, double opening = 0)
  {
    Vec  x(ndof(), 0.);
    Tensor<2, dim> F;
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) F[i][j] = su * strain0 * g.uni(-1, 1);
    std::vector<Tensor<1, dim>> shift(cfg.nc);
    for (auto &s : shift) s = any_vec<dim>(g, opening);
    std::map<types::global_dof_index, bool> done;
    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      {
        std::vector<types::global_dof_index> di(cell->get_fe().n_dofs_per_cell());
        cell->get_dof_indices(di);
        for (unsigned i = 0; i < di.size(); ++i)
          {
            if (done[di[i]]) continue;
            done[di[i]] = true;
            const Who      w = who(cell->material_id(), i);
            Tensor<1, dim> X(points.at(di[i]));
            if (w.slip) x[di[i]] = ss * strain0 * g.uni(-1, 1);
            else
              x[di[i]] = (F * X)[w.index] + 0.1 * su * strain0 * cfg.L / cfg.cells * g.uni(-1, 1) +
                         (cfg.deco ? shift[cell->material_id()][w.index] * (1 + 0.2 * g.uni(-1, 1)) : 0.);
          }
      }
    for (auto &e : prescribed()) x[e.first] = e.second;
    return x;
  }

  // ------------------------------------------------------------ own history
  struct Gb
  {
    double d = 0, mx = 0, old = 0;
  };
  std::vector<std::vector<Vec>>          resist; // committed [cell][q][slip]
  std::map<std::pair<unsigned, unsigned>, Gb> gbh; // committed, by face and point
  void init_model()
  {
    const auto  &h = prm.constitutive_laws_parameters.hardening_law_parameters;
    const double s = prm.dimensionless_form_parameters.flag_solve_dimensionless_problem ?
                       prm.dimensionless_form_parameters.characteristic_quantities.slip_resistance : 1.;
    resist.assign(tria.n_active_cells(), std::vector<Vec>(dim == 2 ? 9 : 27, Vec(cfg.ns, h.initial_slip_resistance / s)));
    gbh.clear();
  }

  struct Ref
  {
    Vec                                         r, scale; // residual, sum of absolute contributions
    std::vector<std::vector<Vec>>               resist;   // trial values
    std::map<std::pair<unsigned, unsigned>, Gb> gbh;
    double                                      power = 0;
    // quadrature data of cells for other monitors
    std::vector<std::vector<SymmetricTensor<2, dim>>> stress, strain, estrain;
    std::vector<std::vector<double>>                  JxW;
    std::vector<Vec>                                  tau;   // unused per slip
    double                                            min_rate = 1e300, min_open = 1e300;
  };

  double eff(const Tensor<1, dim> &o, const Tensor<1, dim> &N) const
  {
    const double be = prm.constitutive_laws_parameters.cohesive_law_parameters.tangential_to_normal_stiffness_ratio;
    const double on = std::max(0., o * N);
    return std::sqrt(on * on + be * be * (o - (o * N) * N).norm_square());
  }

  SymmetricTensor<2, dim> hooke(unsigned k, const SymmetricTensor<2, dim> &e, double cs) const
  {
    const auto &p = prm.constitutive_laws_parameters.hooke_law_parameters;
    Tensor<2, 3> E;
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) E[i][j] = e[i][j];
    const Tensor<2, 3> R = c.R3[k], e0 = transpose(R) * E * R;
    Tensor<2, 3>       s0;
    for (int i = 0; i < 3; ++i)
      {
        for (int j = 0; j < 3; ++j)
          s0[i][j] = i == j ? (p.C1111 * e0[i][i] + p.C1122 * (e0[(i + 1) % 3][(i + 1) % 3] + e0[(i + 2) % 3][(i + 2) % 3])) : 2 * p.C1212 * e0[i][j];
      }
    const Tensor<2, 3>      s = R * s0 * transpose(R);
    SymmetricTensor<2, dim> r;
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j) r[i][j] = 0.5 * (s[i][j] + s[j][i]) / cs;
    return r;
  }

  // boundary Burgers tensor of a unit slip
  Tensor<2, 3> burgers(unsigned k, unsigned s, const Tensor<1, dim> &N) const
  {
    Tensor<1, 3> m, n, NN;
    for (int i = 0; i < dim; ++i) m[i] = c.m[k][s][i], n[i] = c.n[k][s][i], NN[i] = N[i];
    return outer_product(m, cross_product_3d(n, NN));
  }

  // the four dimensionless numbers and the reference values from their definitions
  struct Dim
  {
    double n0 = 1, n2 = 1, n3 = 1, C = 1, S = 1;
    bool   on = false;
  };
  Dim dims() const
  {
    Dim d;
    const auto &f = prm.dimensionless_form_parameters;
    d.on = f.flag_solve_dimensionless_problem;
    if (!d.on) return d;
    const auto &q = f.characteristic_quantities;
    const auto &v = prm.constitutive_laws_parameters.vectorial_microstress_law_parameters;
    d.n0 = q.length / q.displacement;
    d.n2 = v.initial_slip_resistance / q.slip_resistance * std::pow(v.energetic_length_scale / q.length, v.defect_energy_index);
    d.n3 = q.stiffness * q.displacement / q.length / q.slip_resistance;
    d.C = q.stiffness;
    d.S = q.slip_resistance;
    return d;
  }

  // the weak form at x, from the solution of the last step and the own history
  Ref reference(const Vec &x, const Vec &old, double dt)
  {
    const auto &cl = prm.constitutive_laws_parameters;
    const auto &sm = cl.scalar_microstress_law_parameters;
    const auto &vm = cl.vectorial_microstress_law_parameters;
    const auto &hl = cl.hardening_law_parameters;
    const auto &co = cl.cohesive_law_parameters;
    const auto &de = cl.damage_evolution_parameters;
    const double De = cl.degradation_function_parameters.degradation_exponent;
    const Dim   D = dims();
    const double P = vm.defect_energy_index, F = D.on ? 1.0 : vm.initial_slip_resistance * std::pow(vm.energetic_length_scale, P);
    auto         pw = [&](double v, double e) { return v == 0 ? (e == 0 ? 1. : 0.) : std::pow(std::fabs(v), e); };
    auto         mac = [](double v) { return v > 0 ? v : 0.; };
    const auto  &newton = fe->get_newton_method_constraints();

    Ref R;
    R.r.assign(ndof(), 0.);
    R.scale.assign(ndof(), 0.);
    R.resist = resist;
    R.gbh = gbh;
    R.stress.resize(tria.n_active_cells());
    R.strain.resize(tria.n_active_cells());
    R.estrain.resize(tria.n_active_cells());
    R.JxW.resize(tria.n_active_cells());
    // the row an unknown counts for: by the constraints, or as told
    auto add_scale = [&](types::global_dof_index i, double v) {
      if (!fold.empty()) { if (fold[i] >= 0) R.scale[fold[i]] += v; }
      else if (!newton.is_constrained(i)) R.scale[i] += v;
    };
    auto add = [&](types::global_dof_index i, double v) {
      if (!fold.empty())
        {
          if (fold[i] >= 0) R.r[fold[i]] += v, R.scale[fold[i]] += std::fabs(v);
          return;
        }
      if (!newton.is_constrained(i)) { R.r[i] += v; R.scale[i] += std::fabs(v); return; }
      if (auto *e = newton.get_constraint_entries(i))
        for (auto &z : *e) R.r[z.first] += z.second * v, R.scale[z.first] += std::fabs(z.second * v);
    };

    // trial damage first: both sides of a boundary see one value
    const QGauss<dim>     q(3);
    const QGauss<dim - 1> qf(3);
    struct Side
    {
      Cell           cell;
      unsigned       face;
    };
    std::vector<std::pair<Side, Side>> gbs;
    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      for (const auto f : cell->face_indices())
        if (!cell->face(f)->at_boundary() && cell->neighbor(f)->material_id() != cell->material_id())
          gbs.push_back({Side{cell, f}, Side{cell->neighbor(f), cell->neighbor_of_neighbor(f)}});

    auto sample = [&](const Side &s, FEFaceValues<dim> &fv, const Vec &y, std::vector<Tensor<1, dim>> &u,
                      std::vector<Vec> &sl) {
      std::vector<types::global_dof_index> di(s.cell->get_fe().n_dofs_per_cell());
      s.cell->get_dof_indices(di);
      u.assign(qf.size(), Tensor<1, dim>());
      sl.assign(cfg.ns, Vec(qf.size(), 0.));
      for (unsigned i = 0; i < di.size(); ++i)
        {
          const Who w = who(s.cell->material_id(), i);
          for (unsigned p = 0; p < qf.size(); ++p)
            {
              const double v = fv.shape_value(i, p) * y[di[i]];
              if (w.slip) sl[w.index][p] += v;
              else u[p][w.index] += v;
            }
        }
    };

    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      {
        const unsigned  k = cell->material_id(), ci = cell->active_cell_index();
        const auto     &f = cell->get_fe();
        FEValues<dim>   fv(*mapping, f, q, update_values | update_gradients | update_JxW_values | update_quadrature_points);
        fv.reinit(typename Triangulation<dim>::cell_iterator(cell));
        std::vector<types::global_dof_index> di(f.n_dofs_per_cell());
        cell->get_dof_indices(di);
        for (unsigned p = 0; p < q.size(); ++p)
          {
            Tensor<2, dim> G;
            Vec            s(cfg.ns, 0.), so(cfg.ns, 0.);
            std::vector<Tensor<1, dim>> gs(cfg.ns);
            for (unsigned i = 0; i < di.size(); ++i)
              {
                const Who w = who(k, i);
                if (w.slip)
                  {
                    s[w.index] += x[di[i]] * fv.shape_value(i, p);
                    so[w.index] += old[di[i]] * fv.shape_value(i, p);
                    gs[w.index] += x[di[i]] * fv.shape_grad(i, p);
                  }
                else G[w.index] += x[di[i]] * fv.shape_grad(i, p);
              }
            SymmetricTensor<2, dim> e = symmetrize(G), ee = e;
            if (cfg.macro) ee += macro;
            for (int a = 0; a < cfg.ns; ++a) ee -= D.n0 * s[a] * schmid(c, k, a);
            const auto sig = hooke(k, ee, D.C);
            R.strain[ci].push_back(e);
            R.estrain[ci].push_back(ee);
            R.stress[ci].push_back(sig);
            R.JxW[ci].push_back(fv.JxW(p));
            // isotropic and latent hardening
            Vec &res = R.resist[ci][p];
            if (!hl.flag_perfect_plasticity)
              for (int a = 0; a < cfg.ns; ++a)
                for (int b = 0; b < cfg.ns; ++b)
                  res[a] += hl.linear_hardening_modulus / D.S * (a == b ? 1. : hl.hardening_parameter) * std::fabs(s[b] - so[b]);
            Tensor<1, dim> bf;
            if (supply) bf = supply->value(fv.quadrature_point(p));
            std::vector<Tensor<1, dim>> xi(cfg.ns);
            Vec                         tau(cfg.ns), pi(cfg.ns);
            for (int a = 0; a < cfg.ns; ++a)
              {
                tau[a] = sig * schmid(c, k, a);
                R.min_rate = std::min(R.min_rate, std::fabs(s[a] - so[a]));
                pi[a] = (sm.flag_rate_independent ? double((s[a] > so[a]) - (s[a] < so[a])) : reg_ref(sm.regularization_function, (s[a] - so[a]) / dt, sm.regularization_parameter)) * res[a];
                const double ga = gs[a] * c.m[k][a], gl = gs[a] * c.l[k][a];
                xi[a] = F * (pw(ga, P - 2) * ga * c.m[k][a] + pw(gl, P - 2) * gl * c.l[k][a]);
              }
            for (unsigned i = 0; i < di.size(); ++i)
              {
                const Who w = who(k, i);
                const double J = fv.JxW(p);
                if (w.slip)
                  {
                    add(di[i], -D.n2 * (fv.shape_grad(i, p) * xi[w.index]) * J);
                    add(di[i], fv.shape_value(i, p) * D.n3 * tau[w.index] * J);
                    add(di[i], -fv.shape_value(i, p) * pi[w.index] * J);
                  }
                else
                  {
                    const double fac = D.n3 / D.n0;
                    for (int b = 0; b < dim; ++b) add(di[i], -fac * fv.shape_grad(i, p)[b] * sig[w.index][b] * J);
                    add(di[i], fac * fv.shape_value(i, p) * bf[w.index] * J);
                  }
              }
          }
        if (neumann)
          for (const auto fi : cell->face_indices())
            if (cell->face(fi)->at_boundary() && cell->face(fi)->boundary_id() == 1)
              {
                FEFaceValues<dim> ff(*mapping, f, qf, update_values | update_JxW_values | update_quadrature_points);
                ff.reinit(typename Triangulation<dim>::cell_iterator(cell), fi);
                AnyField<dim> t = *neumann;
                t.set_time(time.get_next_time());
                for (unsigned p = 0; p < qf.size(); ++p)
                  for (unsigned i = 0; i < di.size(); ++i)
                    {
                      const Who w = who(k, i);
                      if (!w.slip) add(di[i], D.n3 / D.n0 * ff.shape_value(i, p) * t.value(ff.quadrature_point(p))[w.index] * ff.JxW(p));
                    }
              }
      }
    const bool mt = cfg.gb == GB::Microtraction;
    if (cfg.deco || mt)
      for (auto &pr : gbs)
        {
          const Side &A = pr.first, &B = pr.second;
          const unsigned ka = A.cell->material_id(), kb = B.cell->material_id();
          FEFaceValues<dim> fa(*mapping, A.cell->get_fe(), qf, update_values | update_JxW_values | update_normal_vectors),
            fb(*mapping, B.cell->get_fe(), qf, update_values);
          fa.reinit(typename Triangulation<dim>::cell_iterator(A.cell), A.face);
          fb.reinit(typename Triangulation<dim>::cell_iterator(B.cell), B.face);
          std::vector<Tensor<1, dim>> ua, ub;
          std::vector<Vec>            sa, sb;
          sample(A, fa, x, ua, sa);
          sample(B, fb, x, ub, sb);
          std::vector<types::global_dof_index> di(A.cell->get_fe().n_dofs_per_cell());
          A.cell->get_dof_indices(di);
          for (unsigned p = 0; p < qf.size(); ++p)
            {
              const Tensor<1, dim> N = fa.normal_vector(p);
              const auto           key = std::make_pair(unsigned(A.cell->face(A.face)->index()), p);
              Tensor<2, 3>         BT;
              for (int a = 0; a < cfg.ns; ++a) BT += sb[a][p] * burgers(kb, a, N) - sa[a][p] * burgers(ka, a, N);
              double         dam = 0;
              Tensor<1, dim> T, K;
              double         sT = 0;
              if (cfg.deco)
                {
                  const Tensor<1, dim> o = ub[p] - ua[p];
                  const double         e = eff(o, N);
                  const Gb             com = gbh[key];
                  Gb                   cur = com;
                  R.min_open = std::min({R.min_open, std::fabs(o * N), std::fabs(e - com.mx)});
                  cur.mx = std::max(com.mx, e);
                  const double z = cur.mx / co.critical_opening_displacement;
                  if (de.damage_evolution_model == RTP::DamageEvolutionModel::OrtizEtAl) cur.d = 1 - (1 + z) * std::exp(-z);
                  else
                    {
                      const double y = e / co.critical_opening_displacement;
                      const double psi = co.critical_cohesive_traction * co.critical_opening_displacement * std::exp(1.) * (1 - (1 + y) * std::exp(-y)) +
                                         0.5 * cl.microtraction_law_parameters.grain_boundary_modulus * scalar_product(BT, BT);
                      const double force = De * std::pow(1 - com.d, De - 1) * psi;
                      cur.d = std::min(1., com.d + de.damage_accumulation_constant * mac(e - com.old) *
                                                     std::pow(1 - com.d + de.damage_decay_constant, de.damage_decay_exponent) *
                                                     mac(force - de.endurance_limit));
                    }
                  if (de.flag_set_damage_to_zero) cur.d = 0;
                  cur.old = e;
                  R.gbh[key] = cur;
                  dam = cur.d;
                  const double be = co.tangential_to_normal_stiffness_ratio;
                  if (cur.mx > 0)
                    {
                      const Tensor<1, dim> v = mac(o * N) * N + be * be * (o - (o * N) * N);
                      const double         k = co.critical_cohesive_traction / co.critical_opening_displacement * std::exp(1 - z);
                      T = k * v;
                      // round-off of the difference of displacements
                      sT = k * (1 + be * be) * (ua[p].norm() + ub[p].norm());
                    }
                  K = -cl.contact_law_parameters.penalty_coefficient * mac(-(o * N)) * N;
                  sT += cl.contact_law_parameters.penalty_coefficient * (o * N < 0 ? ua[p].norm() + ub[p].norm() : 0.);
                }
              const double gM = de.flag_couple_macrotraction_to_damage ? std::pow(1 - dam, De) : 1.;
              const double gm = de.flag_couple_microtraction_to_damage ? std::pow(1 - dam, De) : 1.;
              const double fac = D.n3 / D.n0;
              for (unsigned i = 0; i < di.size(); ++i)
                {
                  const Who    w = who(ka, i);
                  const double v = fa.shape_value(i, p) * fa.JxW(p);
                  if (v == 0) continue;
                  if (!w.slip)
                    {
                      if (!cfg.deco) continue;
                      add(di[i], fac * v * (gM * T[w.index] + K[w.index]));
                      add_scale(di[i], fac * std::fabs(v) * sT);
                    }
                  else if (mt)
                    {
                      const double L = cl.microtraction_law_parameters.grain_boundary_modulus;
                      add(di[i], D.n2 * v * gm * L * scalar_product(BT, burgers(ka, w.index, N)));
                      double s = 0;
                      for (int a = 0; a < cfg.ns; ++a) s += std::fabs(sa[a][p]) + std::fabs(sb[a][p]);
                      add_scale(di[i], D.n2 * std::fabs(v) * L * s);
                    }
                }
            }
        }
    return R;
  }
  void commit(const Ref &R)
  {
    resist = R.resist;
    gbh = R.gbh;
  }

  // ------------------------------------------------------------ the solver's own evaluation
  Vec evaluate(const Vec &x)
  {
    set_trial(x);
    solver->reset_and_update_internal_variables();
    solver->assemble_residual();
    return get(solver->residual);
  }
  // a step accepted without solving: x becomes the solution
  void accept(const Vec &x, double dt)
  {
    time.set_desired_next_step_size(dt);
    const Ref R = reference(x, get(fe->old_solution), dt);
    set_trial(x);
    solver->reset_and_update_internal_variables();
    solver->store_effective_opening_displacement_in_quadrature_history();
    fe->solution = solver->trial_solution;
    fe->update_solution_vectors();
    time.advance_time();
    time.set_desired_next_step_size(dt);
    solver->prepare_quadrature_point_history();
    solver->store_slip_resistances();
    solver->reset_internal_newton_method_constraints();
    commit(R);
  }
  void start(double dt)
  {
    time.set_desired_next_step_size(dt);
    solver->prepare_quadrature_point_history();
    solver->store_slip_resistances();
    solver->reset_internal_newton_method_constraints();
  }
};

// ---------------------------------------------------------------- parameters

static RTP::SolverParameters any_parameters(Rng &g, double &dt, double &e0, bool tame = false)
{
  RTP::SolverParameters p;
  auto                 &cl = p.constitutive_laws_parameters;
  const double          C = tame ? g.logu(1e1, 1e4) : g.logu(1, 1e5);
  const double          S = C * (tame ? g.logu(2e-3, 2e-2) : g.logu(1e-3, 3e-2));
  e0 = S / C;
  dt = g.logu(1e-2, 1.);
  cl.hooke_law_parameters.C1111 = C * g.uni(1., 1.6);
  cl.hooke_law_parameters.C1122 = C * g.uni(.2, .6);
  cl.hooke_law_parameters.C1212 = C * g.uni(.3, .9);
  auto &sm = cl.scalar_microstress_law_parameters;
  sm.regularization_function = RTP::RegularizationFunction(g.integer(0, 4));
  sm.regularization_parameter = e0 / dt * (tame ? g.uni(.5, 3.) : g.logu(.2, 5.));
  sm.flag_rate_independent = false;
  auto &vm = cl.vectorial_microstress_law_parameters;
  vm.energetic_length_scale = g.logu(.05, 1.);
  vm.initial_slip_resistance = S * g.uni(.3, 3.);
  vm.defect_energy_index = g.coin(.5) || tame ? 2. : g.uni(2., 4.);
  auto &hl = cl.hardening_law_parameters;
  hl.initial_slip_resistance = S;
  hl.linear_hardening_modulus = C * (tame ? g.logu(.01, .3) : g.logu(.01, 2.));
  hl.hardening_parameter = g.coin(.2) ? 0. : g.coin(.2) ? 1. : g.uni(0., 1.4);
  hl.flag_perfect_plasticity = g.coin(.15);
  cl.microtraction_law_parameters.grain_boundary_modulus = C * g.logu(1e-2, 1.);
  auto &co = cl.cohesive_law_parameters;
  co.critical_cohesive_traction = S * g.uni(.5, 5.);
  co.critical_opening_displacement = e0 * g.logu(.1, 1.);
  co.tangential_to_normal_stiffness_ratio = g.coin(.4) ? 1. : g.uni(.3, 2.);
  cl.contact_law_parameters.penalty_coefficient = C * g.logu(1., 1e2);
  cl.degradation_function_parameters.degradation_exponent = g.coin() ? 2. : g.uni(1., 3.);
  auto &de = cl.damage_evolution_parameters;
  de.damage_evolution_model = g.coin() ? RTP::DamageEvolutionModel::OrtizEtAl : RTP::DamageEvolutionModel::M1;
  de.damage_accumulation_constant = g.logu(.1, 3.) / (co.critical_opening_displacement * co.critical_opening_displacement * co.critical_cohesive_traction);
  de.damage_decay_constant = g.coin() ? 0. : g.uni(0, 1e-1);
  de.damage_decay_exponent = g.uni(0., 2.);
  de.endurance_limit = g.coin() ? 0. : .1 * co.critical_cohesive_traction * co.critical_opening_displacement * g.unit();
  de.degradation_exponent = cl.degradation_function_parameters.degradation_exponent;
  de.flag_couple_microtraction_to_damage = g.coin();
  de.flag_couple_macrotraction_to_damage = g.coin();
  de.flag_set_damage_to_zero = g.coin(.1);
  auto np = [&](RTP::NonlinearSystemSolverParameters &n) {
    n.krylov_parameters.solver_type = RTP::SolverType::DirectSolver;
    n.krylov_parameters.relative_tolerance = 1e-12;
    n.krylov_parameters.absolute_tolerance = 1e-14 * S;
    n.krylov_parameters.n_max_iterations = 5000;
    n.newton_parameters.absolute_tolerance = 1e-9 * S;
    n.newton_parameters.relative_tolerance = 1e-12;
    n.newton_parameters.n_max_iterations = 60;
    n.newton_parameters.flag_line_search = g.coin();
  };
  np(p.monolithic_algorithm_parameters.monolithic_system_solver_parameters);
  np(p.staggered_algorithm_parameters.linear_momentum_solver_parameters);
  np(p.staggered_algorithm_parameters.pseudo_balance_solver_parameters);
  p.staggered_algorithm_parameters.max_n_solution_loops = tier.thorough ? 400 : 150;
  p.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop = false;
  p.solution_algorithm = RTP::SolutionAlgorithm::Monolithic;
  p.flag_skip_extrapolation = g.coin();
  p.flag_output_debug_fields = false;
  p.print_sparsity_pattern = false;
  return p;
}

static std::string describe(const Cfg &c, const RTP::SolverParameters &p, int dim, double dt)
{
  const auto &cl = p.constitutive_laws_parameters;
  return cat("dim=", dim, " u", c.udeg, " s", c.sdeg, " crystals=", c.nc, (c.patches ? " patches" : " layers"), " slips=", c.ns, " cells=", c.cells,
             (c.deco ? " decohesion" : ""), (c.single ? " single" : " blocks"), " gb=", int(c.gb), " distort=", c.distort,
             (c.all_driven ? " driven" : ""), (c.slip_fixed ? " held" : ""), (c.supply ? " supply" : ""), (c.neumann ? " neumann" : ""), (c.macro ? " macro" : ""),
             " C=", cl.hooke_law_parameters.C1111, ",", cl.hooke_law_parameters.C1122, ",", cl.hooke_law_parameters.C1212,
             " S=", cl.hardening_law_parameters.initial_slip_resistance, " H=", cl.hardening_law_parameters.linear_hardening_modulus, " q=", cl.hardening_law_parameters.hardening_parameter,
             (cl.hardening_law_parameters.flag_perfect_plasticity ? " perfect" : ""),
             " l=", cl.vectorial_microstress_law_parameters.energetic_length_scale, " p=", cl.vectorial_microstress_law_parameters.defect_energy_index,
             " reg=", reg_name(cl.scalar_microstress_law_parameters.regularization_function), "/", cl.scalar_microstress_law_parameters.regularization_parameter,
             (cl.scalar_microstress_law_parameters.flag_rate_independent ? " rate-independent" : ""),
             " damage=", int(cl.damage_evolution_parameters.damage_evolution_model), " dt=", dt);
}

template <int dim> Cfg any_cfg(Rng &g, bool small = false)
{
  Cfg c;
  c.udeg = g.integer(1, 2);
  c.sdeg = g.integer(1, 2);
  if (g.coin(.5)) c.sdeg = c.udeg;
  c.cells = dim == 2 ? g.integer(2, small ? 3 : 4) : g.integer(1, 2);
  if (dim == 3 && !small && c.udeg == 2) c.cells = 1;
  if (dim == 3 && c.cells == 1) { c.cells = 2; c.udeg = c.sdeg = 1; }
  c.nc = g.integer(1, dim == 2 ? 3 : 2);
  c.ns = g.integer(1, dim == 2 ? 3 : (small ? 2 : 4));
  c.deco = c.nc > 1 && g.coin(.5);
  c.single = g.coin(.6);
  c.distort = g.coin(.4) ? 0. : g.uni(.02, .06);
  c.patches = c.nc > 1 && g.coin(.4);
  c.gb = c.nc > 1 ? g.pick(std::vector<GB>{GB::Microfree, GB::Microhard, GB::Microtraction}) : GB::Microfree;
  c.slip_fixed = g.coin();
  c.all_driven = g.coin(.3);
  c.supply = g.coin(.4);
  c.neumann = g.coin(.4) && !c.all_driven;
  c.macro = g.coin(.3);
  return c;
}
