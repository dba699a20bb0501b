// The real application watched from inside: its main() runs unchanged (linked
// as simple_shear_main), every call of the solver it makes is intercepted at
// link time, and what it set up, posed, accepted and wrote is judged against
// what the parameter file asks for (properties P13, P15, P17, P21).
#include "fem_steps.h"
#include "fem_post.h"

namespace V
{
Reporter rep;
Tier     tier;
} // namespace V

int simple_shear_main(int argc, char **argv);

// what the parameter file says, written by the generator
struct Asked
{
  int    dim, nc, ns, rows, homogenize, every;
  double height, unit; // of displacements
  std::vector<double>              time, shear;
  std::vector<int>                 skip; // the starting value is not to be extrapolated
  std::vector<std::vector<double>> euler, dirs, normals;
  std::string                      out;
  unsigned                         steps = 0; // solved so far
};
static Asked       asked;
static std::string property;
static std::vector<std::map<std::string, double>> rows, edges;
static std::map<std::string, double>              tolerance;
static double                                     edge_tolerance = 1e-30;

static void read_asked()
{
  std::ifstream f("asked.txt");
  auto         &a = asked;
  unsigned      n = 0;
  f >> a.dim >> a.nc >> a.ns >> a.rows >> a.height >> a.unit >> a.homogenize >> a.every >> a.out >> n;
  a.time.resize(n), a.shear.resize(n), a.skip.resize(n);
  for (unsigned k = 0; k < n; ++k) f >> a.time[k] >> a.shear[k] >> a.skip[k];
  auto table = [&](std::vector<std::vector<double>> &t, int r, int c) {
    t.assign(r, std::vector<double>(c));
    for (auto &x : t)
      for (double &y : x) f >> y;
  };
  table(a.euler, a.nc, a.dim == 2 ? 1 : 3);
  table(a.dirs, a.ns, a.dim);
  table(a.normals, a.ns, a.dim);
  AssertThrow(f && n > 0, ExcMessage("asked.txt"));
}

// a vector with made-up entries
static std::vector<double> scrambled(unsigned n, u64 seed)
{
  Rng                 g(seed);
  std::vector<double> r(n);
  for (double &x : r) x = g.uni(1, 2);
  return r;
}

template <int dim> struct Adopted : public Problem<dim>
{
  using Base = Problem<dim>;
  using Vec = typename Base::Vec;
  using typename Base::Solver;
  using Base::c;
  using Base::cfg;
  using Base::fe;
  using Base::points;
  using Base::tria;

  std::vector<long>   kind; // the class of unknowns that have to be equal
  std::vector<char>   held, top;
  std::vector<unsigned> dir;
  Vec                 last;
  double              width;

  static Cfg config(const Solver &s)
  {
    Cfg        c;
    const auto &f = *s.fe_field;
    c.udeg = f.get_displacement_fe_degree();
    c.sdeg = f.get_slips_fe_degree();
    c.nc = asked.nc, c.ns = asked.ns;
    c.deco = s.parameters.allow_decohesion;
    c.gb = s.parameters.boundary_conditions_at_grain_boundaries;
    c.slip_fixed = true;
    c.L = asked.height;
    return c;
  }

  explicit Adopted(Solver &s)
    : Base(config(s), s.parameters,
           const_cast<typename Base::Mesh &>(dynamic_cast<const typename Base::Mesh &>(s.fe_field->get_triangulation())),
           const_cast<DiscreteTime &>(s.discrete_time), 1e-3)
  {
    using None = std::shared_ptr<void>;
    this->solver = std::shared_ptr<Solver>(None(), &s);
    fe = std::shared_ptr<gCP::FEField<dim>>(None(), s.fe_field.get());
    this->mapping = std::shared_ptr<Mapping<dim>>(None(), const_cast<Mapping<dim> *>(&*s.mapping));
    c.nc = asked.nc, c.ns = asked.ns;
    for (auto &e : asked.euler) c.euler.push_back(e);
    for (auto &e : asked.dirs) c.dirs.push_back(e);
    for (auto &e : asked.normals) c.normals.push_back(e);
    rotate(c);
    hp::MappingCollection<dim> mc(*this->mapping);
    DoFTools::map_dofs_to_support_points(mc, fe->get_dof_handler(), points);
    width = 1. / asked.rows;
    this->init_model();
    identify();
    last = Vec(this->ndof(), 0.);
  }

  // who has to be equal, zero, moved
  void identify()
  {
    const unsigned n = this->ndof();
    kind.assign(n, -1), held.assign(n, 0), top.assign(n, 0), dir.assign(n, 0);
    std::map<std::vector<long>, long> classes;
    auto                              grid = [](double x) { return std::lround(x * 1e7); };
    for (const auto &cell : fe->get_dof_handler().active_cell_iterators())
      {
        const auto                          &f = cell->get_fe();
        std::vector<types::global_dof_index> di(f.n_dofs_per_cell());
        cell->get_dof_indices(di);
        // the crystal by place
        const double y = cell->center()[1] / asked.height * asked.nc;
        const int    k = cell->material_id();
        if (property == "P15")
          rep.check(std::fabs(y - std::round(y)) < 1e-9 ? std::abs(k - int(std::lround(y)) + 0.5) < 1 : k == int(y), "crystal-of-cell",
                    [&] { return cat("crystal ", k, " at height ", y, " crystals"); });
        rep.count("cells-placed");
        for (unsigned i = 0; i < di.size(); ++i)
          {
            const auto        w = this->who(k, i);
            const Point<dim> &p = points.at(di[i]);
            std::vector<long> key = {w.slip, w.slip || cfg.deco ? long(w.crystal) : -1, long(w.index)};
            for (int a = 0; a < dim; ++a)
              key.push_back(grid(a == 1 ? p[a] / asked.height : std::fabs(p[a] - width) < 1e-9 ? 0. : p[a] / width));
            kind[di[i]] = classes.emplace(key, classes.size()).first->second;
            dir[di[i]] = w.slip ? 99 : w.index;
            const bool low = std::fabs(p[1]) < 1e-9 * asked.height, high = std::fabs(p[1] - asked.height) < 1e-9 * asked.height;
            if (low || high) held[di[i]] = 1;
            if (high && !w.slip && w.index == 0) top[di[i]] = 1;
          }
        if (cfg.gb == GB::Microhard)
          for (const auto fi : cell->face_indices())
            if (!cell->face(fi)->at_boundary() && cell->neighbor(fi)->material_id() != cell->material_id())
              for (unsigned i = 0; i < di.size(); ++i)
                if (this->who(k, i).slip && f.has_support_on_face(i, fi)) held[di[i]] = 1;
      }
    // a class is held if one of it is; the row of a class is its first unknown
    std::map<long, long> row;
    std::set<long>       no;
    for (unsigned i = 0; i < n; ++i)
      {
        row.emplace(kind[i], i);
        if (held[i]) no.insert(kind[i]);
      }
    this->fold.assign(n, -1);
    unsigned folded = 0;
    for (unsigned i = 0; i < n; ++i)
      if (no.count(kind[i])) held[i] = 1;
      else this->fold[i] = row[kind[i]], folded += row[kind[i]] != long(i);
    rep.count("unknowns-held", no.size());
    rep.count("unknowns-periodic", folded);
  }
  double moved() const { return asked.shear[asked.steps] * asked.height / asked.unit; }
  std::map<types::global_dof_index, double> prescribed() const override
  {
    std::map<types::global_dof_index, double> r;
    for (unsigned i = 0; i < held.size(); ++i)
      if (held[i]) r[i] = top[i] ? moved() : 0.;
    return r;
  }

  // what constraints mean, by what they do to any vector
  void check_constraints(const AffineConstraints<double> &a, bool with_load, const std::string &key)
  {
    const unsigned n = this->ndof();
    const auto     x = scrambled(n, asked.steps + 11);
    Vector<double> v(n);
    for (unsigned i = 0; i < n; ++i) v[i] = x[i];
    a.distribute(v);
    std::map<long, double>            first;
    std::map<long, std::set<double>>  could;
    for (unsigned i = 0; i < n; ++i) could[kind[i]].insert(x[i]);
    unsigned bad[3] = {0, 0, 0};
    unsigned at[3] = {0, 0, 0};
    auto     note = [&](int k, unsigned i) { if (!bad[k]++) at[k] = i; };
    for (unsigned i = 0; i < n; ++i)
      {
        if (held[i])
          {
            const double want = with_load && top[i] ? moved() : 0.;
            if (!(std::fabs(v[i] - want) <= 1e-12 * std::fabs(moved()) + 1e-300)) note(0, i);
            continue;
          }
        const auto f = first.emplace(kind[i], v[i]).first;
        if (v[i] != f->second) note(1, i);
        else if (!could[kind[i]].count(v[i])) note(2, i);
      }
    static const char *what[3] = {"prescribed", "periodic", "free"};
    for (int k = 0; k < 3; ++k)
      rep.check(bad[k] == 0, key + "-" + what[k], [&] {
        return cat(bad[k], " unknowns of ", n, "; ", at[k], " at (", points.at(at[k]), dir[at[k]] == 99 ? ") slip" : ") displacement ", dir[at[k]], ": ", v[at[k]]);
      });
    rep.count("constraints-distributed");
  }

  void posed(double now, double next, bool skip)
  {
    const unsigned k = asked.steps;
    if (property == "P13")
      {
        const double end = asked.time.back();
        rep.close(now, k ? asked.time[k - 1] : 0., 1e-9 * end, "time-before-step");
        rep.close(next, asked.time[k], 1e-9 * end, "time-after-step");
        rep.check(skip == bool(asked.skip[k]), skip ? "run-extrapolation-skipped" : "run-extrapolation-not-skipped", [&] { return cat("step ", k); });
        if (skip) rep.count("run-extrapolation-skips");
        // what is asked at the boundaries
        const auto    &a = fe->get_affine_constraints();
        const unsigned n = this->ndof();
        Vector<double> v(n);
        const auto     x = scrambled(n, k);
        for (unsigned i = 0; i < n; ++i) v[i] = x[i];
        a.distribute(v);
        double   scale = 0;
        for (double s : asked.shear) scale = std::max(scale, std::fabs(s) * asked.height / asked.unit);
        for (unsigned i = 0; i < n; ++i)
          if (held[i] && dir[i] != 99)
            rep.close(v[i], top[i] ? moved() : 0., 1e-9 * scale, top[i] ? "boundary-displacement" : "boundary-other-displacement");
        rep.count("boundary-values");
      }
    if (property == "P15")
      {
        check_constraints(fe->get_affine_constraints(), true, "constraints");
        check_constraints(fe->get_newton_method_constraints(), false, "newton-constraints");
      }
  }
  void accepted(double dt)
  {
    const auto x = this->get(fe->solution);
    if (property == "P15")
      {
        // the accepted state meets them as well
        std::map<long, double> first;
        double                 big = 0;
        for (double z : x) big = std::max(big, std::fabs(z));
        unsigned bad = 0;
        for (unsigned i = 0; i < x.size(); ++i)
          bad += !(std::fabs(x[i] - first.emplace(kind[i], x[i]).first->second) <= 1e-12 * big);
        rep.check(bad == 0, "solution-not-periodic", [&] { return cat(bad, " unknowns"); });
      }
    if (property == "P17")
      {
        const auto R = this->reference(x, last, dt);
        double     s2 = 0, noise = 0;
        for (unsigned i = 0; i < x.size(); ++i)
          if (this->fold[i] == long(i)) s2 += R.r[i] * R.r[i], noise += R.scale[i] * R.scale[i];
        const auto &p = this->prm;
        double      tol = p.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters.absolute_tolerance;
        if (p.solution_algorithm != RTP::SolutionAlgorithm::Monolithic)
          tol = std::sqrt(2.) * std::max(p.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters.absolute_tolerance,
                                         p.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters.absolute_tolerance);
        const double r = std::sqrt(s2), limit = 1.0001 * tol + 1e-11 * std::sqrt(noise);
        rep.check(r <= limit, "run-equilibrium", [&] { return cat("residual ", r, " limit ", limit, " step ", asked.steps); });
        double big = 1e-300;
        for (double z : x) big = std::max(big, std::fabs(z));
        for (auto &e : prescribed()) rep.close(x[e.first], e.second, 1e-12 * big, "run-constraint");
        this->commit(R);
        rep.count("run-steps");
      }
    if (property == "P21")
      {
        auto       A = averages(*this, x, Tensor<2, 3>());
        const unsigned k = asked.steps + 1;
        for (auto &z : A.tol) tolerance[z.first] = std::max(tolerance[z.first], z.second);
        edges.push_back({{"shear_at_upper_boundary", asked.shear[k - 1]}, {"stress_12_at_upper_boundary", A.force / std::pow(width, dim - 1)}});
        edge_tolerance = std::max(edge_tolerance, A.C * A.big);
        if (asked.homogenize && (k % asked.every == 0 || k == asked.time.size()))
          {
            A.row["Time"] = asked.time[k - 1];
            rows.push_back(A.row);
          }
      }
    last = x;
  }
};

template <int dim> struct Watch
{
  static std::unique_ptr<Adopted<dim>> problem;
  template <class Call> static void around(gCP::GradientCrystalPlasticitySolver<dim> &s, bool skip, const Call &call)
  {
    bool ok = guarded("exception-in-monitor", [&] {
      if (!problem) problem = std::make_unique<Adopted<dim>>(s);
      rep.check(asked.steps < asked.time.size(), "more-steps-than-programmed");
    });
    ok = ok && asked.steps < asked.time.size();
    const double dt = s.discrete_time.get_next_step_size();
    if (ok) guarded("exception-in-monitor", [&] { problem->posed(s.discrete_time.get_current_time(), s.discrete_time.get_next_time(), skip); });
    call();
    if (ok) guarded("exception-in-monitor", [&] { problem->accepted(dt); });
    ++asked.steps;
    rep.count("watched-steps");
  }
};
template <int dim> std::unique_ptr<Adopted<dim>> Watch<dim>::problem;

#define WATCH(D)                                                                                                   \
  extern "C" void __real__ZN3gCP31GradientCrystalPlasticitySolverILi##D##EE22solve_nonlinear_systemEb(             \
    gCP::GradientCrystalPlasticitySolver<D> *, bool);                                                              \
  extern "C" void __wrap__ZN3gCP31GradientCrystalPlasticitySolverILi##D##EE22solve_nonlinear_systemEb(             \
    gCP::GradientCrystalPlasticitySolver<D> *s, bool skip)                                                         \
  {                                                                                                                \
    Watch<D>::around(*s, skip, [&] { __real__ZN3gCP31GradientCrystalPlasticitySolverILi##D##EE22solve_nonlinear_systemEb(s, skip); }); \
  }
WATCH(2)
WATCH(3)

static std::string slurp(const std::string &name)
{
  std::ifstream     f(asked.out + name);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static void check_table(const std::string &name, std::vector<std::map<std::string, double>> &want, const std::function<double(const std::string &, double)> &tol)
{
  if (want.empty()) return;
  auto t = org_table(slurp(name));
  for (auto &e : want[0])
    {
      auto &col = t[e.first];
      if (!rep.check(col.size() == want.size(), "table-rows:" + e.first, [&] { return cat(col.size(), " instead of ", want.size()); })) continue;
      for (unsigned r = 0; r < want.size(); ++r)
        rep.close(std::strtod(col[r].c_str(), nullptr), want[r][e.first], tol(e.first, want[r][e.first]), "table:" + e.first);
    }
  rep.count("table-rows", want.size());
}

int main(int, char **argv)
{
  deal_II_exceptions::disable_abort_on_exception();
  property = argv[1];
  tier.seed = std::strtoull(argv[2], nullptr, 10);
  tier.set(argv[3]);
  rep.open(argv[4]);
  read_asked();
  {
    std::ifstream     f("describe.txt");
    std::stringstream s;
    s << f.rdbuf();
    rep.begin("application " + s.str());
  }
  rep.sample(rep.current);
  rep.nontrivial(rep.current);
  std::string name, text;
  char        program[] = "simple_shear", file[] = "run.prm";
  char       *args[] = {program, file, nullptr};
  int         status = -1;
  const bool  back = attempt([&] { status = simple_shear_main(2, args); }, name, text);
  if (!back || status)
    {
      rep.count("refused:run");
      if (property == "P15")
        rep.check(Watch<2>::problem || Watch<3>::problem, "run-not-set-up", [&] { return cat("a complete parameter file was refused before the first step; ", name, " ", text); });
    }
  else
    {
      rep.count("watched-runs");
      if (property == "P13")
        rep.check(asked.steps == asked.time.size(), "steps-of-programme", [&] { return cat(asked.steps, " instead of ", asked.time.size()); });
      if (property == "P21" && asked.steps == asked.time.size())
        {
          check_table("homogenization.txt", rows, [](const std::string &k, double v) {
            return k == "Time" ? 1e-4 * asked.time.back() + 1e-4 : 2 * tolerance[k] + 1e-8 * std::fabs(v);
          });
          double load = 1e-300;
          for (double s : asked.shear) load = std::max(load, std::fabs(s));
          check_table("stress12_vs_shear_strain_at_boundary.txt", edges, [&](const std::string &k, double v) {
            return (k[1] == 't' ? 2e-6 * edge_tolerance : 2e-6 * load) + 2e-6 * std::fabs(v);
          });
        }
    }
  rep.end();
  std::fflush(nullptr);
  _exit(0);
}
