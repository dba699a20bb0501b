// Monitors of the parameter files (P12) and of the loading programme (P13);
// included by material.cc.
#pragma once
#include <filesystem>
namespace params
{
using Strip = RTP::InfiniteStripProblem;
enum Kind { Real, Int, Bool, Choice, Text };
struct Entry
{
  std::string              path; // subsections joined by '|'
  std::string              name;
  Kind                     kind;
  double                   lo, hi; // range used to draw valid values (log-uniform for reals)
  double                   decl_lo, decl_hi; // declared range
  std::vector<std::string> choices;
  std::string              def; // declared default
  std::function<std::string(const Strip &)> get; // value reached, printed
};

static std::string show(double d) { return cat(d); }
static std::string show(unsigned int d) { return cat(d); }
static std::string showb(bool d) { return d ? "true" : "false"; }

static std::string canonical(const Entry &e, const std::string &text)
{
  if (e.kind == Real) return show(std::strtod(text.c_str(), nullptr));
  if (e.kind == Int) return cat(std::strtol(text.c_str(), nullptr, 10));
  return text;
}

static std::vector<Entry> &table()
{
  static std::vector<Entry> t;
  if (!t.empty()) return t;
  const double inf = std::numeric_limits<double>::max();
  auto real = [&](std::string p, std::string n, double lo, double hi, double dl, double dh, std::string d, std::function<double(const Strip &)> f)
  { t.push_back({p, n, Real, lo, hi, dl, dh, {}, d, [f](const Strip &s) { return show(f(s)); }}); };
  auto integer = [&](std::string p, std::string n, int lo, int hi, int dl, std::string d, std::function<unsigned(const Strip &)> f)
  { t.push_back({p, n, Int, double(lo), double(hi), double(dl), inf, {}, d, [f](const Strip &s) { return show(f(s)); }}); };
  auto boolean = [&](std::string p, std::string n, std::string d, std::function<bool(const Strip &)> f)
  { t.push_back({p, n, Bool, 0, 0, 0, 0, {"true", "false"}, d, [f](const Strip &s) { return showb(f(s)); }}); };
  auto choice = [&](std::string p, std::string n, std::vector<std::string> c, std::string d, std::function<int(const Strip &)> f)
  { t.push_back({p, n, Choice, 0, 0, 0, 0, c, d, [f, c](const Strip &s) { const int i = f(s); return i < 0 || i >= int(c.size()) ? std::string("?") : c[i]; }}); };
  auto text = [&](std::string p, std::string n, std::string d, std::function<std::string(const Strip &)> f)
  { t.push_back({p, n, Text, 0, 0, 0, 0, {}, d, f}); };

#define CL s.solver_parameters.constitutive_laws_parameters
  std::string P = "6. Solver parameters|Constitutive laws' parameters|Hooke-Law's parameters";
  real(P, "C1111", 1, 1e6, 0, inf, "134615.0", [](const Strip &s) { return CL.hooke_law_parameters.C1111; });
  real(P, "C1122", 1, 1e6, 0, inf, "57692.3", [](const Strip &s) { return CL.hooke_law_parameters.C1122; });
  real(P, "C1212", 1, 1e6, 0, inf, "38461.5", [](const Strip &s) { return CL.hooke_law_parameters.C1212; });
  P = "6. Solver parameters|Constitutive laws' parameters|Scalar microstress law's parameters";
  choice(P, "Regularization function", {"atan", "sqrt", "gd", "tanh", "erf"}, "tanh", [](const Strip &s) {
    switch (CL.scalar_microstress_law_parameters.regularization_function)
      {
        case RTP::RegularizationFunction::Atan: return 0;
        case RTP::RegularizationFunction::Sqrt: return 1;
        case RTP::RegularizationFunction::Gd: return 2;
        case RTP::RegularizationFunction::Tanh: return 3;
        case RTP::RegularizationFunction::Erf: return 4;
      }
    return -1; });
  real(P, "Regularization parameter", 1e-8, 1, 0, inf, "3e-4", [](const Strip &s) { return CL.scalar_microstress_law_parameters.regularization_parameter; });
  boolean(P, "Rate-independent behavior", "false", [](const Strip &s) { return CL.scalar_microstress_law_parameters.flag_rate_independent; });
  P = "6. Solver parameters|Constitutive laws' parameters|Vectorial microstress law's parameters";
  real(P, "Energetic length scale", 1e-3, 10, 0, inf, "0.0", [](const Strip &s) { return CL.vectorial_microstress_law_parameters.energetic_length_scale; });
  real(P, "Initial slip resistance", 1, 1e3, 0, inf, "0.0", [](const Strip &s) { return CL.vectorial_microstress_law_parameters.initial_slip_resistance; });
  real(P, "Defect energy index", 1, 6, 1, inf, "2.0", [](const Strip &s) { return CL.vectorial_microstress_law_parameters.defect_energy_index; });
  real(P, "Regularization parameter", 1e-8, 1, 0, inf, "1e-6", [](const Strip &s) { return CL.vectorial_microstress_law_parameters.regularization_parameter; });
  P = "6. Solver parameters|Constitutive laws' parameters|Microtraction law's parameters";
  real(P, "Grain boundary modulus", 1e-3, 1e5, 0, inf, "0.0", [](const Strip &s) { return CL.microtraction_law_parameters.grain_boundary_modulus; });
  P = "6. Solver parameters|Constitutive laws' parameters|Cohesive law's parameters";
  choice(P, "Cohesive law model", {"OrtizEtAl"}, "OrtizEtAl", [](const Strip &s) { return CL.cohesive_law_parameters.cohesive_law_model == RTP::CohesiveLawModel::OrtizEtAl ? 0 : -1; });
  real(P, "Critical cohesive traction", 1, 1e4, 0, inf, "700.", [](const Strip &s) { return CL.cohesive_law_parameters.critical_cohesive_traction; });
  real(P, "Critical opening displacement", 1e-4, 1, 0, inf, "2.5e-2", [](const Strip &s) { return CL.cohesive_law_parameters.critical_opening_displacement; });
  real(P, "Tangential to normal stiffness ratio", 1e-2, 10, 0, inf, "1.0", [](const Strip &s) { return CL.cohesive_law_parameters.tangential_to_normal_stiffness_ratio; });
  P = "6. Solver parameters|Constitutive laws' parameters|Degradation function parameters";
  real(P, "Degradation exponent", 1e-1, 10, 0, inf, "1.0", [](const Strip &s) { return CL.degradation_function_parameters.degradation_exponent; });
  P = "6. Solver parameters|Constitutive laws' parameters|Hardening law's parameters";
  real(P, "Initial slip resistance", 1, 1e3, 0, inf, "0.0", [](const Strip &s) { return CL.hardening_law_parameters.initial_slip_resistance; });
  real(P, "Linear hardening modulus", 1, 1e4, 0, inf, "500", [](const Strip &s) { return CL.hardening_law_parameters.linear_hardening_modulus; });
  real(P, "Hardening parameter", 1e-1, 3, 0, inf, "1.4", [](const Strip &s) { return CL.hardening_law_parameters.hardening_parameter; });
  boolean(P, "Perfect plasticity", "false", [](const Strip &s) { return CL.hardening_law_parameters.flag_perfect_plasticity; });
  P = "6. Solver parameters|Constitutive laws' parameters|Damage evolution parameters";
  choice(P, "Damage evolution model", {"OrtizEtAl", "M1"}, "M1", [](const Strip &s) { return CL.damage_evolution_parameters.damage_evolution_model == RTP::DamageEvolutionModel::OrtizEtAl ? 0 : 1; });
  real(P, "Damage accumulation constant", 1e-2, 10, 0, inf, "1.0", [](const Strip &s) { return CL.damage_evolution_parameters.damage_accumulation_constant; });
  real(P, "Damage decay constant", 1e-2, 10, 0, inf, "0.0", [](const Strip &s) { return CL.damage_evolution_parameters.damage_decay_constant; });
  real(P, "Damage decay exponent", 1e-2, 10, 0, inf, "1.0", [](const Strip &s) { return CL.damage_evolution_parameters.damage_decay_exponent; });
  real(P, "Endurance limit", 1e-2, 10, 0, inf, "0.0", [](const Strip &s) { return CL.damage_evolution_parameters.endurance_limit; });
  boolean(P, "Set damage to zero", "false", [](const Strip &s) { return CL.damage_evolution_parameters.flag_set_damage_to_zero; });
  boolean(P, "Couple microtraction to damage", "true", [](const Strip &s) { return CL.damage_evolution_parameters.flag_couple_microtraction_to_damage; });
  boolean(P, "Couple macrotraction to damage", "false", [](const Strip &s) { return CL.damage_evolution_parameters.flag_couple_macrotraction_to_damage; });
  P = "6. Solver parameters|Constitutive laws' parameters|Contact law's parameters";
  real(P, "Penalty coefficient", 1, 1e4, 0, inf, "100.0", [](const Strip &s) { return CL.contact_law_parameters.penalty_coefficient; });
#undef CL
  P = "6. Solver parameters|Dimensionless formulation parameters";
  boolean(P, "Solve the dimensionless problem", "false", [](const Strip &s) { return s.solver_parameters.dimensionless_form_parameters.flag_solve_dimensionless_problem; });
  P += "|Reference parameters"; // only read when the flag above is set
#define CQ s.solver_parameters.dimensionless_form_parameters.characteristic_quantities
  real(P, "Reference length value", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return CQ.length; });
  real(P, "Reference time value", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return CQ.time; });
  real(P, "Reference displacement value", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return CQ.displacement; });
  real(P, "Reference stiffness value", 1e-2, 1e5, 0, inf, "1.0", [](const Strip &s) { return CQ.stiffness; });
  real(P, "Reference slip resistance value", 1e-2, 1e3, 0, inf, "1.0", [](const Strip &s) { return CQ.slip_resistance; });
#undef CQ
  struct Sys { std::string path; std::function<const RTP::NonlinearSystemSolverParameters &(const Strip &)> get; };
  const std::vector<Sys> systems = {
    {"6. Solver parameters|Monolithic algorithm", [](const Strip &s) -> const RTP::NonlinearSystemSolverParameters & { return s.solver_parameters.monolithic_algorithm_parameters.monolithic_system_solver_parameters; }},
    {"6. Solver parameters|Staggered algorithm|Linear momentum balance", [](const Strip &s) -> const RTP::NonlinearSystemSolverParameters & { return s.solver_parameters.staggered_algorithm_parameters.linear_momentum_solver_parameters; }},
    {"6. Solver parameters|Staggered algorithm|Pseudo-balance", [](const Strip &s) -> const RTP::NonlinearSystemSolverParameters & { return s.solver_parameters.staggered_algorithm_parameters.pseudo_balance_solver_parameters; }}};
  for (const Sys &y : systems)
    {
      auto q = y.get;
      P = y.path + "|Krylov parameters";
      choice(P, "Solver type", {"directsolver", "cg", "gmres"}, "cg", [q](const Strip &s) {
        switch (q(s).krylov_parameters.solver_type)
          {
            case RTP::SolverType::DirectSolver: return 0;
            case RTP::SolverType::CG: return 1;
            case RTP::SolverType::GMRES: return 2;
          }
        return -1; });
      real(P, "Relative tolerance", 1e-6, 1e-2, 0, inf, "1e-6", [q](const Strip &s) { return q(s).krylov_parameters.relative_tolerance; });
      real(P, "Absolute tolerance", 1e-12, 1e-7, 0, inf, "1e-8", [q](const Strip &s) { return q(s).krylov_parameters.absolute_tolerance; });
      integer(P, "Maximum number of iterations", 1, 5000, 1, "1000", [q](const Strip &s) { return q(s).krylov_parameters.n_max_iterations; });
      P = y.path + "|Newton-Raphson parameters";
      real(P, "Relative tolerance of the residual", 1e-6, 1e-2, 0, inf, "1e-6", [q](const Strip &s) { return q(s).newton_parameters.relative_tolerance; });
      real(P, "Absolute tolerance of the residual", 1e-12, 1e-7, 0, inf, "1e-8", [q](const Strip &s) { return q(s).newton_parameters.absolute_tolerance; });
      real(P, "Absolute tolerance of the step", 1e-12, 1e-2, 0, inf, "1e-8", [q](const Strip &s) { return q(s).newton_parameters.step_tolerance; });
      integer(P, "Maximum number of iterations", 1, 100, 1, "15", [q](const Strip &s) { return q(s).newton_parameters.n_max_iterations; });
      boolean(P, "Line search algorithm", "true", [q](const Strip &s) { return q(s).newton_parameters.flag_line_search; });
      P = y.path + "|Line search parameters";
      real(P, "Alpha condition constant", 1e-6, 0.3, 0, 1, "1e-4", [q](const Strip &s) { return q(s).line_search_parameters.alpha; });
      real(P, "Beta condition constant", 0.4, 0.99, 0, 1, "0.9", [q](const Strip &s) { return q(s).line_search_parameters.beta; });
      integer(P, "Maximum number of iterations", 0, 100, 0, "15", [q](const Strip &s) { return q(s).line_search_parameters.n_max_iterations; });
    }
  P = "6. Solver parameters|Staggered algorithm";
  integer(P, "Maximum number of solution loops", 2, 100, 2, "15", [](const Strip &s) { return s.solver_parameters.staggered_algorithm_parameters.max_n_solution_loops; });
  boolean(P, "Reset trial solution at each micro loop", "true", [](const Strip &s) { return s.solver_parameters.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop; });
  P = "6. Solver parameters";
  choice(P, "Solution algorithm", {"monolithic", "bouncing", "embracing"}, "monolithic", [](const Strip &s) {
    switch (s.solver_parameters.solution_algorithm)
      {
        case RTP::SolutionAlgorithm::Monolithic: return 0;
        case RTP::SolutionAlgorithm::Bouncing: return 1;
        case RTP::SolutionAlgorithm::Embracing: return 2;
      }
    return -1; });
  choice(P, "Boundary conditions at grain boundaries", {"microhard", "microfree", "microtraction"}, "microfree", [](const Strip &s) {
    switch (s.solver_parameters.boundary_conditions_at_grain_boundaries)
      {
        case RTP::BoundaryConditionsAtGrainBoundaries::Microhard: return 0;
        case RTP::BoundaryConditionsAtGrainBoundaries::Microfree: return 1;
        case RTP::BoundaryConditionsAtGrainBoundaries::Microtraction: return 2;
      }
    return -1; });
  boolean(P, "Allow decohesion at grain boundaries", "false", [](const Strip &s) { return s.solver_parameters.allow_decohesion; });
  boolean(P, "Skip extrapolation of start value", "false", [](const Strip &s) { return s.solver_parameters.flag_skip_extrapolation; });
  boolean(P, "Skip extrapolation of start value at extrema", "false", [](const Strip &s) { return s.solver_parameters.flag_skip_extrapolation_at_extrema; });
  real(P, "Extrapolation factor", 1e-2, 2, 0, inf, "1.0", [](const Strip &s) { return s.solver_parameters.extrapolation_factor; });
  boolean(P, "Zero damage evolution during un- and loading", "false", [](const Strip &s) { return s.solver_parameters.flag_zero_damage_during_loading_and_unloading; });
  boolean(P, "Print sparsity pattern", "false", [](const Strip &s) { return s.solver_parameters.print_sparsity_pattern; });
  boolean(P, "Output debug fields", "false", [](const Strip &s) { return s.solver_parameters.flag_output_debug_fields; });
  boolean(P, "Verbose", "false", [](const Strip &s) { return s.solver_parameters.verbose; });
  P = "2. Temporal discretization parameters";
  real(P, "Start time", 1e-2, 1, 0, inf, "0.0", [](const Strip &s) { return s.temporal_discretization_parameters.start_time; });
  real(P, "End time", 4, 100, 0, inf, "1.0", [](const Strip &s) { return s.temporal_discretization_parameters.end_time; });
  real(P, "Time step size", 1e-3, 1, 0, inf, "1e-1", [](const Strip &s) { return s.temporal_discretization_parameters.time_step_size; });
  P = "2. Temporal discretization parameters|Simple loading";
  choice(P, "Loading type", {"monotonic", "cyclic"}, "monotonic", [](const Strip &s) { return s.simple_loading.loading_type == RTP::LoadingType::Monotonic ? 0 : s.simple_loading.loading_type == RTP::LoadingType::Cyclic ? 1 : -1; });
  real(P, "Maximum load", 1e-1, 1, 0, inf, "1.0", [](const Strip &s) { return s.simple_loading.max_load; });
  real(P, "Minimum load", 1e-4, 1e-2, 0, inf, "0.0", [](const Strip &s) { return s.simple_loading.min_load; });
  P = "2. Temporal discretization parameters|Simple loading|Monotonic load parameters";
  real(P, "Duration of monotonic load", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return s.simple_loading.duration_monotonic_load; });
  integer(P, "Number of steps during monotonic load", 1, 1000, 1, "20", [](const Strip &s) { return s.simple_loading.n_steps_monotonic_load; });
  P = "2. Temporal discretization parameters|Simple loading|Cyclic load parameters";
  real(P, "Duration of un- and loading phase", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return s.simple_loading.duration_loading_and_unloading_phase; });
  integer(P, "Number of steps during un- and loading phase", 1, 1000, 1, "20", [](const Strip &s) { return s.simple_loading.n_steps_loading_and_unloading_phase; });
  real(P, "Period", 1e-2, 1e2, 0, inf, "1.0", [](const Strip &s) { return s.simple_loading.period; });
  integer(P, "Number of steps during a quarter cycle", 1, 100, 1, "5", [](const Strip &s) { return s.simple_loading.n_steps_quarter_period; });
  integer(P, "Number of cycles", 0, 100, 0, "1", [](const Strip &s) { return s.simple_loading.n_cycles; });
  boolean(P, "Skip unloading phase", "true", [](const Strip &s) { return s.simple_loading.flag_skip_unloading_phase; });
  P = "1. Spatial discretization parameters";
  integer(P, "Spatial dimension", 2, 3, 2, "2", [](const Strip &s) { return s.spatial_discretization.dim; });
  integer(P, "Mapping - Polynomial degree", 1, 5, 1, "1", [](const Strip &s) { return s.spatial_discretization.mapping_degree; });
  boolean(P, "Mapping - Apply to interior cells", "false", [](const Strip &s) { return s.spatial_discretization.flag_apply_mapping_to_interior_cells; });
  integer(P, "Number of global refinements", 0, 5, 0, "0", [](const Strip &s) { return s.spatial_discretization.n_global_refinements; });
  integer(P, "FE's polynomial degree - Displacements", 1, 5, 1, "2", [](const Strip &s) { return s.spatial_discretization.fe_degree_displacements; });
  integer(P, "FE's polynomial degree - Slips", 1, 5, 1, "1", [](const Strip &s) { return s.spatial_discretization.fe_degree_slips; });
  P = "1. Spatial discretization parameters|Problem specific parameters";
  real(P, "Height of the strip", 1e-3, 1e3, 0, inf, "1.0", [](const Strip &s) { return s.height; });
  integer(P, "Number of elements in y-direction", 1, 100000, 1, "100", [](const Strip &s) { return s.n_elements_in_y_direction; });
  integer(P, "Number of equally sized crystals in y-direction", 1, 1000, 1, "1", [](const Strip &s) { return s.n_equal_sized_crystals; });
  P = "0. Infinite strip parameters (Extended in 1. and 2.)|Loading parameters";
  choice(P, "Control type", {"load_control", "displacement_control"}, "displacement_control", [](const Strip &s) { return s.control_type == RTP::ControlType::Load ? 0 : s.control_type == RTP::ControlType::Displacement ? 1 : -1; });
  P = "3. Input parameters";
  text(P, "Slip normals path name", "input/crystal_structure/symmetric_double_slip_system/slip_normals", [](const Strip &s) { return s.input.slips_normals_pathname; });
  text(P, "Slip directions path name", "input/crystal_structure/symmetric_double_slip_system/slip_directions", [](const Strip &s) { return s.input.slips_directions_pathname; });
  text(P, "Euler angles path name", "input/crystal_orientation/euler_angles_0_30", [](const Strip &s) { return s.input.euler_angles_pathname; });
  P = "4. Output parameters";
  text(P, "Graphical output directory", "results/default/", [](const Strip &s) { return s.output.output_directory; });
  integer(P, "Graphical output frequency", 1, 100, 1, "1", [](const Strip &s) { return s.output.graphical_output_frequency; });
  integer(P, "Terminal output frequency", 1, 100, 0, "1", [](const Strip &s) { return s.output.terminal_output_frequency; });
  boolean(P, "Output damage variable field", "false", [](const Strip &s) { return s.output.flag_output_damage_variable; });
  boolean(P, "Output dimensionless quantities", "false", [](const Strip &s) { return s.output.flag_output_dimensionless_quantities; });
  boolean(P, "Output fluctuations fields", "false", [](const Strip &s) { return s.output.flag_output_fluctuations; });
  P = "5. Postprocessing parameters|Homogenization";
  boolean(P, "Compute homogenized quantities", "false", [](const Strip &s) { return s.homogenization.flag_compute_homogenized_quantities; });
  integer(P, "Homogenization frequency", 1, 100, 1, "1", [](const Strip &s) { return s.homogenization.homogenization_frequency; });
  boolean("", "Verbose", "false", [](const Strip &s) { return s.verbose; });
  return t;
}

static std::string draw(Rng &g, const Entry &e)
{
  char b[64];
  switch (e.kind)
    {
      case Real:
        std::snprintf(b, sizeof b, g.coin() ? "%.17g" : g.coin() ? "%.6e" : "%.4f", g.logu(e.lo, e.hi));
        if (std::strtod(b, nullptr) < e.lo * 0.5) std::snprintf(b, sizeof b, "%.17g", e.lo);
        return b;
      case Int: return cat(g.integer(int(e.lo), int(e.hi)));
      case Text: return cat("some/path_", g.next() % 100000, g.coin() ? "" : ".x");
      default: return g.pick(e.choices);
    }
}

static std::vector<std::string> split(const std::string &p)
{
  std::vector<std::string> r;
  std::istringstream       s(p);
  std::string              x;
  while (std::getline(s, x, '|')) r.push_back(x);
  return r;
}

// entries in any order, each in its own nest of subsections
static std::string print(Rng &g, const std::vector<std::pair<const Entry *, std::string>> &values, const std::string &extra = "")
{
  std::vector<unsigned> order(values.size());
  for (unsigned i = 0; i < order.size(); ++i) order[i] = i;
  for (unsigned i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.next() % i]);
  std::string o;
  for (unsigned i : order)
    {
      const auto sub = split(values[i].first->path);
      std::string ind;
      for (const auto &s : sub) { o += ind + "subsection " + s + "\n"; if (g.coin()) ind += "  "; }
      if (g.coin(0.1)) o += ind + "# a comment\n";
      o += ind + (g.coin() ? "set " : "  set ") + values[i].first->name + (g.coin() ? " = " : "=") + values[i].second + (g.coin(0.1) ? " # note" : "") + "\n";
      for (unsigned k = 0; k < sub.size(); ++k) o += "end\n";
    }
  return o + extra;
}

static const Entry *find(const std::string &path_end, const std::string &name)
{
  for (const Entry &e : table())
    if (e.name == name && (e.path.size() >= path_end.size() && e.path.compare(e.path.size() - path_end.size(), std::string::npos, path_end) == 0)) return &e;
  std::abort();
}

using Values = std::map<const Entry *, std::string>;

static Values draw_all(Rng &g, double p_set)
{
  Values v;
  for (const Entry &e : table())
    if (g.coin(p_set)) v[&e] = draw(g, e);
  const Entry *a = find("Vectorial microstress law's parameters", "Initial slip resistance");
  const Entry *b = find("Hardening law's parameters", "Initial slip resistance");
  v[a] = v[b] = draw(g, *a);
  const Entry *dl = find("Simple loading", "Maximum load"), *ml = find("Simple loading", "Minimum load");
  (void)dl; (void)ml;
  // start, end and step are mutually constrained; defaults only hold together
  const Entry *s0 = find("2. Temporal discretization parameters", "Start time"), *s1 = find("2. Temporal discretization parameters", "End time");
  if (v.count(s0) && !v.count(s1)) v[s1] = draw(g, *s1);
  v[find("4. Output parameters", "Graphical output directory")] = "out/";
  return v;
}

static std::string print(Rng &g, const Values &v, const std::string &extra = "")
{
  return print(g, std::vector<std::pair<const Entry *, std::string>>(v.begin(), v.end()), extra);
}

static std::unique_ptr<Strip> load(const std::string &text)
{
  std::ofstream("case.prm") << text;
  return std::make_unique<Strip>("case.prm");
}

static bool used(const Entry &e, const Values &v)
{
  auto val = [&](const Entry *x) { auto i = v.find(x); return i == v.end() ? x->def : i->second; };
  if (e.path.find("|Reference parameters") != std::string::npos)
    return val(find("Dimensionless formulation parameters", "Solve the dimensionless problem")) == "true";
  const std::string alg = val(find("6. Solver parameters", "Solution algorithm"));
  if (e.path.find("|Monolithic algorithm") != std::string::npos) return alg == "monolithic";
  if (e.path.find("|Staggered algorithm") != std::string::npos) return alg != "monolithic";
  return true;
}

static void compare(const Strip &s, const Values &v)
{
  auto real = [&](const char *p, const char *n) { const Entry *x = find(p, n); auto i = v.find(x); return std::strtod((i == v.end() ? x->def : i->second).c_str(), nullptr); };
  auto str = [&](const char *p, const char *n) { const Entry *x = find(p, n); auto i = v.find(x); return i == v.end() ? x->def : i->second; };
  for (const Entry &e : table())
    {
      if (!used(e, v)) continue;
      auto              i = v.find(&e);
      const std::string want = canonical(e, i == v.end() ? e.def : i->second), got = e.get(s);
      rep.check(got == want, cat("entry:", e.path.substr(e.path.rfind('|') + 1), "/", e.name), [&] { return cat("file says ", want, (i == v.end() ? " (default)" : ""), ", setting is ", got); });
      rep.count(i == v.end() ? "entries left at default" : "entries set");
    }
  // derived loading quantities
  const auto  &L = s.simple_loading;
  const double dm = real("Monotonic load parameters", "Duration of monotonic load"), nm = real("Monotonic load parameters", "Number of steps during monotonic load");
  const double dl = real("Cyclic load parameters", "Duration of un- and loading phase"), nl = real("Cyclic load parameters", "Number of steps during un- and loading phase");
  const double T = real("Cyclic load parameters", "Period"), nq = real("Cyclic load parameters", "Number of steps during a quarter cycle"), nc = real("Cyclic load parameters", "Number of cycles");
  const bool   skip = str("Cyclic load parameters", "Skip unloading phase") == "true", mono = str("Simple loading", "Loading type") == "monotonic";
  auto near = [&](double a, double b, const char *k) { rep.close(a, b, 1e-12 * (1 + std::fabs(b)), k); };
  near(L.time_step_size_monotonic_load, dm / nm, "derived:monotonic step");
  near(L.time_step_size_loading_and_unloading_phase, dl / nl, "derived:loading step");
  near(L.time_step_size_cyclic_phase, T / 4 / nq, "derived:cyclic step");
  near(L.start_of_cyclic_phase, L.start_time + dl, "derived:start of cyclic phase");
  near(L.start_of_unloading_phase, L.start_time + dl + nc * T, "derived:start of unloading");
  near(L.end_time, L.start_time + (mono ? dm : dl * (skip ? 1 : 2) + nc * T), "derived:end time");
  rep.check(s.solver_parameters.logger_output_directory == s.output.output_directory, "derived:logger directory");
  // derived dimensionless quantities
  const auto &D = s.solver_parameters.dimensionless_form_parameters;
  const auto &c = D.characteristic_quantities;
  if (D.flag_solve_dimensionless_problem)
    {
      const double S0 = real("Vectorial microstress law's parameters", "Initial slip resistance"), p = real("Vectorial microstress law's parameters", "Defect energy index"), ell = real("Vectorial microstress law's parameters", "Energetic length scale"), H = real("Hardening law's parameters", "Linear hardening modulus");
      auto rel = [&](double a, double b, const char *k) { rep.check(std::fabs(a - b) <= 1e-9 * std::fabs(b), k, [&] { return cat("got ", a, " expected ", b); }); };
      rel(c.strain, c.displacement / c.length, "derived:strain");
      rel(c.stress, c.stiffness * c.displacement / c.length, "derived:stress");
      rel(c.resolved_shear_stress, c.stress, "derived:rss");
      rel(c.macro_traction, c.stress, "derived:macro traction");
      rel(c.micro_traction, S0 * std::pow(ell, p) * std::pow(c.length, 1 - p), "derived:micro traction");
      rel(c.body_force, c.stress / c.length, "derived:body force");
      rel(c.dislocation_density, 1 / c.length, "derived:dislocation density");
      rel(D.dimensionless_numbers[0], c.length / c.displacement, "derived:number 0");
      rel(D.dimensionless_numbers[1], H / c.slip_resistance, "derived:number 1");
      rel(D.dimensionless_numbers[2], S0 / c.slip_resistance * std::pow(ell / c.length, p), "derived:number 2");
      rel(D.dimensionless_numbers[3], c.stress / c.slip_resistance, "derived:number 3");
      rep.count("dimensionless files");
    }
  else
    {
      for (double x : {c.length, c.time, c.displacement, c.stiffness, c.slip_resistance, c.strain, c.stress, c.resolved_shear_stress, c.macro_traction, c.micro_traction, c.body_force, c.dislocation_density})
        rep.check(x == 1.0, "dimensional:characteristic quantity", [&] { return cat(x); });
      for (double x : D.dimensionless_numbers) rep.check(x == 1.0, "dimensional:number", [&] { return cat(x); });
      rep.count("dimensional files");
    }
}

static void refuse(const std::string &key, const std::string &text)
{
  ++rep.checks;
  try { load(text); }
  catch (const std::exception &e)
    {
      rep.check(std::string(e.what()).size() > 10, "refusal-without-message");
      rep.count("files refused");
      return;
    }
  rep.viol(key, "accepted");
}
} // namespace params

void p12(Rng &g)
{
  using namespace params;
  const unsigned n = tier.n(60);
  for (unsigned it = 0; it < n; ++it)
    {
      const Values      v = draw_all(g, g.pick(std::vector<double>{1.0, 0.9, 0.5, 0.05}));
      const std::string text = print(g, v);
      rep.begin(cat("valid file\n", text));
      rep.nontrivial(text);
      guarded("valid-file-refused", [&] { compare(*load(text), v); });
      // the copy kept with the results configures the same again
      if (it % 5 == 0)
        guarded("copy-of-parameters", [&] {
          std::ifstream     f("out/parameter_file.prm");
          std::stringstream ss;
          ss << f.rdbuf();
          rep.check(!ss.str().empty(), "copy-missing");
          compare(*load(ss.str()), v);
          rep.count("copies read back");
        });
      rep.sample(text.substr(0, 300));
    }
  // invalid files: one thing wrong in a file otherwise right
  for (unsigned round = 0; round < tier.n(1, 5); ++round)
    for (unsigned k = 0; k < table().size(); ++k)
      {
        const Entry &e = table()[k];
        if (e.kind == Text || (!tier.thorough && (k + tier.seed) % 2)) continue; // the other half in other shards
        std::vector<std::string> bad = {"nonsense", "1.0.0", "--3"};
        if (e.kind == Real || e.kind == Int)
          {
            bad.push_back(cat(e.decl_lo - g.logu(1e-3, 10)));
            if (e.kind == Int) { bad.push_back(cat(long(e.decl_lo) - 1)); bad.push_back("2.5"); }
            if (e.decl_hi < 2) bad.push_back(cat(e.decl_hi + g.logu(1e-3, 10)));
          }
        for (const auto &b : bad)
          {
            Values            v = draw_all(g, 0.05);
            v[&e] = b;
            const std::string text = print(g, v);
            rep.begin(cat("out of range: ", e.path, "/", e.name, " = ", b));
            rep.nontrivial(rep.current);
            refuse(cat("bad-value-accepted:", e.path.substr(e.path.rfind('|') + 1), "/", e.name), text);
          }
      }
  for (unsigned it = 0; it < tier.n(20); ++it)
    {
      // unknown names
      Values        v = draw_all(g, 0.1);
      const Entry  &e = g.pick(table());
      Entry         x = e;
      x.name = g.coin() ? e.name + "s" : e.name.substr(0, e.name.size() - 1);
      if (!v.empty())
        {
          std::vector<std::pair<const Entry *, std::string>> w(v.begin(), v.end());
          w.push_back({&x, e.def});
          const std::string text = print(g, w);
          rep.begin(cat("unknown entry: ", x.path, "/", x.name));
          refuse("unknown-entry-accepted", text);
        }
      x = e;
      x.path = e.path + (e.path.empty() ? "Nowhere" : "|Nowhere");
      {
        std::vector<std::pair<const Entry *, std::string>> w(v.begin(), v.end());
        w.push_back({&x, e.def});
        const std::string text = print(g, w);
        rep.begin(cat("unknown subsection: ", x.path));
        refuse("unknown-subsection-accepted", text);
      }
      // one subsection not closed
      {
        const std::string text = "subsection 4. Output parameters\n" + print(g, v);
        rep.begin("unbalanced subsections");
        refuse("unbalanced-accepted", text);
      }
    }
  // documented inconsistent combinations
  struct Bad { const char *what; std::function<void(Values &)> f; };
  auto set = [](Values &v, const char *p, const char *n, const std::string &x) { v[find(p, n)] = x; };
  std::vector<Bad> bad;
  const char *C = "6. Solver parameters|Constitutive laws' parameters|";
  (void)C;
  bad.push_back({"C1111 zero", [&](Values &v) { set(v, "Hooke-Law's parameters", "C1111", "0"); }});
  bad.push_back({"C1122 zero", [&](Values &v) { set(v, "Hooke-Law's parameters", "C1122", "0.0"); }});
  bad.push_back({"C1212 zero", [&](Values &v) { set(v, "Hooke-Law's parameters", "C1212", "0"); }});
  bad.push_back({"scalar regularization zero", [&](Values &v) { set(v, "Scalar microstress law's parameters", "Regularization parameter", "0"); }});
  bad.push_back({"vectorial regularization zero", [&](Values &v) { set(v, "Vectorial microstress law's parameters", "Regularization parameter", "0"); }});
  bad.push_back({"slip resistances differ", [&](Values &v) { set(v, "Vectorial microstress law's parameters", "Initial slip resistance", "50"); set(v, "Hardening law's parameters", "Initial slip resistance", "51"); }});
  bad.push_back({"end before start", [&](Values &v) { set(v, "2. Temporal discretization parameters", "Start time", "2"); set(v, "2. Temporal discretization parameters", "End time", "1"); }});
  bad.push_back({"step longer than the run", [&](Values &v) { set(v, "2. Temporal discretization parameters", "Start time", "0"); set(v, "2. Temporal discretization parameters", "End time", "1"); set(v, "2. Temporal discretization parameters", "Time step size", "1.5"); }});
  bad.push_back({"zero step", [&](Values &v) { set(v, "2. Temporal discretization parameters", "Time step size", "0"); }});
  bad.push_back({"load maximum below minimum", [&](Values &v) { set(v, "Simple loading", "Maximum load", "0.1"); set(v, "Simple loading", "Minimum load", "0.2"); }});
  bad.push_back({"load maximum equals minimum", [&](Values &v) { set(v, "Simple loading", "Maximum load", "0.1"); set(v, "Simple loading", "Minimum load", "0.1"); }});
  bad.push_back({"period zero", [&](Values &v) { set(v, "Cyclic load parameters", "Period", "0"); }});
  bad.push_back({"duration zero", [&](Values &v) { set(v, "Monotonic load parameters", "Duration of monotonic load", "0"); }});
  bad.push_back({"dimension four", [&](Values &v) { set(v, "1. Spatial discretization parameters", "Spatial dimension", "4"); }});
  bad.push_back({"height zero", [&](Values &v) { set(v, "Problem specific parameters", "Height of the strip", "0"); }});
  bad.push_back({"block preconditioner", [&](Values &v) { set(v, "6. Solver parameters", "Solution algorithm", "monolithic"); }});
  const std::string systems[] = {"Monolithic algorithm", "Staggered algorithm|Linear momentum balance", "Staggered algorithm|Pseudo-balance"};
  for (const std::string &y : systems)
    {
      const bool m = y[0] == 'M';
      auto alg = [set, m](Values &v) { set(v, "6. Solver parameters", "Solution algorithm", m ? "monolithic" : "bouncing"); };
      auto add = [&](const char *what, const std::string &sub, const char *n1, const char *v1, const char *n2 = nullptr, const char *v2 = nullptr) {
        const std::string p = y + "|" + sub;
        bad.push_back({what, [=](Values &v) { alg(v); set(v, p.c_str(), n1, v1); if (n2) set(v, p.c_str(), n2, v2); }});
      };
      add("Krylov relative tolerance zero", "Krylov parameters", "Relative tolerance", "0");
      add("Krylov absolute tolerance zero", "Krylov parameters", "Absolute tolerance", "0");
      add("Krylov tolerances inverted", "Krylov parameters", "Relative tolerance", "1e-9", "Absolute tolerance", "1e-8");
      add("Newton relative tolerance zero", "Newton-Raphson parameters", "Relative tolerance of the residual", "0");
      add("Newton absolute tolerance zero", "Newton-Raphson parameters", "Absolute tolerance of the residual", "0");
      add("Newton tolerances inverted", "Newton-Raphson parameters", "Relative tolerance of the residual", "1e-9", "Absolute tolerance of the residual", "1e-8");
      add("alpha zero", "Line search parameters", "Alpha condition constant", "0");
      add("beta below alpha", "Line search parameters", "Alpha condition constant", "0.5", "Beta condition constant", "0.4");
      add("beta one", "Line search parameters", "Beta condition constant", "1.0");
    }
  for (unsigned it = 0; it < tier.n(1, 20); ++it)
    for (const Bad &b : bad)
      {
        Values v = draw_all(g, 0.2);
        b.f(v);
        std::string extra;
        if (std::string(b.what) == "block preconditioner") extra = "subsection 6. Solver parameters\nsubsection Monolithic algorithm\nset Monolithic preconditioner = block\nend\nend\n";
        const std::string text = print(g, v, extra);
        rep.begin(cat("inconsistent: ", b.what, "\n", text));
        rep.nontrivial(cat("inconsistent ", b.what));
        refuse(cat("inconsistent-accepted:", b.what), text);
      }
  // a missing file: reported, template of the defaults left behind
  for (int it = 0; it < 2; ++it)
    {
      const std::string name = cat("new_", it, ".prm");
      rep.begin(cat("missing file ", name));
      rep.nontrivial(rep.current);
      bool thrown = false;
      try { Strip s(name); }
      catch (const std::exception &) { thrown = true; }
      rep.check(thrown, "missing-file-not-reported");
      guarded("template", [&] {
        std::ifstream     f(name);
        std::stringstream ss;
        ss << f.rdbuf();
        rep.check(!ss.str().empty(), "template-missing");
        const std::filesystem::path here = std::filesystem::current_path();
        compare(*load(ss.str()), Values());
      });
    }
  // three-dimensional runs take the files with the suffix when all are there
  for (unsigned it = 0; it < 16; ++it)
    {
      const bool three = it & 8;
      for (int k = 0; k < 3; ++k)
        {
          std::remove(cat("in", k, "_3d.txt").c_str());
          if (it >> k & 1) std::ofstream(cat("in", k, "_3d.txt")) << "x\n";
        }
      Values v = draw_all(g, 0.1);
      set(v, "1. Spatial discretization parameters", "Spatial dimension", three ? "3" : "2");
      set(v, "3. Input parameters", "Slip normals path name", "in0");
      set(v, "3. Input parameters", "Slip directions path name", "in1");
      set(v, "3. Input parameters", "Euler angles path name", "in2");
      const std::string text = print(g, v);
      rep.begin(cat("input files ", it));
      rep.nontrivial(rep.current);
      guarded("input-files", [&] {
        auto s = load(text);
        const std::string suffix = three && (it & 7) == 7 ? "_3d" : "";
        rep.check(s->input.slips_normals_pathname == "in0" + suffix && s->input.slips_directions_pathname == "in1" + suffix && s->input.euler_angles_pathname == "in2" + suffix, "input-file-suffix",
                  [&] { return s->input.slips_normals_pathname + " " + s->input.slips_directions_pathname + " " + s->input.euler_angles_pathname; });
      });
    }
}

// ------------------------------------------------------- loading programme

template <int dim> static void programme(Rng &g, RTP::SimpleLoading &L)
{
  const bool   cyclic = L.loading_type != RTP::LoadingType::Monotonic;
  const double dl = L.duration_loading_and_unloading_phase, T = L.period;
  const double h = g.logu(1e-2, 1e2), chi = g.logu(1e-2, 1e2);
  const unsigned nc = g.integer(1, 6);
  const bool     deco = g.coin();
  const unsigned comp = g.integer(0, dim - 1), ncomp = deco ? dim * nc : dim;
  // some slip components behind the displacements, which must stay zero
  const unsigned extra = g.integer(0, 6);
  gCP::BoundaryConditions::DisplacementControl<dim> bc(L, ncomp + extra, nc, h, deco, chi, comp);
  rep.begin(cat("dim ", dim, " ", cyclic ? "cyclic" : "monotonic", " skip unloading ", L.flag_skip_unloading_phase, " height ", h, " char ", chi, " crystals ", nc, " decohesion ", deco, " component ", comp,
                " max ", L.max_load, " min ", L.min_load, " loading ", dl, " in ", L.n_steps_loading_and_unloading_phase, " period ", T, " quarter steps ", L.n_steps_quarter_period, " cycles ", L.n_cycles,
                " monotonic ", L.duration_monotonic_load, " in ", L.n_steps_monotonic_load));
  rep.nontrivial(rep.current);
  rep.sample(rep.current);
  const double mean = 0.5 * (L.max_load + L.min_load), amp = 0.5 * (L.max_load - L.min_load);
  const double c0 = L.start_time + dl, u0 = c0 + L.n_cycles * T;
  // the strain the programme asks for
  auto strain = [&](double t) {
    if (!cyclic) return L.max_load * t;
    if (t <= c0) return mean * (t - L.start_time) / dl;
    if (t <= u0) return mean + amp * std::sin(2 * M_PI * (t - c0) / T);
    return mean * (1 - (t - u0) / dl);
  };
  auto look = [&](double t) {
    bc.set_time(t);
    Point<dim> p, q;
    for (int d = 0; d < dim; ++d) { p[d] = g.uni(-5, 5); q[d] = g.uni(-5, 5); }
    Vector<double> v(ncomp + extra), w(ncomp + extra);
    v = 17.; w = -3.;
    bc.vector_value(p, v);
    bc.vector_value(q, w);
    const double scale = h * L.max_load * (1 + std::fabs(t)) / chi;
    const double want = h * strain(t) / chi;
    for (unsigned i = 0; i < ncomp + extra; ++i)
      {
        const bool sheared = i < ncomp && i % dim == comp;
        if (sheared) rep.close(v[i], want, 1e-9 * scale, cyclic ? (t < c0 - 1e-9 * dl ? "cyclic:ramp" : t < u0 - 1e-9 * dl ? "cyclic:oscillation" : "cyclic:unloading") : "monotonic");
        else rep.check(v[i] == 0, "other-component-moved", [&] { return cat("component ", i, " = ", v[i]); });
        rep.check(v[i] == w[i], "depends-on-position");
      }
    rep.count(cyclic ? "cyclic values" : "monotonic values");
    return v[comp] * chi / h;
  };
  // step through the schedule as the application does
  double       t = L.start_time, lo = 1e300, hi = -1e300;
  unsigned     step = 0;
  const unsigned n1 = L.n_steps_loading_and_unloading_phase, n2 = 4 * L.n_steps_quarter_period * L.n_cycles;
  const unsigned n = cyclic ? n1 + n2 + (L.flag_skip_unloading_phase ? 0 : n1) : L.n_steps_monotonic_load;
  rep.check(look(t) == 0, "not-zero-at-start");
  for (; step < n; ++step)
    {
      const double dt = L.get_next_time_step_size(step);
      if (!rep.check(std::isfinite(dt) && dt > 0, "step-not-positive", [&] { return cat(dt); })) return;
      const double want_dt = !cyclic ? L.duration_monotonic_load / L.n_steps_monotonic_load : step < n1 || step >= n1 + n2 ? dl / n1 : T / 4 / L.n_steps_quarter_period;
      rep.close(dt, want_dt, 1e-12 * want_dt, "step-size");
      t += dt;
      const unsigned s = step + 1;
      if (cyclic)
        {
          if (s == n1) rep.close(t, c0, 1e-9 * c0, "phase-end:loading");
          if (s == n1 + n2) rep.close(t, u0, 1e-9 * u0, "phase-end:cycles");
        }
      if (s == n) rep.close(t, L.end_time, 1e-9 * L.end_time, "end-time");
      const double e = look(t);
      if (cyclic && s >= n1 && s <= n1 + n2) { lo = std::min(lo, e); hi = std::max(hi, e); }
      rep.count("steps");
    }
  if (cyclic && L.n_cycles > 0)
    {
      rep.close(hi, L.max_load, 1e-9 * L.max_load, "maximum-load-missed");
      rep.close(lo, L.min_load, 1e-9 * L.max_load, "minimum-load-missed");
    }
  // between the steps too
  for (int k = 0; k < 10; ++k) look(g.uni(L.start_time, L.end_time));
  // where the guess is not to be extrapolated: the first step of a phase and the
  // steps that leave an extremum
  for (unsigned s = 0; s < n + 3; ++s)
    {
      bool want = false;
      if (L.loading_type == RTP::LoadingType::Cyclic)
        {
          if (s == n1 || s == n1 + n2) want = true;
          else if (s > n1 && s < n1 + n2)
            {
              const unsigned k = (s - n1) % (4 * L.n_steps_quarter_period);
              want = k == L.n_steps_quarter_period || k == 3 * L.n_steps_quarter_period;
            }
        }
      rep.check(L.skip_extrapolation(s) == want, want ? "extrapolation-not-skipped" : "extrapolation-skipped", [&] { return cat("step ", s); });
      rep.count("extrapolation decisions");
    }
}

void p13(Rng &g)
{
  using namespace params;
  for (unsigned it = 0; it < tier.n(150); ++it)
    {
      Values v = draw_all(g, 0);
      auto set = [&](const char *p, const char *n, const std::string &x) { v[find(p, n)] = x; };
      const double max = g.logu(1e-4, 1), min = g.coin(0.2) ? 0 : max * g.uni(0, 0.99);
      set("Simple loading", "Loading type", it % 3 == 0 ? "monotonic" : "cyclic");
      set("Simple loading", "Maximum load", cat(max));
      set("Simple loading", "Minimum load", cat(min));
      set("Monotonic load parameters", "Duration of monotonic load", g.coin() ? "1.0" : cat(g.logu(1e-2, 1e2)));
      set("Monotonic load parameters", "Number of steps during monotonic load", cat(g.integer(1, 60)));
      set("Cyclic load parameters", "Duration of un- and loading phase", g.coin() ? "1.0" : cat(g.logu(1e-2, 1e2)));
      set("Cyclic load parameters", "Number of steps during un- and loading phase", cat(g.integer(1, 30)));
      set("Cyclic load parameters", "Period", g.coin() ? "1.0" : cat(g.logu(1e-2, 1e2)));
      set("Cyclic load parameters", "Number of steps during a quarter cycle", cat(g.integer(1, 8)));
      set("Cyclic load parameters", "Number of cycles", cat(g.integer(0, 6)));
      set("Cyclic load parameters", "Skip unloading phase", g.coin() ? "true" : "false");
      const std::string text = print(g, v);
      std::unique_ptr<Strip> s;
      rep.begin(cat("loading\n", text));
      if (!guarded("parse", [&] { s = load(text); })) continue;
      guarded("programme", [&] {
        if (it % 2) programme<2>(g, s->simple_loading);
        else programme<3>(g, s->simple_loading);
      });
    }
}
