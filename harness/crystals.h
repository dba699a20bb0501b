// Crystals as the harnesses generate, write and independently rotate them.
#pragma once
#include "common.h"

#include <gCP/crystal_data.h>
#include <gCP/run_time_parameters.h>

#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>

using namespace dealii;
using namespace V;
namespace RTP = gCP::RunTimeParameters;

// ---------------------------------------------------------------- crystals

template <int dim> struct Crystals
{
  std::vector<std::vector<double>>    euler;        // as written to the file
  std::vector<std::vector<double>>    dirs, normals; // as written to the file
  std::vector<Tensor<2, dim>>         R;
  std::vector<Tensor<2, 3>>           R3;
  std::vector<std::vector<Tensor<1, dim>>> m, n, l; // expected, per crystal
  unsigned                            nc = 0, ns = 0;
  std::shared_ptr<gCP::CrystalsData<dim>> data;
};

static std::string number(Rng &g, double v)
{
  char b[64];
  if (v == std::floor(v) && std::fabs(v) < 1e6)
    std::snprintf(b, sizeof b, g.coin() ? "%.1f" : "%.0f", v);
  else
    std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}

static void write_rows(Rng &g, const std::string &name,
                       const std::vector<std::vector<double>> &rows)
{
  std::ofstream o(name + ".txt");
  for (const auto &r : rows)
    {
      for (unsigned i = 0; i < r.size(); ++i)
        o << (i ? (g.coin() ? "," : ", ") : "") << number(g, r[i]);
      o << "\n";
    }
  if (g.coin(0.3)) o << "\n";
}

static double any_angle(Rng &g)
{
  if (g.coin(0.35)) return 15. * g.integer(-24, 24);
  return g.uni(-400., 400.);
}

static Tensor<2, 3> rot_z(double a)
{
  Tensor<2, 3> r;
  r[0][0] = std::cos(a); r[0][1] = -std::sin(a); r[1][0] = std::sin(a); r[1][1] = std::cos(a); r[2][2] = 1;
  return r;
}
static Tensor<2, 3> rot_x(double a)
{
  Tensor<2, 3> r;
  r[0][0] = 1; r[1][1] = std::cos(a); r[1][2] = -std::sin(a); r[2][1] = std::sin(a); r[2][2] = std::cos(a);
  return r;
}

// the expected systems from what is written in the files
template <int dim> void rotate(Crystals<dim> &c)
{
  const int nc = c.nc, ns = c.ns;
  const double d2r = std::acos(-1.0) / 180.;
  for (int i = 0; i < nc; ++i)
    {
      Tensor<2, 3> R3;
      if (dim == 2) R3 = rot_z(c.euler[i][0] * d2r);
      else R3 = rot_z(c.euler[i][0] * d2r) * rot_x(c.euler[i][1] * d2r) * rot_z(c.euler[i][2] * d2r);
      Tensor<2, dim> R;
      for (int a = 0; a < dim; ++a)
        for (int b = 0; b < dim; ++b) R[a][b] = R3[a][b];
      c.R.push_back(R);
      c.R3.push_back(R3);
      std::vector<Tensor<1, dim>> mm, nn, ll;
      for (int s = 0; s < ns; ++s)
        {
          Tensor<1, dim> m, n, l;
          for (int a = 0; a < dim; ++a) m[a] = c.dirs[s][a], n[a] = c.normals[s][a];
          m /= m.norm();
          n /= n.norm();
          m = R * m;
          n = R * n;
          if constexpr (dim == 3) l = cross_product_3d(n, m);
          mm.push_back(m);
          nn.push_back(n);
          ll.push_back(l);
        }
      c.m.push_back(mm);
      c.n.push_back(nn);
      c.l.push_back(ll);
    }
}

template <int dim> Crystals<dim> make_crystals(Rng &g, int nc, int ns)
{
  Crystals<dim> c;
  c.nc = nc;
  c.ns = ns;
  for (int i = 0; i < nc; ++i)
    {
      std::vector<double> e;
      if (i > 0 && g.coin(0.25)) e = c.euler[g.integer(0, i - 1)]; // same orientation twice
      else
        for (int k = 0; k < (dim == 2 ? 1 : 3); ++k) e.push_back(any_angle(g));
      c.euler.push_back(e);
    }
  for (int s = 0; s < ns; ++s)
    {
      // small integers: the scalar product of the written numbers is exactly zero
      std::vector<double> n(dim), m(dim);
      double              sc = std::ldexp(1.0, g.integer(-2, 2)), sc2 = std::ldexp(1.0, g.integer(-2, 2));
      for (;;)
        {
          for (auto &v : n) v = g.integer(-3, 3);
          if (dim == 2)
            {
              int k = g.coin() ? 1 : -1;
              m[0] = -n[1] * k;
              m[1] = n[0] * k;
            }
          else
            {
              double a[3] = {double(g.integer(-2, 2)), double(g.integer(-2, 2)), double(g.integer(-2, 2))};
              m[0] = n[1] * a[2 % dim] - n[2 % dim] * a[1];
              m[1] = n[2 % dim] * a[0] - n[0] * a[2 % dim];
              m[2 % dim] = n[0] * a[1] - n[1] * a[0];
            }
          double nn = 0, mm = 0;
          for (int i = 0; i < dim; ++i) nn += n[i] * n[i], mm += m[i] * m[i];
          if (nn > 0 && mm > 0) break;
        }
      for (auto &v : n) v *= sc;
      for (auto &v : m) v *= sc2;
      c.normals.push_back(n);
      c.dirs.push_back(m);
    }
  rotate(c);
  return c;
}

template <int dim> void make_mesh(Triangulation<dim> &tria, unsigned nc, unsigned per = 1)
{
  std::vector<unsigned> rep(dim, 1);
  rep[dim - 1] = nc * per;
  Point<dim> a, b;
  for (int i = 0; i < dim; ++i) b[i] = (i == dim - 1) ? double(nc) : 1.0;
  GridGenerator::subdivided_hyper_rectangle(tria, rep, a, b);
  for (auto &cell : tria.active_cell_iterators())
    cell->set_material_id(std::min(unsigned(cell->center()[dim - 1]), nc - 1));
}

template <int dim> std::string describe(const Crystals<dim> &c)
{
  std::ostringstream o;
  o << std::setprecision(17) << "dim=" << dim << " euler=";
  for (auto &e : c.euler) { o << "("; for (auto v : e) o << v << " "; o << ")"; }
  o << " m=";
  for (auto &e : c.dirs) { o << "("; for (auto v : e) o << v << " "; o << ")"; }
  o << " n=";
  for (auto &e : c.normals) { o << "("; for (auto v : e) o << v << " "; o << ")"; }
  return o.str();
}

template <int dim> void load(Rng &g, Crystals<dim> &c, const Triangulation<dim> &tria)
{
  write_rows(g, "eu", c.euler);
  write_rows(g, "dir", c.dirs);
  write_rows(g, "nor", c.normals);
  c.data = std::make_shared<gCP::CrystalsData<dim>>();
  c.data->init(tria, "eu", "dir", "nor");
}

// crystals ready for the laws
template <int dim> Crystals<dim> ready_crystals(Rng &g, int nc, int ns)
{
  auto               c = make_crystals<dim>(g, nc, ns);
  Triangulation<dim> tria;
  make_mesh(tria, nc);
  load(g, c, tria);
  return c;
}

template <int dim> SymmetricTensor<2, dim> schmid(const Crystals<dim> &c, unsigned k, unsigned s)
{
  SymmetricTensor<2, dim> p;
  for (int i = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j)
      p[i][j] = 0.5 * (c.m[k][s][i] * c.n[k][s][j] + c.m[k][s][j] * c.n[k][s][i]);
  return p;
}

template <int dim> SymmetricTensor<2, dim> any_sym(Rng &g, double scale)
{
  SymmetricTensor<2, dim> t;
  for (int i = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j) t[i][j] = g.coin(0.15) ? 0.0 : scale * g.uni(-1, 1);
  return t;
}
template <int dim> Tensor<1, dim> any_vec(Rng &g, double scale)
{
  Tensor<1, dim> t;
  for (int i = 0; i < dim; ++i) t[i] = g.coin(0.15) ? 0.0 : scale * g.uni(-1, 1);
  return t;
}
template <int dim> Tensor<1, dim> any_unit(Rng &g)
{
  Tensor<1, dim> t;
  if (g.coin(0.3)) { t[g.integer(0, dim - 1)] = g.coin() ? 1 : -1; return t; }
  do for (int i = 0; i < dim; ++i) t[i] = g.uni(-1, 1);
  while (t.norm() < 0.1);
  return t / t.norm();
}


static double reg_ref(RTP::RegularizationFunction f, double r, double p)
{
  const long double x = (long double)r / p, pi = std::acos(-1.0L);
  switch (f)
    {
      case RTP::RegularizationFunction::Atan: return 2 / pi * std::atan(pi / 2 * x);
      case RTP::RegularizationFunction::Sqrt: return x / std::sqrt(1 + x * x);
      case RTP::RegularizationFunction::Gd:
        return 4 / pi * std::atan(std::tanh(pi / 4 * x)); // Gudermannian, second form
      case RTP::RegularizationFunction::Tanh: return std::tanh(x);
      default: return std::erf(std::sqrt(pi) / 2 * x);
    }
}
static double dreg_ref(RTP::RegularizationFunction f, double r, double p)
{
  const long double x = (long double)r / p, pi = std::acos(-1.0L);
  switch (f)
    {
      case RTP::RegularizationFunction::Atan: return 1 / (1 + pi * pi * x * x / 4) / p;
      case RTP::RegularizationFunction::Sqrt: return 1 / std::pow(1 + x * x, 1.5L) / p;
      case RTP::RegularizationFunction::Gd: return 1 / std::cosh(pi / 2 * x) / p;
      case RTP::RegularizationFunction::Tanh: { long double c = std::cosh(x); return 1 / (c * c) / p; }
      default: return std::exp(-pi * x * x / 4) / p;
    }
}
static const char *reg_name(RTP::RegularizationFunction f)
{
  const char *s[] = {"atan", "sqrt", "gd", "tanh", "erf"};
  return s[int(f)];
}

