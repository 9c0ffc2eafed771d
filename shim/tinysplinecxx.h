// A minimal stand-in for the part of tinyspline's C++ interface that MISO
// uses (BSpline with scalar/vector control points, de Boor evaluation,
// derive()), written for /verif because tinyspline is not available offline.
#ifndef VERIF_SHIM_TINYSPLINECXX_H
#define VERIF_SHIM_TINYSPLINECXX_H

#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>

namespace tinyspline
{
typedef double real;

class DeBoorNet
{
public:
   explicit DeBoorNet(std::vector<real> r) : r_(std::move(r)) { }
   std::vector<real> result() const { return r_; }

private:
   std::vector<real> r_;
};

class BSpline
{
public:
   enum Type { Opened, Clamped, Beziers };
   explicit BSpline(std::size_t n = 1, std::size_t dim = 1, std::size_t degree = 0)
    : dim_(dim), deg_(degree), ctrl_(n * dim, 0.0), knots_(n + degree + 1)
   {
      if (n <= degree)
      {
         throw std::runtime_error("num(control points) <= degree");
      }
      // clamped, uniform on [0, 1]
      const std::size_t nk = knots_.size();
      const double nin = static_cast<double>(n - degree);
      for (std::size_t i = 0; i < nk; ++i)
      {
         knots_[i] = i <= degree ? 0.0
                     : i >= n    ? 1.0
                                 : static_cast<double>(i - degree) / nin;
      }
   }
   std::size_t degree() const { return deg_; }
   std::size_t order() const { return deg_ + 1; }
   std::size_t dimension() const { return dim_; }
   std::size_t numControlPoints() const { return ctrl_.size() / dim_; }
   std::vector<real> controlPoints() const { return ctrl_; }
   std::vector<real> knots() const { return knots_; }
   void setControlPoints(const std::vector<real> &c)
   {
      if (c.size() != ctrl_.size())
      {
         throw std::runtime_error("Expected size of control points differs");
      }
      ctrl_ = c;
   }
   void setKnots(const std::vector<real> &k)
   {
      if (k.size() != knots_.size())
      {
         throw std::runtime_error("Expected size of knots differs");
      }
      for (std::size_t i = 1; i < k.size(); ++i)
      {
         if (k[i] < k[i - 1])
         {
            throw std::runtime_error("decreasing knot vector");
         }
      }
      knots_ = k;
   }
   DeBoorNet eval(real u) const
   {
      const std::size_t n = numControlPoints();
      const double lo = knots_[deg_], hi = knots_[n];
      const double eps = 1e-4;
      if (u < lo)
      {
         if (lo - u < eps) { u = lo; }
         else { throw std::runtime_error("knot undefined (u < min)"); }
      }
      if (u > hi)
      {
         if (u - hi < eps) { u = hi; }
         else { throw std::runtime_error("knot undefined (u > max)"); }
      }
      if (std::isnan(u))
      {
         throw std::runtime_error("knot undefined (nan)");
      }
      // span k with knots[k] <= u < knots[k+1] (last non-empty span for u = hi)
      std::size_t k = deg_;
      for (std::size_t i = deg_; i < n; ++i)
      {
         if (knots_[i] < knots_[i + 1] && knots_[i] <= u)
         {
            k = i;
         }
      }
      std::vector<double> d((deg_ + 1) * dim_);
      for (std::size_t j = 0; j <= deg_; ++j)
      {
         for (std::size_t c = 0; c < dim_; ++c)
         {
            d[j * dim_ + c] = ctrl_[(j + k - deg_) * dim_ + c];
         }
      }
      for (std::size_t r = 1; r <= deg_; ++r)
      {
         for (std::size_t j = deg_; j >= r; --j)
         {
            const double a0 = knots_[j + k - deg_], a1 = knots_[j + 1 + k - r];
            const double al = (u - a0) / (a1 - a0);
            for (std::size_t c = 0; c < dim_; ++c)
            {
               d[j * dim_ + c] =
                   (1.0 - al) * d[(j - 1) * dim_ + c] + al * d[j * dim_ + c];
            }
         }
      }
      return DeBoorNet(
          std::vector<real>(d.begin() + deg_ * dim_, d.begin() + (deg_ + 1) * dim_));
   }
   DeBoorNet operator()(real u) const { return eval(u); }
   BSpline derive(std::size_t times = 1) const
   {
      BSpline s(*this);
      for (std::size_t t = 0; t < times; ++t)
      {
         s = s.derive1();
      }
      return s;
   }

private:
   std::size_t dim_, deg_;
   std::vector<real> ctrl_, knots_;
   BSpline derive1() const
   {
      const std::size_t n = numControlPoints();
      if (deg_ == 0)
      {
         BSpline z(*this);
         for (auto &c : z.ctrl_) { c = 0.0; }
         return z;
      }
      BSpline s(n - 1, dim_, deg_ - 1);
      for (std::size_t i = 0; i + 1 < n; ++i)
      {
         const double dk = knots_[i + deg_ + 1] - knots_[i + 1];
         for (std::size_t c = 0; c < dim_; ++c)
         {
            const double dc = ctrl_[(i + 1) * dim_ + c] - ctrl_[i * dim_ + c];
            s.ctrl_[i * dim_ + c] = dk > 0.0 ? deg_ * dc / dk : 0.0;
         }
      }
      s.knots_.assign(knots_.begin() + 1, knots_.end() - 1);
      return s;
   }
};
}  // namespace tinyspline

#endif
