// Reference models for probabilities kept as natural logarithms.
#include <cmath>
#include <limits>
#include <psdd/psdd_parameter.h>

namespace ref {
static bool iszero(double l) { return l == -std::numeric_limits<double>::infinity(); }
static double logsum(double a, double b) {
  if (iszero(a)) return b;
  if (iszero(b)) return a;
  double hi = a > b ? a : b, lo = a > b ? b : a;
  return hi + std::log1p(std::exp(lo - hi));
}
static void assign(PsddParameter *self, double l) {
  self->parameter_ = l;
  self->hash_value_ = static_cast<uintmax_t>(l * std::pow(10, 7));
}
void Zero(PsddParameter *self) { assign(self, std::log(0)); }
void Make(PsddParameter *self, double l) { assign(self, l); }
PsddParameter FromDecimal(double num) {
  PsddParameter r;
  assign(&r, std::log(num));
  return r;
}
PsddParameter FromLog(double num) {
  PsddParameter r;
  assign(&r, num);
  return r;
}
PsddParameter Plus(const PsddParameter *self, const PsddParameter &o) {
  PsddParameter r;
  assign(&r, logsum(self->parameter_, o.parameter_));
  return r;
}
PsddParameter Over(const PsddParameter *self, const PsddParameter &o) {
  PsddParameter r;
  assign(&r, self->parameter_ - o.parameter_);
  return r;
}
PsddParameter Times(const PsddParameter *self, const PsddParameter &o) {
  PsddParameter r;
  assign(&r, self->parameter_ + o.parameter_);
  return r;
}
PsddParameter &PlusEq(PsddParameter *self, const PsddParameter &o) {
  assign(self, logsum(self->parameter_, o.parameter_));
  return *self;
}
PsddParameter &OverEq(PsddParameter *self, const PsddParameter &o) {
  assign(self, self->parameter_ - o.parameter_);
  return *self;
}
PsddParameter &TimesEq(PsddParameter *self, const PsddParameter &o) {
  assign(self, self->parameter_ + o.parameter_);
  return *self;
}
bool Eq(const PsddParameter *self, const PsddParameter &o) { return self->hash_value_ == o.hash_value_; }
bool Ne(const PsddParameter *self, const PsddParameter &o) { return self->hash_value_ != o.hash_value_; }
bool Lt(const PsddParameter *self, const PsddParameter &o) {
  return self->hash_value_ != o.hash_value_ && self->parameter_ < o.parameter_;
}
bool Gt(const PsddParameter *self, const PsddParameter &o) {
  return self->hash_value_ != o.hash_value_ && self->parameter_ > o.parameter_;
}
double Log(const PsddParameter *self) { return self->parameter_; }
std::size_t Hash(const PsddParameter *self) { return self->hash_value_; }
}  // namespace ref
