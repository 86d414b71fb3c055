// C18: fixed-point functions within their accuracy; C19: exact integer,
// bitwise, comparison, selection and shape functions, whatever the visibility
// of the operands.
#include <cmath>
#include <set>

#include "tv.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hal/random.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hal/utils.h"
using namespace spu;
using namespace spu::mpc;
using namespace vh;
namespace hal = spu::kernel::hal;

namespace {
using Ctx = SPUContext;
int128_t S(uint128_t v, size_t b) { return Signed(v, b); }

// ---- fixed point ------------------------------------------------------------
struct Fn {
  const char* name;
  int arity;
  double lo, hi;    // domain of the first operand
  bool logu;        // log-uniform with both signs if lo < 0
  double lo2, hi2;  // second operand
  // |err| <= E + R |y| + C (1 + |y| + S) 2^-f for f <= 20, < 30, >= 30 fraction bits (secret operands)
  double E[3], R[3], C;
  std::function<double(double, double)> S;
  int need;         // field bits: 0 any, 64: at least FM64
  std::function<Value(Ctx*, const Value&, const Value&)> run;
  std::function<double(double, double)> ref;
  std::function<void(RuntimeConfig&)> cfg;
  // the domain for f fraction bits, where it depends on f
  std::function<void(double f, double& lo, double& hi, double& lo2, double& hi2)> dom;
  bool prime = false;  // SEMI2K between two parties, FM128
};
const std::vector<Fn>& Fns() {
#define L [](Ctx * c, const Value& x, const Value& y)
#define D [](double x, double y)
#define P [](double f [[maybe_unused]], double& lo [[maybe_unused]], double& hi [[maybe_unused]], double& lo2 [[maybe_unused]], double& hi2 [[maybe_unused]])
  static const std::vector<Fn> t = {
      {"mul", 2, -200, 200, true, -200, 200, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::mul(c, x, y); }, D { return x * y; }, {}},
      {"square", 1, -200, 200, true, 0, 0, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::square(c, x); }, D { return x * x; }, {}},
      {"div", 2, -500, 500, true, -500, 500, {0,0,0}, {5.6e-5,5.6e-5,7.2e-8}, 10, D { return 1 / std::abs(y) + std::abs(x); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, {}},
      {"reciprocal", 1, -500, 500, true, 0, 0, {0,0,0}, {5.6e-5,5.6e-5,4e-8}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, {}},
      {"exp-taylor", 1, -8, 4, false, 0, 0, {0, 0, 0}, {0, 0, 0}, 0, {}, 64, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_TAYLOR; }},
      {"exp-pade", 1, -8, 8, false, 0, 0, {0,0,0}, {9.5e-5,9.5e-5,9.5e-5}, 7, {}, 64, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_PADE; }},
      {"exp2", 1, -10, 10, false, 0, 0, {0,0,0}, {9.5e-5,9.5e-5,9.5e-5}, 3, {}, 64, L { return hal::exp2(c, x); }, D { return std::exp2(x); }, {}},
      {"log-minmax", 1, 0.01, 30000, true, 0, 0, {1e-7,1e-7,1e-7}, {0,0,0}, 4, {}, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_MINMAX; }},
      {"log-pade", 1, 0.01, 30000, true, 0, 0, {2e-5,2e-5,2e-7}, {0,0,0}, 8, {}, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_PADE; }},
      {"log-newton", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; }},
      {"log1p", 1, 0.01, 1000, true, 0, 0, {1e-7,1e-7,1e-7}, {0,0,0}, 5, {}, 64, L { return hal::log1p(c, x); }, D { return std::log1p(x); }, {}},
      {"log2", 1, 0.01, 30000, true, 0, 0, {2.6e-5,2.6e-5,2e-7}, {0,0,0}, 14, {}, 64, L { return hal::log2(c, x); }, D { return std::log2(x); }, {}},
      {"tanh", 1, -20, 20, false, 0, 0, {0.0051,0.0051,0.0051}, {0,0,0}, 3, {}, 64, L { return hal::tanh(c, x); }, D { return std::tanh(x); }, {}},
      {"sigmoid-seg3", 1, -20, 20, false, 0, 0, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::logistic(c, x); }, D { return x > 4 ? 1 : x < -4 ? 0 : 0.5 + 0.125 * x; }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_SEG3; }},
      {"sigmoid-mm1", 1, -20, 20, false, 0, 0, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::logistic(c, x); }, D { return 0.5 + 0.125 * x; }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_MM1; }},
      {"sigmoid-real", 1, -8, 8, false, 0, 0, {6e-5,6e-5,2.4e-5}, {0,0,0}, 3, {}, 64, L { return hal::logistic(c, x); }, D { return 1 / (1 + std::exp(-x)); }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_REAL; g.fxp_exp_mode = RuntimeConfig::EXP_PADE; }},
      {"sine", 1, -50, 50, false, 0, 0, {1.1e-4,1.1e-4,1.1e-4}, {0,0,0}, 8, D { return std::abs(x); }, 64, L { return hal::sine(c, x); }, D { return std::sin(x); }, {}},
      {"cosine", 1, -50, 50, false, 0, 0, {1.1e-4,1.1e-4,1.1e-4}, {0,0,0}, 8, D { return std::abs(x) + 2; }, 64, L { return hal::cosine(c, x); }, D { return std::cos(x); }, {}},
      {"rsqrt", 1, 0.01, 10000, true, 0, 0, {0,0,0}, {1.03e-4,1.03e-4,1.03e-4}, 75, D { return 1 / std::sqrt(x); }, 64, L { return hal::rsqrt(c, x); }, D { return 1 / std::sqrt(x); }, {}},
      {"rsqrt-low", 1, 0.01, 10000, true, 0, 0, {0,0,0}, {0.0056,0.0056,0.0056}, 30, D { return 1 / std::sqrt(x); }, 64, L { return hal::rsqrt(c, x); }, D { return 1 / std::sqrt(x); }, [](RuntimeConfig& g) { g.enable_lower_accuracy_rsqrt = true; }},
      {"sqrt", 1, 0.01, 10000, true, 0, 0, {0,0,0}, {3.4e-8,3.4e-8,3.4e-8}, 3.5, D { return x; }, 64, L { return hal::sqrt(c, x); }, D { return std::sqrt(x); }, {}},
      {"erf", 1, -6, 6, false, 0, 0, {6.5e-4,6.5e-4,6.5e-4}, {0,0,0}, 12, {}, 64, L { return hal::f_erf(c, x); }, D { return std::erf(x); }, {}},
      {"atan2", 2, -100, 100, true, -100, 100, {2.4e-5,3e-5,5e-8}, {0,0,0}, 10, D { return 1 / std::max(std::abs(x), std::abs(y)); }, 64, L { return hal::atan2(c, x, y); }, D { return std::atan2(x, y); }, {}},
      {"acos", 1, -1, 1, false, 0, 0, {7e-5,1.1e-7,1.1e-7}, {0,0,0}, 9, {}, 64, L { return hal::acos(c, x); }, D { return std::acos(x); }, {}},
      {"asin", 1, -1, 1, false, 0, 0, {7e-5,1.1e-7,1.1e-7}, {0,0,0}, 16, {}, 64, L { return hal::asin(c, x); }, D { return std::asin(x); }, {}},
      {"power", 2, 0.1, 10, true, -3, 3, {0,0,0}, {9.5e-5,9.5e-5,9.5e-5}, 4, D { return (std::abs(y) + 1) * std::pow(x, y); }, 64, L { return hal::power(c, x, y); }, D { return std::pow(x, y); }, {}},
      {"log-newton@5/3", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 5; g.fxp_log_iters = 3; }},
      {"log-newton@6/3", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 6; g.fxp_log_iters = 3; }},
      {"log-newton@7/3", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 7; g.fxp_log_iters = 3; }},
      {"log-newton@10/3", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 10; g.fxp_log_iters = 3; }},
      {"log-newton@8/2", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 8; g.fxp_log_iters = 2; }},
      {"log-newton@8/4", 1, 0.1, 100, true, 0, 0, {0.046,0.046,0.046}, {0,0,0}, 30, D { return x + 1 / x; }, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_NEWTON; g.fxp_log_orders = 8; g.fxp_log_iters = 4; }},
      {"div@1", 2, -500, 500, true, -500, 500, {0,0,0}, {0.0076,0.0076,3e-09}, 10, D { return 1 / std::abs(y); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 1; }},
      {"reciprocal@1", 1, -500, 500, true, 0, 0, {0,0,0}, {0.0076,0.0076,3e-09}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 1; }},
      {"div@3", 2, -500, 500, true, -500, 500, {0,0,0}, {3e-09,3e-09,3e-09}, 10, D { return 1 / std::abs(y); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 3; }},
      {"reciprocal@3", 1, -500, 500, true, 0, 0, {0,0,0}, {3e-09,3e-09,3e-09}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 3; }},
      {"div@4", 2, -500, 500, true, -500, 500, {0,0,0}, {1e-12,1e-12,1e-12}, 10, D { return 1 / std::abs(y); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 4; }},
      {"reciprocal@4", 1, -500, 500, true, 0, 0, {0,0,0}, {1e-12,1e-12,1e-12}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, [](RuntimeConfig& g) { g.fxp_div_goldschmidt_iters = 4; }},
      {"exp-taylor@5", 1, -4, 4, false, 0, 0, {0,0,0}, {0,0,0}, 0, {}, 64, L { return hal::exp(c, x); }, D { return std::pow(1 + x / std::ldexp(1, 5), std::ldexp(1, 5)); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_TAYLOR; g.fxp_exp_iters = 5; }},
      {"exp-taylor@10", 1, -4, 4, false, 0, 0, {0,0,0}, {0,0,0}, 0, {}, 64, L { return hal::exp(c, x); }, D { return std::pow(1 + x / std::ldexp(1, 10), std::ldexp(1, 10)); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_TAYLOR; g.fxp_exp_iters = 10; }},
      {"exp-taylor@12", 1, -4, 4, false, 0, 0, {0,0,0}, {0,0,0}, 0, {}, 64, L { return hal::exp(c, x); }, D { return std::pow(1 + x / std::ldexp(1, 12), std::ldexp(1, 12)); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_TAYLOR; g.fxp_exp_iters = 12; }},
      // the whole range on which the implementations promise something
      {"exp2-wide", 1, -31, 29.9, false, 0, 0, {0,0,0}, {9.5e-5,9.5e-5,9.5e-5}, 3, {}, 64, L { return hal::exp2(c, x); }, D { return std::exp2(x); }, {}},
      {"exp-pade-wide", 1, -60, 20.5, false, 0, 0, {2.4e-10,2.4e-10,2.4e-10}, {9.5e-5,9.5e-5,9.5e-5}, 7, D { return std::exp(x) * std::abs(x); }, 64, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_PADE; }},
      {"div-tiny", 2, -1, 1, true, -1, 1, {0,0,0}, {5.6e-5,5.6e-5,7.2e-8}, 10, D { return 1 / std::abs(y); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, {}, P { lo2 = -(hi2 = 1); }},
      {"div-huge", 2, -1e6, 1e6, true, -1, 1, {0,0,0}, {5.6e-5,5.6e-5,7.2e-8}, 10, D { return 1 / std::abs(y); }, 64, L { return hal::div(c, x, y); }, D { return x / y; }, {}, P { lo2 = -(hi2 = std::ldexp(1, f) - 1); }},
      {"reciprocal-tiny", 1, -1, 1, true, 0, 0, {0,0,0}, {5.6e-5,5.6e-5,4e-8}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, {}, P { lo = -(hi = 1); }},
      {"reciprocal-huge", 1, -1, 1, true, 0, 0, {0,0,0}, {5.6e-5,5.6e-5,4e-8}, 10, D { return 1 / std::abs(x); }, 64, L { return hal::reciprocal(c, x); }, D { return 1 / x; }, {}, P { lo = -(hi = std::ldexp(1, f) - 1); }},
      {"log-minmax-wide", 1, 0, 0, true, 0, 0, {1e-7,1e-7,1e-7}, {0,0,0}, 4, {}, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_MINMAX; }, P { lo = std::ldexp(1, -f), hi = std::ldexp(1, f + 1) - 1; }},
      {"log-pade-wide", 1, 0, 0, true, 0, 0, {2e-5,2e-5,2e-7}, {0,0,0}, 8, {}, 64, L { return hal::log(c, x); }, D { return std::log(x); }, [](RuntimeConfig& g) { g.fxp_log_mode = RuntimeConfig::LOG_PADE; }, P { lo = std::ldexp(1, -f), hi = std::ldexp(1, f) - 1; }},
      {"log2-wide", 1, 0, 0, true, 0, 0, {2.6e-5,2.6e-5,2e-7}, {0,0,0}, 14, {}, 64, L { return hal::log2(c, x); }, D { return std::log2(x); }, {}, P { lo = std::ldexp(1, -f), hi = std::ldexp(1, f) - 1; }},
      {"tanh-wide", 1, -1e5, 1e5, true, 0, 0, {0.0051,0.0051,0.0051}, {0,0,0}, 3, {}, 64, L { return hal::tanh(c, x); }, D { return std::tanh(x); }, {}},
      {"sigmoid-seg3-wide", 1, -1e5, 1e5, true, 0, 0, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::logistic(c, x); }, D { return x > 4 ? 1 : x < -4 ? 0 : 0.5 + 0.125 * x; }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_SEG3; }},
      {"sigmoid-mm1-wide", 1, -1e5, 1e5, true, 0, 0, {0,0,0}, {0,0,0}, -2.6, {}, 0, L { return hal::logistic(c, x); }, D { return 0.5 + 0.125 * x; }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_MM1; }},
      {"sigmoid-real-wide", 1, 0, 0, false, 0, 0, {6e-5,6e-5,2.4e-5}, {0,0,0}, 3, {}, 64, L { return hal::logistic(c, x); }, D { return 1 / (1 + std::exp(-x)); }, [](RuntimeConfig& g) { g.sigmoid_mode = RuntimeConfig::SIGMOID_REAL; g.fxp_exp_mode = RuntimeConfig::EXP_PADE; }, P { lo = -std::min(11.0, f * 0.69 - 1), hi = 25; }},
      {"sine-wide", 1, -5000, 5000, true, 0, 0, {1.1e-4,1.1e-4,1.1e-4}, {0,0,0}, 8, D { return std::abs(x); }, 64, L { return hal::sine(c, x); }, D { return std::sin(x); }, {}},
      {"cosine-wide", 1, -5000, 5000, true, 0, 0, {1.1e-4,1.1e-4,1.1e-4}, {0,0,0}, 8, D { return std::abs(x) + 2; }, 64, L { return hal::cosine(c, x); }, D { return std::cos(x); }, {}},
      {"rsqrt-wide", 1, 0, 0, true, 0, 0, {0,0,0}, {1.03e-4,1.03e-4,1.03e-4}, 75, D { return 1 / std::sqrt(x); }, 64, L { return hal::rsqrt(c, x); }, D { return 1 / std::sqrt(x); }, {}, P { lo = std::ldexp(1, -f), hi = std::ldexp(0.999, std::fmod(f, 2) != 0 ? f - 3 : f - 1); }},
      {"sqrt-wide", 1, 0, 0, true, 0, 0, {0,0,0}, {3.4e-8,3.4e-8,3.4e-8}, 3.5, D { return x; }, 64, L { return hal::sqrt(c, x); }, D { return std::sqrt(x); }, {}, P { lo = std::ldexp(1, -f), hi = std::ldexp(0.999, std::fmod(f, 2) != 0 ? f - 3 : f - 1); }},
      {"erf-wide", 1, -1e5, 1e5, true, 0, 0, {6.5e-4,6.5e-4,6.5e-4}, {0,0,0}, 12, {}, 64, L { return hal::f_erf(c, x); }, D { return std::erf(x); }, {}},
      {"atan2-wide", 2, -1e4, 1e4, true, -1e4, 1e4, {2.4e-5,3e-5,5e-8}, {0,0,0}, 10, D { return 1 / std::max(std::abs(x), std::abs(y)); }, 64, L { return hal::atan2(c, x, y); }, D { return std::atan2(x, y); }, {}},
      {"exp-prime", 1, 0, 0, false, 0, 0, {0,0,0}, {3e-6,3e-6,3e-6}, 8, {}, 128, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_PRIME; g.experimental_enable_exp_prime = true, g.experimental_exp_prime_offset = 13; }, P { lo = -100, hi = (124.5 - 13 - 2 * f) / M_LOG2E; }, true},
      {"exp-prime-upper", 1, 0, 0, false, 0, 0, {0,0,0}, {3e-6,3e-6,3e-6}, 8, {}, 128, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_PRIME; g.experimental_enable_exp_prime = true, g.experimental_exp_prime_offset = 13; g.experimental_exp_prime_enable_upper_bound = true; }, P { lo = -100, hi = 100; }, true},
      {"exp-prime-free", 1, 0, 0, false, 0, 0, {0,0,0}, {3e-6,3e-6,3e-6}, 8, {}, 128, L { return hal::exp(c, x); }, D { return std::exp(x); }, [](RuntimeConfig& g) { g.fxp_exp_mode = RuntimeConfig::EXP_PRIME; g.experimental_enable_exp_prime = true, g.experimental_exp_prime_offset = 13; g.experimental_exp_prime_disable_lower_bound = true; }, P { lo = (47.5 - 13 - 2 * f) / M_LOG2E, hi = (124.5 - 13 - 2 * f) / M_LOG2E; }, true},
  };
#undef L
#undef D
#undef P
  return t;
}

double Tol(const Fn& fn, size_t f, double x, double y, double want) {
  const int k = f <= 20 ? 0 : f < 30 ? 1 : 2;
  const double u = std::ldexp(1.0, -static_cast<int>(f));
  if (std::string(fn.name) == "exp-taylor") {  // (1 + x / 2^8)^(2^8)
    return want * (1 - std::exp(-x * x / 512 * 1.1)) + 2000 * u * want + 4 * u;
  }
  if (std::string(fn.name).rfind("exp-taylor@", 0) == 0) return std::ldexp(8, std::atoi(fn.name + 11)) * u * (want + 1e-3) + 4 * u;
  if (fn.C < 0) return -fn.C * u + 4e-16 * std::abs(want);
  return fn.E[k] + fn.R[k] * std::abs(want) + fn.C * u * (1 + std::abs(want) + (fn.S ? fn.S(x, y) : 0));
}

// Public operands: functions evaluated in the clear, in single precision.
bool Clear(const std::string& n) {
  static const std::set<std::string> t = {"div", "reciprocal", "exp-taylor", "exp-pade", "log-minmax", "log-pade", "log-newton", "sigmoid-real", "sine", "cosine", "erf", "power", "atan2", "acos", "asin"};
  return t.count(n) != 0;
}
double PubTol(const Fn& fn, size_t f, double x, double y, double want, bool h) {
  const double u = std::ldexp(1.0, -static_cast<int>(f)), e = h ? 5.5e-4 : 1.2e-7;
  if (!Clear(fn.name)) return Tol(fn, f, x, y, want) + 4e-7 * (1 + std::abs(want));
  double spread = 0;
  for (int k = 0; k < 9; k++) {
    double a = x * (1 + e * (k % 3 - 1)), b = y * (1 + e * (k / 3 - 1));
    if (a < -1 && fn.lo == -1) a = -1;
    if (a > 1 && fn.hi == 1) a = 1;
    spread = std::max(spread, std::abs(fn.ref(a, b) - want));
  }
  return spread + std::abs(want) * (h ? 6e-4 : 4e-7) + 2.01 * u;
}

double Draw(Rng& g, double lo, double hi, bool logu, double mag = 0.01) {
  if (mag < 0.01 && lo < 0 && g.chance(4)) return g.chance(50) ? mag : -mag;
  if (g.chance(4)) return lo;
  if (g.chance(4)) return hi;
  if (!logu) return g.uniform(lo, hi);
  double a = lo > 0 ? lo : mag;
  double v = std::exp(g.uniform(std::log(a), std::log(hi)));
  return lo < 0 && g.chance(50) ? -v : v;
}

void FxpCase(Case& c, const Proto& p, bool measure) {
  auto& g = c.rng;
  const bool two = p.kind == SEMI2K && p.npc == 2 && !p.spdz2k;
  const Fn* fp = &g.pick(Fns());
  while (fp->prime && !two) fp = &g.pick(Fns());
  const Fn& fn = *fp;
  FieldType f = FM64;
  size_t fb = 18;
  if (fn.need == 0 && g.chance(25)) {
    f = FM32, fb = 8;
  } else if (g.chance(35) && !p.spdz2k && p.kind != SWIFT) {
    f = FM128;
    fb = g.pick(std::vector<size_t>{18, 26, 29, 30, 31, 32, 40});
  } else if (g.chance(30)) {
    fb = static_cast<size_t>(g.range(14, 18));
  }
  const std::string nm = fn.name;
  const bool wide = fn.prime || nm.find("-wide") != nm.npos || nm.find("-tiny") != nm.npos || nm.find("-huge") != nm.npos || nm.find('@') != nm.npos;
  if (fn.prime) f = FM128, fb = static_cast<size_t>(g.range(24, 40));
  const bool pub = !wide && g.chance(10);
  const int64_t n = p.cost >= 20 ? 12 : p.npc == 1 ? 400 : 60;
  std::vector<uint128_t> xr(n), yr(n);

  std::vector<double> x(n), y(n, 0);
  const size_t B = FieldBits(f);
  auto enc = [&](double v) { return static_cast<uint128_t>(static_cast<int128_t>(std::rint(v * std::ldexp(1.0, fb)))) & Mask(B); };
  auto dec = [&](uint128_t v) { return static_cast<double>(static_cast<long double>(S(v, B)) * std::ldexp(1.0L, -static_cast<int>(fb))); };
  double hi = fn.hi, lo = fn.lo, hi2 = fn.hi2, lo2 = fn.lo2;
  if (!wide && fb < 17 && hi >= 10000) hi = 500;
  double m1 = 0.01, m2 = 0.01;
  if (fn.dom) fn.dom(static_cast<double>(fb), lo, hi, lo2, hi2);
  if (nm.find("-tiny") != nm.npos) (fn.arity == 2 ? m2 : m1) = std::ldexp(1, -static_cast<int>(fb));
  else if (nm.find("-huge") != nm.npos) (fn.arity == 2 ? m2 : m1) = 1;
  double cl = -1e300, ch = 1e300;
  if (fn.prime) {
    if (nm != "exp-prime-free") cl = (48.0 - 13 - 2.0 * fb) / M_LOG2E;
    if (nm == "exp-prime-upper") ch = (124.0 - 13 - 2.0 * fb) / M_LOG2E;
  }
  if (f == FM32) hi = std::min(hi, 20.0), lo = std::max(lo, -20.0), hi2 = std::min(hi2, 20.0), lo2 = std::max(lo2, -20.0);
  for (int64_t i = 0; i < n; i++) {
    x[i] = dec(xr[i] = enc(Draw(g, lo, hi, fn.logu, m1)));
    if (fn.arity == 2) y[i] = dec(yr[i] = enc(Draw(g, lo2, hi2, fn.logu, m2)));
  }
  int vx = pub ? 0 : 2, vy = pub ? 0 : 2;
  if (!pub && fn.arity == 2) {
    if (g.chance(25)) (g.chance(50) ? vx : vy) = 0;
    else if (g.chance(20)) (g.chance(50) ? vx : vy) = 1;
  } else if (!pub && g.chance(10)) vx = 1;
  const int owner = static_cast<int>(g.below(p.npc));
  DataType dt = g.chance(70) ? DT_F32 : g.chance(70) || !pub || fb > 18 ? DT_F64 : DT_F16;
  if (dt == DT_F16 && (std::string(fn.name) == "mul" || !Clear(fn.name) || fn.arity != 2)) dt = DT_F32;
  const uint64_t bits = g.chance(20) ? g.range(1, 3) : 0;  // operands shared bit by bit
  Describe(c, fmt::format("{} {} {} fxp {} vis {}{} bits {} n {}", p.name, FieldName(f), fn.name, fb, vx, vy, bits, n));
  MpcOpt o;
  o.cfg.protocol = p.kind;
  o.cfg.field = f;
  o.cfg.fxp_fraction_bits = fb;
  o.npc = p.npc;
  o.spdz2k = p.spdz2k;
  o.seed = c.seed;
  o.jitter = g.u64();
  o.cfg.experimental_enable_intra_op_par = g.chance(20);
  o.cfg.experimental_disable_vectorization = g.chance(20);
  if (fn.cfg) fn.cfg(o.cfg);
  auto r = RunMpc(o, [&](Ctx* ctx, size_t) {
    Value a = Share(ctx, PubValue(f, {n}, xr, dt), vx, owner, false), b;
    if (fn.arity == 2) b = Share(ctx, PubValue(f, {n}, yr, dt), vy, owner, false);
    if (bits & 1) a = hal::_prefer_b(ctx, a).setDtype(dt);
    if (fn.arity == 2 && (bits & 2)) b = hal::_prefer_b(ctx, b).setDtype(dt);
    Value z = fn.run(ctx, a, b);
    if (z.shape() != Shape{n}) SPU_THROW("result shape {}", z.shape());
    if (z.dtype() != dt && (!pub || dt == DT_F16)) SPU_THROW("result dtype {}", z.dtype());
    if (!z.isPublic()) z = hal::reveal(ctx, z);
    return ReadRing(z.data());
  });
  if (!CheckOk(c, r, fmt::format("fxp:{}:{}", p.name, fn.name))) return;
  double worst = 0;
  for (size_t q = 0; q < r.out.size(); q++) {
    if (q && *r.out[q] != *r.out[0]) Fail(c, "fxp:parties-differ", "");
  }
  const double u = std::ldexp(1.0, -static_cast<int>(fb));
  for (int64_t i = 0; i < n; i++) {
    double want = fn.ref(std::min(ch, std::max(cl, x[i])), y[i]), got = dec((*r.out[0])[i]);
    double err = std::abs(got - want);
    double tol = pub ? PubTol(fn, fb, x[i], y[i], want, dt == DT_F16) : Tol(fn, fb, x[i], y[i], want);
    worst = std::max(worst, err);
    if (measure) {
      if (std::getenv("MEAS_ALL")) std::fprintf(stderr, "M %s %s %zu %d %d %.9g %.9g %.9g %.3g %.2f %.3f %d%d\n", p.name, fn.name, fb, (int)B, (int)pub, x[i], y[i], want, err, err / u, err / tol, vx, vy);
    } else if (!(err <= tol)) {
      Fail(c, fmt::format("fxp:{}:{}", p.name, fn.name), fmt::format("f={} x={:.9g} y={:.9g} got {:.9g} want {:.9g} tolerance {:.3g}", fb, x[i], y[i], got, want, tol));
      return;
    }
  }
  Count("function values compared", n);
  Cover(fmt::format("{}/{}/{}/{}/{}{}", p.name, fn.name, FieldName(f), fb, vx, vy));
}

// ---- exact functions --------------------------------------------------------
DataType Common(DataType a, DataType b) { return std::max(a, b); }

TStep Arith(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh();
  const bool fx = g.chance(40);
  auto dx = fx ? G.Flt() : G.Int(), dy = fx ? G.Flt() : G.Int();
  auto x = G.Op(sh, dx, [&] { return G.Full(); }), y = G.Op(sh, dy, [&] { return G.Full(); });
  auto dt = Common(dx, dy);
  switch (g.below(fx ? 4 : 6)) {
    case 0: return {"add", "", {x, y}, RUN(hal::add(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a + b; })).D(dt)}};
    case 1: {
      if (!fx && dx != dy) y.dt = dx, dt = dx;
      return {"sub", "", {x, y}, RUN(hal::sub(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a - b; })).D(dt)}};
    }
    case 2: return {"negate", "", {x}, RUN(hal::negate(ctx, v[0])), {Expect(sh, Map(x.val, [](auto a) { return 0 - a; })).D(dx)}};
    case 3: {  // integer times anything: no truncation
      if (fx && g.chance(50)) return {"mul-mixed", "", {x, G.Op(sh, DT_I32, [&] { return G.Full(); })}, RUN(hal::mul(ctx, v[0], v[1])), {}};
      y.dt = G.Int();
      dt = fx ? dx : Common(dx, y.dt);
      if (g.chance(50)) return {"mul", "", {y, x}, RUN(hal::mul(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a * b; })).D(dt)}};
      return {"mul", "", {x, y}, RUN(hal::mul(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a * b; })).D(dt)}};
    }
    case 4: return {"square", "", {x}, RUN(hal::square(ctx, v[0])), {Expect(sh, Map(x.val, [](auto a) { return a * a; })).D(dx)}};
    default: {
      auto pw = Map2(x.val, y.val, [](auto, auto) { return uint128_t(0); });
      for (auto& a : y.val) a = static_cast<uint128_t>(g.chance(80) ? g.range(0, 12) : g.range(-4, static_cast<int64_t>(G.B) - 1)) & G.e.M();
      if (g.chance(50)) for (auto& a : x.val) a = static_cast<uint128_t>(g.range(-3, 3)) & G.e.M();
      else if (G.e.p.kind == SECURENN) for (auto& a : x.val) a = G.Small() & G.e.M();
      for (size_t i = 0; i < x.val.size(); i++) {
        auto s = G.Sg(x.val[i]), t = G.Sg(y.val[i]);
        uint128_t r = 1;
        if (t < 0) r = s == 1 ? 1 : s == -1 ? ((t & 1) ? uint128_t(0) - 1 : 1) : 0;
        else for (int128_t k = 0; k < t; k++) r *= x.val[i];
        pw[i] = r;
      }
      return {"power-int", "", {x, y}, RUN(hal::power(ctx, v[0], v[1])), {Expect(sh, pw).D(dx)}};
    }
  }
}

TStep Bits(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh();
  auto dt = G.Int();
  const size_t B = G.B;
  const uint128_t M = G.e.M();
  auto x = G.Op(sh, dt, [&] { return G.Full(); }), y = G.Op(sh, dt, [&] { return G.Full(); });
  if (g.chance(35) && x.vis == 2 && y.vis == 2) x.as_bool = y.as_bool = !G.e.p.spdz2k || !sh.isScalar();
  Sizes sz;
  const bool per = g.chance(25) && !G.e.p.spdz2k && Numel(sh) > 0;
  for (int64_t i = 0; i < (per ? Numel(sh) : 1); i++) sz.push_back(g.range(0, static_cast<int64_t>(B) - 1));
  auto bit = [&](int64_t i) { return sz.size() == 1 ? sz[0] : sz[i]; };
  Vec r(x.val.size());
  auto text = fmt::format("bits {}", fmt::join(sz.begin(), sz.begin() + std::min<size_t>(sz.size(), 3), ","));
  switch (g.below(13)) {
    case 0: return {"and", "", {x, y}, RUN(hal::bitwise_and(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a & b; })).D(dt)}};
    case 1: return {"xor", "", {x, y}, RUN(hal::bitwise_xor(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a ^ b; })).D(dt)}};
    case 2: return {"or", "", {x, y}, RUN(hal::bitwise_or(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [](auto a, auto b) { return a | b; })).D(dt)}};
    case 3: return {"not", "", {x}, RUN(hal::bitwise_not(ctx, v[0])), {Expect(sh, Map(x.val, [](auto a) { return ~a; })).D(dt)}};
    case 4:
      for (size_t i = 0; i < r.size(); i++) r[i] = x.val[i] << bit(i);
      return {"left_shift", text, {x}, RUN(hal::left_shift(ctx, v[0], sz)), {Expect(sh, r).D(dt)}};
    case 5:
      for (size_t i = 0; i < r.size(); i++) r[i] = x.val[i] >> bit(i);
      return {"right_shift_logical", text, {x}, RUN(hal::right_shift_logical(ctx, v[0], sz)), {Expect(sh, r).D(dt)}};
    case 6:
      for (size_t i = 0; i < r.size(); i++) r[i] = static_cast<uint128_t>(G.Sg(x.val[i]) >> bit(i));
      return {"right_shift_arithmetic", text, {x}, RUN(hal::right_shift_arithmetic(ctx, v[0], sz)), {Expect(sh, r).D(dt)}};
    case 7: {
      size_t n = 2 * static_cast<size_t>(g.range(1, static_cast<int64_t>(B) / 2));  // whole pairs only
      for (size_t i = 0; i < r.size(); i++) for (size_t k = 0; k < n; k++) r[i] += (x.val[i] >> k) & 1;
      if (sh.size() && Numel(sh) == 0) return {"not", "", {x}, RUN(hal::bitwise_not(ctx, v[0])), {Expect(sh, r)}};
      return {"popcount", fmt::format("bits {}", n), {x}, RUN(hal::_popcount(ctx, v[0], n)), {Expect(sh, r)}};
    }
    case 8:
      for (size_t i = 0; i < r.size(); i++) {
        r[i] = x.val[i];
        for (size_t k = 1; k < B; k *= 2) r[i] |= r[i] >> k;
      }
      return {"prefix_or", "", {x}, RUN(hal::_prefix_or(ctx, v[0])), {Expect(sh, r)}};
    case 9: {
      size_t n = size_t(1) << g.below(B == 32 ? 6 : B == 64 ? 7 : 8);
      for (size_t i = 0; i < r.size(); i++) for (size_t k = 0; k < n; k++) r[i] ^= (x.val[i] >> k) & 1;
      return {"bit_parity", fmt::format("bits {}", n), {x}, RUN(hal::_bit_parity(ctx, v[0], n)), {Expect(sh, r)}};
    }
    case 10:
      for (size_t i = 0; i < r.size(); i++)
        for (size_t k = 0; k < B; k++) if ((x.val[i] >> k) & 1) r[i] |= uint128_t(1) << (k % 2 ? B / 2 + k / 2 : k / 2);
      return {"bitdeintl", "", {x}, RUN(hal::_bitdeintl(ctx, v[0])), {Expect(sh, r)}};
    case 11: {
      size_t lo = g.below(B), hi = lo + 1 + g.below(B - lo);
      for (size_t i = 0; i < r.size(); i++) {
        r[i] = x.val[i];
        for (size_t k = lo; k < hi; k++) {
          r[i] &= ~(uint128_t(1) << k);
          r[i] |= ((x.val[i] >> (hi - 1 - (k - lo))) & 1) << k;
        }
      }
      return {"bitrev", fmt::format("{}..{}", lo, hi), {x}, RUN(hal::_bitrev(ctx, v[0], lo, hi)), {Expect(sh, r)}};
    }
    default: {
      auto to = g.pick(kInts);
      return {"bitcast", "", {x}, RUN(hal::bitcast(ctx, v[0], to)), {Expect(sh, Map(x.val, [M](auto a) { return a & M; })).D(to)}};
    }
  }
}

TStep Order(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh();
  const bool fx = g.chance(40);
  auto dt = fx ? G.Flt() : g.pick(kSgn);
  auto x = G.Op(sh, dt, [&] { return G.Small(); }), y = G.Op(sh, dt, [&] { return uint128_t(0); }), z = y;
  for (size_t i = 0; i < y.val.size(); i++) y.val[i] = G.Near(x.val[i]) & G.e.M();
  z = G.Op(sh, dt, [&] { return G.Small(); });
  auto S = [&G](uint128_t a) { return G.Sg(a); };
  auto bin = [&](const char* nm, auto run, auto f) -> TStep {
    return {nm, "", {x, y}, run, {Expect(sh, Map2(x.val, y.val, [&](auto a, auto b) { return static_cast<uint128_t>(f(S(a), S(b))); })).D(DT_I1)}};
  };
  switch (g.below(13)) {
    case 0: return bin("less", RUN(hal::less(ctx, v[0], v[1])), [](auto a, auto b) { return a < b; });
    case 1: return bin("greater", RUN(hal::greater(ctx, v[0], v[1])), [](auto a, auto b) { return a > b; });
    case 2: return bin("less_equal", RUN(hal::less_equal(ctx, v[0], v[1])), [](auto a, auto b) { return a <= b; });
    case 3: return bin("greater_equal", RUN(hal::greater_equal(ctx, v[0], v[1])), [](auto a, auto b) { return a >= b; });
    case 4: return bin("equal", RUN(hal::equal(ctx, v[0], v[1])), [](auto a, auto b) { return a == b; });
    case 5: return bin("not_equal", RUN(hal::not_equal(ctx, v[0], v[1])), [](auto a, auto b) { return a != b; });
    case 6: return {"max", "", {x, y}, RUN(hal::max(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [&](auto a, auto b) { return S(a) > S(b) ? a : b; })).D(dt)}};
    case 7: return {"min", "", {x, y}, RUN(hal::min(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [&](auto a, auto b) { return S(a) < S(b) ? a : b; })).D(dt)}};
    case 8: {
      Vec r;
      for (size_t i = 0; i < x.val.size(); i++) {
        if (S(y.val[i]) > S(z.val[i])) std::swap(y.val[i], z.val[i]);
        r.push_back(S(x.val[i]) < S(y.val[i]) ? y.val[i] : S(x.val[i]) > S(z.val[i]) ? z.val[i] : x.val[i]);
      }
      return {"clamp", "", {x, y, z}, RUN(hal::clamp(ctx, v[0], v[1], v[2])), {Expect(sh, r).D(dt)}};
    }
    case 9: return {"abs", "", {x}, RUN(hal::abs(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) { return S(a) < 0 ? 0 - a : a; })).D(dt)}};
    case 10: return {"sign", "", {x}, RUN(hal::sign(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) { return S(a) < 0 ? uint128_t(0) - 1 : 1; })).D(DT_I8)}};
    case 11: {
      auto p = G.Op(sh, DT_I1, [&] { return g.below(2); });
      Vec r;
      for (size_t i = 0; i < x.val.size(); i++) r.push_back(p.val[i] ? x.val[i] : z.val[i]);
      return {"select", "", {p, x, z}, RUN(hal::select(ctx, v[0], v[1], v[2])), {Expect(sh, r).D(dt)}};
    }
    default: {
      auto p = G.Op(sh, DT_I1, [&] { return g.below(2); });
      return {"logical_not", "", {p}, RUN(hal::logical_not(ctx, v[0])), {Expect(sh, Map(p.val, [](auto a) { return 1 - a; })).D(DT_I1)}};
    }
  }
}

TStep Casts(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh();
  const int64_t f = static_cast<int64_t>(G.e.fxp);
  auto S = [&G](uint128_t a) { return G.Sg(a); };
  switch (g.below(6)) {
    case 0: {
      auto a = G.Int(), b = G.Int();
      auto x = G.Op(sh, a, [&] { return G.Full(); });
      return {"cast-int-int", "", {x}, RUN(hal::dtype_cast(ctx, v[0], b)), {Expect(sh, x.val).D(b)}};
    }
    case 1: {
      auto a = G.Int(), b = G.Flt();
      auto x = G.Op(sh, a, [&] { return G.Full(); });
      return {"cast-int-fxp", "", {x}, RUN(hal::dtype_cast(ctx, v[0], b)), {Expect(sh, Map(x.val, [f](auto q) { return q << f; })).D(b)}};
    }
    case 2: {
      auto a = G.Flt(), b = G.Int();
      auto x = G.Op(sh, a, [&] { return g.chance(50) ? G.Small() : static_cast<uint128_t>(g.range(-(int64_t(5) << f), int64_t(5) << f)); });
      if (g.chance(30)) for (auto& q : x.val) q = (q >> f) << f & G.e.M();
      if (G.e.p.kind == SECURENN) for (auto& q : x.val) q = static_cast<uint128_t>(S(q) / 4) & G.e.M();
      return {"cast-fxp-int", "", {x}, RUN(hal::dtype_cast(ctx, v[0], b)), {Expect(sh, Map(x.val, [&](auto q) { return static_cast<uint128_t>(S(q) / (int128_t(1) << f)); })).D(b)}};
    }
    case 3: {
      auto a = G.Flt(), b = G.Flt();
      auto x = G.Op(sh, a, [&] { return G.Full(); });
      return {"cast-fxp-fxp", "", {x}, RUN(hal::dtype_cast(ctx, v[0], b)), {Expect(sh, x.val).D(b)}};
    }
    case 4: {
      auto a = G.Flt();
      auto x = G.Op(sh, a, [&] { return g.chance(50) ? G.Small() : static_cast<uint128_t>(g.range(-(int64_t(5) << f), int64_t(5) << f)); });
      return {"floor", "", {x}, RUN(hal::floor(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto q) { return static_cast<uint128_t>(S(q) >> f) << f; })).D(a)}};
    }
    default: {
      auto a = G.Flt();
      auto x = G.Op(sh, a, [&] { return g.chance(50) ? G.Small() : static_cast<uint128_t>(g.range(-(int64_t(5) << f), int64_t(5) << f)); });
      return {"ceil", "", {x}, RUN(hal::ceil(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto q) { return static_cast<uint128_t>((S(q) + (int128_t(1) << f) - 1) >> f) << f; })).D(a)}};
    }
  }
}

TStep Idiv(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh(2, false);
  auto dt = g.pick(std::vector<DataType>{DT_I16, DT_I32, DT_I64});
  auto x = G.Op(sh, dt, [&] { return static_cast<uint128_t>(g.chance(50) ? g.range(-2000, 2000) : g.range(-30, 30)); });
  auto y = G.Op(sh, dt, [&] { int64_t v = g.chance(50) ? g.range(1, 500) : g.range(1, 9); return static_cast<uint128_t>(g.chance(50) ? v : -v); });
  auto S = [&G](uint128_t a) { return G.Sg(a); };
  return {"div-int", "", {x, y}, RUN(hal::div(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [&](auto a, auto b) { return static_cast<uint128_t>(S(a) / S(b)); }))}};
}

TStep Linear(Gen& G) {
  auto& g = G.g;
  auto D = [&](int64_t m) { return 1 + static_cast<int64_t>(g.below(m)); };
  auto dt = G.Int();
  const bool mixed = g.chance(20);
  switch (g.below(2)) {
    case 0: {
      int64_t m = D(5), k = D(6), n = D(5);
      auto x = G.Op({m, k}, dt, [&] { return G.Full(); }), y = G.Op({k, n}, mixed ? DT_F32 : dt, [&] { return G.Full(); });
      Shape to = {m, n};
      const int form = static_cast<int>(g.below(4));  // vectors
      if (form == 1) x.shape = {k}, x.val.resize(k), to = {1, n}, m = 1, x.strided = false;
      if (form == 2) y.shape = {k}, y.val.resize(k), to = {m, 1}, n = 1, y.strided = false;
      Vec r(m * n);
      for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) for (int64_t q = 0; q < k; q++) r[i * n + j] += x.val[i * k + q] * y.val[q * n + j];
      return {"matmul", fmt::format("{} {}", x.shape, y.shape), {x, y}, RUN(hal::matmul(ctx, v[0], v[1])), {Expect(to, r).D(mixed ? DT_F32 : dt)}};
    }
    default: {  // contract nc axes of both
      int nc = 1 + static_cast<int>(g.below(2)), rx = nc + static_cast<int>(g.below(2)), ry = nc + static_cast<int>(g.below(2));
      if (rx == nc && ry == nc) rx++;
      Shape sx(rx, 0), sy(ry, 0);
      for (auto& d : sx) d = D(3);
      for (auto& d : sy) d = D(3);
      std::vector<int64_t> px(rx), py(ry);
      for (int i = 0; i < rx; i++) px[i] = i;
      for (int i = 0; i < ry; i++) py[i] = i;
      for (int i = rx - 1; i > 0; i--) std::swap(px[i], px[g.below(i + 1)]);
      for (int i = ry - 1; i > 0; i--) std::swap(py[i], py[g.below(i + 1)]);
      Index ix(px.begin(), px.begin() + nc), iy(py.begin(), py.begin() + nc);
      for (int i = 0; i < nc; i++) sy[iy[i]] = sx[ix[i]];
      auto x = G.Op(sx, dt, [&] { return G.Full(); }), y = G.Op(sy, dt, [&] { return G.Full(); });
      std::vector<int64_t> fx, fy;
      Shape to;
      for (int i = 0; i < rx; i++) if (std::find(ix.begin(), ix.end(), i) == ix.end()) fx.push_back(i), to.push_back(sx[i]);
      for (int i = 0; i < ry; i++) if (std::find(iy.begin(), iy.end(), i) == iy.end()) fy.push_back(i), to.push_back(sy[i]);
      Vec r(Numel(to), 0);
      for (int64_t a = 0; a < Numel(sx); a++) for (int64_t b = 0; b < Numel(sy); b++) {
        auto ia = Unravel(sx, a), ib = Unravel(sy, b);
        bool ok = true;
        for (int i = 0; i < nc; i++) ok = ok && ia[ix[i]] == ib[iy[i]];
        if (!ok) continue;
        std::vector<int64_t> io;
        for (auto i : fx) io.push_back(ia[i]);
        for (auto i : fy) io.push_back(ib[i]);
        r[Ravel(to, io)] += x.val[a] * y.val[b];
      }
      return {"tensordot", fmt::format("{} {} over {} {}", sx, sy, fmt::join(ix, ","), fmt::join(iy, ",")), {x, y}, RUN(hal::tensordot(ctx, v[0], v[1], ix, iy)), {Expect(to, r).D(dt)}};
    }
  }
}

TStep Shapes(Gen& G) {
  auto& g = G.g;
  auto dt = g.chance(70) ? G.Int() : G.Flt();
  switch (g.below(9)) {
    case 0: {
      auto s = G.Sh(3, false);
      if (s.isScalar()) s = {3};
      int64_t ax = static_cast<int64_t>(g.below(s.size()));
      int n = 1 + static_cast<int>(g.below(4));
      std::vector<Operand> in;
      Shape to = s;
      to[ax] = 0;
      std::vector<int64_t> off;
      for (int i = 0; i < n; i++) {
        Shape si = s;
        si[ax] = (i && g.chance(10)) ? 0 : 1 + static_cast<int64_t>(g.below(4));
        if (G.e.p.spdz2k && si[ax] == 0) si[ax] = 1;
        in.push_back(G.Op(si, dt, [&] { return G.Full(); }));
        off.push_back(to[ax]);
        to[ax] += si[ax];
      }
      Vec r(Numel(to));
      for (int i = 0; i < n; i++) for (int64_t k = 0; k < Numel(in[i].shape); k++) {
        auto id = Unravel(in[i].shape, k);
        id[ax] += off[i];
        r[Ravel(to, id)] = in[i].val[k];
      }
      return {"concatenate", fmt::format("axis {} to {}", ax, to), in, RUN(hal::concatenate(ctx, v, ax)), {Expect(to, r).D(dt)}};
    }
    case 1: {
      auto s = G.Sh(3, false);
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      auto p = G.Op({}, dt, [&] { return G.Full(); });
      if (G.e.p.spdz2k) x.as_bool = p.as_bool = false;
      Sizes lo, hi, in;
      Shape to;
      for (size_t d = 0; d < s.size(); d++) {
        lo.push_back(static_cast<int64_t>(g.below(3)));
        hi.push_back(static_cast<int64_t>(g.below(3)));
        in.push_back(static_cast<int64_t>(g.below(3)));
        to.push_back(s[d] + lo[d] + hi[d] + (s[d] - 1) * in[d]);
      }
      Vec r(Numel(to), p.val[0]);
      for (int64_t k = 0; k < Numel(s); k++) {
        auto id = Unravel(s, k);
        for (size_t d = 0; d < s.size(); d++) id[d] = lo[d] + id[d] * (1 + in[d]);
        r[Ravel(to, id)] = x.val[k];
      }
      return {"pad", fmt::format("{} to {}", s, to), {x, p}, RUN(hal::pad(ctx, v[0], v[1], lo, hi, in)), {Expect(to, r).D(dt)}};
    }
    case 2: {
      auto s = G.Sh(3, false);
      if (s.isScalar()) s = {4};
      Shape u;
      Index at;
      for (size_t d = 0; d < s.size(); d++) {
        u.push_back(1 + static_cast<int64_t>(g.below(s[d])));
        at.push_back(static_cast<int64_t>(g.below(s[d] - u[d] + 1)));
      }
      auto x = G.Op(s, dt, [&] { return G.Full(); }), y = G.Op(u, dt, [&] { return G.Full(); });
      Vec r = x.val;
      for (int64_t k = 0; k < Numel(u); k++) {
        auto id = Unravel(u, k);
        for (size_t d = 0; d < s.size(); d++) id[d] += at[d];
        r[Ravel(s, id)] = y.val[k];
      }
      // the updated value is a new one: the original keeps its contents
      return {"update_slice", fmt::format("{} in {}", u, s), {x, y}, RUN2(hal::update_slice(ctx, v[0], v[1], at), v[0]), {Expect(s, r).D(dt), Expect(s, x.val).D(dt)}};
    }
    case 3: {
      auto s = G.Sh(3, false);
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      int64_t d = static_cast<int64_t>(g.below(s.size() + 1));
      Shape to = s;
      to.insert(to.begin() + d, 1);
      return {"unsqueeze", fmt::format("{} at {}", s, d), {x}, RUN2(hal::unsqueeze(ctx, v[0], d), hal::squeeze(ctx, hal::unsqueeze(ctx, v[0], d), d)), {Expect(to, x.val).D(dt), Expect(s, x.val).D(dt)}};
    }
    case 4: {
      auto s = G.Sh(3, false);
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      Index at;
      for (auto d : s) at.push_back(static_cast<int64_t>(g.below(d)));
      if (G.e.p.spdz2k) x.as_bool = false;
      return {"slice_scalar_at", fmt::format("{}", s), {x}, RUN(hal::slice_scalar_at(ctx, v[0], at)), {Expect(Shape{}, Vec{x.val[Ravel(s, std::vector<int64_t>(at.begin(), at.end()))]}).D(dt)}};
    }
    case 5: {
      auto x = G.Op({}, dt, [&] { return G.Full(); });
      auto to = G.Sh(3, false);
      if (G.e.p.spdz2k) x.as_bool = false;
      return {"expand", fmt::format("{}", to), {x}, RUN(hal::expand(ctx, v[0], to)), {Expect(to, Vec(Numel(to), x.val[0])).D(dt)}};
    }
    case 6: {
      auto s = G.Sh(2, false);
      if (s.isScalar()) s = {5};
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      int owner = static_cast<int>(g.below(G.e.p.npc));
      if (x.vis == 0) x.vis = 2;
      return {"reveal_to", fmt::format("{}", owner), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        auto o = hal::reveal_to(ctx, v[0], owner);
        if (!o.isPrivate() || o.owner() != owner) SPU_THROW("reveal_to {} gives {}", owner, o.storage_type());
        return {o, hal::reveal(ctx, v[0]), hal::reveal(ctx, hal::seal(ctx, o))};
      }, {Expect(s, x.val).D(dt), Expect(s, x.val).D(dt), Expect(s, x.val).D(dt)}};
    }
    case 7: {  // prefix combinations along the last axis
      auto s = G.Sh(3, false);
      if (s.isScalar()) s = {4};
      s.back() = 1 + static_cast<int64_t>(g.below(7));
      const int k = static_cast<int>(g.below(3));
      auto x = G.Op(s, dt, [&] { return k == 1 ? G.Small() : G.Full(); });
      if (G.e.p.spdz2k) x.as_bool = false;
      Vec r = x.val;
      const int64_t N = s.back();
      for (size_t i = 0; i < r.size(); i++) if (i % N) r[i] = k == 0 ? r[i] + r[i - 1] : k == 1 ? (G.Sg(r[i]) > G.Sg(r[i - 1]) ? r[i] : r[i - 1]) : r[i - 1];
      for (auto& a : r) a &= G.e.M();
      return {"associative_scan", fmt::format("{} {}", s, k == 0 ? "add" : k == 1 ? "max" : "first"), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return {hal::associative_scan([k](Ctx* c, const Value& a, const Value& b) { return k == 0 ? hal::_add(c, a, b).setDtype(a.dtype()) : k == 1 ? hal::max(c, a, b) : a; }, ctx, v[0])};
      }, {Expect(s, r).D(dt)}};
    }
    default: {
      auto s = G.Sh(3, false);
      if (s.isScalar()) s = {4};
      s.back() = 1 + static_cast<int64_t>(g.below(9));
      const bool mx = g.chance(40);
      auto x = G.Op(s, dt, [&] { return mx ? G.Small() : G.Full(); });
      if (G.e.p.spdz2k) x.as_bool = false;
      Shape to = s.size() == 1 ? Shape{1} : Shape(s.begin(), s.end() - 1);
      Vec r(Numel(to), 0);
      const int64_t N = s.back();
      for (size_t i = 0; i < x.val.size(); i++) {
        auto& a = r[i / N];
        if (i % N == 0) a = x.val[i];
        else a = mx ? (G.Sg(x.val[i]) > G.Sg(a) ? x.val[i] : a) : a + x.val[i];
      }
      return {"associative_reduce", fmt::format("{} {}", s, mx ? "max" : "add"), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return {hal::associative_reduce([mx](Ctx* c, const Value& a, const Value& b) { return mx ? hal::max(c, a, b) : hal::_add(c, a, b).setDtype(a.dtype()); }, ctx, v[0])};
      }, {Expect(to, r).D(dt)}};
    }
  }
}

TStep Constants(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh();
  switch (g.below(5)) {
    case 0: {
      auto dt = g.pick(std::vector<DataType>{DT_I8, DT_U8, DT_I32, DT_I64, DT_F32, DT_F64});
      int64_t n = g.range(1, 100);
      if (G.e.f == FM32 && dt == DT_I64) dt = DT_I32;
      Vec r;
      for (int64_t i = 0; i < n; i++) r.push_back(dt >= DT_F16 ? uint128_t(i) << G.e.fxp : uint128_t(i));
      return {"iota", fmt::format("{}", n), {}, RUN(hal::iota(ctx, dt, n)), {Expect({n}, r).D(dt)}};
    }
    case 1: {
      auto dt = g.chance(50) ? G.Int() : G.Flt();
      return {"zeros", "", {}, RUN(hal::zeros(ctx, dt, sh)), {Expect(sh, Vec(Numel(sh), 0)).D(dt)}};
    }
    case 2: {
      auto dt = G.Flt();
      return {"epsilon", "", {}, RUN(hal::epsilon(ctx, dt, sh)), {Expect(sh, Vec(Numel(sh), 1)).D(dt)}};
    }
    case 3: {
      int64_t w = g.range(-1000, 1000);
      auto dt = DT_I32;
      if (sh.isScalar() || Numel(sh) == 0) sh = {3};
      return {"constant", "", {}, RUN(hal::constant(ctx, static_cast<int32_t>(w), dt, sh)), {Expect(sh, Vec(Numel(sh), static_cast<uint128_t>(w))).D(dt)}};
    }
    default: {
      float lo = static_cast<float>(g.range(-5, 4)), hi = lo + static_cast<float>(g.range(1, 6));
      if (Numel(sh) == 0) sh = {2, 2};
      auto l = G.e.Enc(lo), h = G.e.Enc(hi);
      auto& G0 = G.e;
      auto judge = [l, h, e = G0](const Vec& v) -> std::string {
        bool differ = false;
        for (auto a : v) {
          if (e.Sg(a) < e.Sg(l) || e.Sg(a) > e.Sg(h)) return "value outside the requested interval: " + Hex(a);
          differ = differ || a != v[0];
        }
        return v.size() >= 4 && !differ ? "all draws are equal" : "";
      };
      return {"rng_uniform", fmt::format("{}", sh), {}, RUN(hal::rng_uniform(ctx, hal::constant(ctx, lo, DT_F32), hal::constant(ctx, hi, DT_F32), sh)), {Expect(sh, judge).D(DT_F32)}};
    }
  }
}

void IntCase(Case& c, const Proto& p, bool pattern) {
  auto& g = c.rng;
  Env e{p, FM64, 18, {}};
  e.f = g.pick(FieldsOf(p));
  e.fxp = e.f == FM32 ? 8 : e.f == FM64 ? 18 : static_cast<size_t>(g.pick(std::vector<int>{18, 26, 40}));
  const bool par = g.chance(20), novec = g.chance(20);
  e.tweak = [=](MpcOpt& o) {
    o.cfg.experimental_enable_intra_op_par = par;
    o.cfg.experimental_disable_vectorization = novec;
  };
  Gen G(c, e);
  std::vector<TStep> st;
  const int n = p.cost >= 20 ? 2 : 5;
  for (int i = 0; i < n; i++) {
    uint64_t k = g.below(100);
    TStep s = k < 18 ? Arith(G) : k < 40 ? Bits(G) : k < 65 ? Order(G) : k < 74 ? Casts(G) : k < 83 ? Linear(G) : k < 95 && !p.spdz2k ? Shapes(G) : k < 97 && e.f == FM64 ? Idiv(G) : Constants(G);
    if (s.name == "mul-mixed") {
      Vec r;
      for (size_t t = 0; t < s.in[0].val.size(); t++) r.push_back(s.in[0].val[t] * s.in[1].val[t]);
      s.out.push_back(Expect(s.in[0].shape, r).D(s.in[0].dt));
      s.name = "mul";
    }
    // SWIFT has no common type for values of different owners
    if (p.kind == SWIFT && (s.name == "concatenate" || s.name == "update_slice" || s.name == "pad"))
      for (auto& o : s.in) if (o.vis == 1) o.vis = 2;
    st.push_back(std::move(s));
  }
  if (pattern) {
    for (auto& s : st)
      for (auto& o : s.in) if (o.vis == 0 && g.chance(50)) o.vis = 2;
    return RunPattern(c, e, "pat", st);
  }
  RunSteps(c, e, "int", st);
}
// Polynomials, with the hints about signs that the caller may give.
void PolyCase(Case& c, const Proto& p, bool measure) {
  auto& g = c.rng;
  FieldType f = FM64;
  size_t fb = static_cast<size_t>(g.range(12, 18));
  if (g.chance(30) && !p.spdz2k && p.kind != SWIFT) f = FM128, fb = static_cast<size_t>(g.range(18, 40));
  else if (g.chance(20)) f = FM32, fb = static_cast<size_t>(g.range(6, 9));
  const size_t deg = g.below(13);
  const bool px = g.chance(50);
  const double hi = f == FM32 ? 1.2 : 1.5;
  std::vector<float> cs;
  const bool pos = px && g.chance(50);  // every coefficient positive: so is the value
  for (size_t i = 0; i <= deg; i++) cs.push_back(static_cast<float>(g.chance(10) ? 0 : pos ? g.uniform(0, 2) : g.uniform(-2, 2)));
  const int64_t n = p.cost >= 20 ? 8 : p.npc == 1 ? 200 : 40;
  const size_t B = FieldBits(f);
  std::vector<uint128_t> xr;
  std::vector<double> x;
  const double u = std::ldexp(1.0, -static_cast<int>(fb));
  for (int64_t i = 0; i < n; i++) {
    double v = Draw(g, px ? 0 : -hi, hi, false);
    int64_t r = std::llround(v / u);
    x.push_back(static_cast<double>(r) * u);
    xr.push_back(static_cast<uint128_t>(static_cast<int128_t>(r)) & Mask(B));
  }
  const int vis = g.chance(10) ? 0 : g.chance(10) ? 1 : 2;
  const int owner = static_cast<int>(g.below(p.npc));
  const bool hx = px && g.chance(60), hr = pos && g.chance(60);
  Describe(c, fmt::format("{} {} polynomial of degree {} fxp {} vis {} hints {}{}", p.name, FieldName(f), deg, fb, vis, hx, hr));
  MpcOpt o;
  o.cfg.protocol = p.kind, o.cfg.field = f, o.cfg.fxp_fraction_bits = fb;
  o.npc = p.npc, o.spdz2k = p.spdz2k, o.seed = c.seed, o.jitter = g.u64();
  o.cfg.experimental_disable_vectorization = g.chance(20);
  auto r = RunMpc(o, [&](Ctx* ctx, size_t) {
    Value a = Share(ctx, PubValue(f, {n}, xr, DT_F32), vis, owner, false);
    Value z = hal::detail::polynomial(ctx, a, cs, hx ? SignType::Positive : SignType::Unknown, hr ? SignType::Positive : SignType::Unknown);
    if (z.shape() != Shape{n}) SPU_THROW("result shape {}", z.shape());
    if (!z.isPublic()) z = hal::reveal(ctx, z);
    return ReadRing(z.data());
  });
  if (!CheckOk(c, r, fmt::format("poly:{}", p.name))) return;
  for (size_t q = 1; q < r.out.size(); q++) if (*r.out[q] != *r.out[0]) Fail(c, "poly:parties-differ", "");
  for (int64_t i = 0; i < n; i++) {
    double want = cs[deg];
    for (size_t k = deg; k-- > 0;) want = want * x[i] + cs[k];
    if (deg == 0) want = cs[0];
    // every power is off by a few units, every coefficient by half a unit
    double tol = 4, pw = 1, ax = std::abs(x[i]);
    for (size_t k = 0; k <= deg; k++) {
      tol += 0.51 * pw + std::abs(cs[k]) * (k < 2 ? 0 : 2.1 * static_cast<double>(k) * std::max(1.0, pw));
      pw *= ax;
    }
    const double got = static_cast<double>(static_cast<long double>(S((*r.out[0])[i], B)) * u);
    const double err = std::abs(got - want);
    if (measure) std::fprintf(stderr, "M %s poly %zu %d %d %.9g %zu %.9g %.3g %.2f %.3f %d%d\n", p.name, fb, (int)B, vis == 0, x[i], deg, want, err, err / u, err / (tol * u), vis, 0);
    else if (!(err <= tol * u)) {
      std::string t;
      for (auto v : cs) t += fmt::format(" {}", v);
      Fail(c, fmt::format("poly:{}", p.name), fmt::format("f={} x={:.9g} coefficients{} got {:.9g} want {:.9g} tolerance {:.3g}", fb, x[i], t, got, want, tol * u));
      return;
    }
  }
  Count("polynomial values compared", n);
  Cover(fmt::format("poly/{}/{}/{}/{}/{}", p.name, FieldName(f), fb, deg, vis));
}
// Approximated functions, for their communication only.
void FxpPattern(Case& c, const Proto& p) {
  auto& g = c.rng;
  const Fn* fp = &g.pick(Fns());
  while (fp->dom) fp = &g.pick(Fns());
  const Fn& fn = *fp;
  Env e{p, FM64, 18, {}};
  if (fn.need == 0 && g.chance(25)) e.f = FM32, e.fxp = 8;
  e.tweak = [&fn](MpcOpt& o) { if (fn.cfg) fn.cfg(o.cfg); };
  const int64_t n = g.range(1, 6);
  TStep s;
  s.name = fn.name;
  for (int k = 0; k < fn.arity; k++) {
    Operand o;
    o.shape = {n};
    o.dt = DT_F32;
    const double lim = e.f == FM32 ? 20 : 1e9;
    for (int64_t i = 0; i < n; i++) o.val.push_back(e.Enc(std::max(-lim, std::min(lim, k == 0 ? Draw(g, fn.lo, std::min(fn.hi, 500.0), fn.logu) : Draw(g, fn.lo2, fn.hi2, fn.logu)))));
    o.owner = static_cast<int>(g.below(p.npc));
    if (g.chance(15)) o.vis = 1;
    s.in.push_back(o);
  }
  s.run = [&fn](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {fn.run(ctx, v[0], v.size() > 1 ? v[1] : v[0])}; };
  RunPattern(c, e, "pat", {s});
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  const bool meas = std::getenv("MEAS_ALL") != nullptr;
  for (auto& p : Protos()) {
    uint64_t q = p.npc == 1 ? 600 : p.cost >= 20 ? 40 : 150;
    uint64_t qi = p.npc == 1 ? 1500 : p.cost >= 20 ? 150 : 400;
    gs.push_back({std::string("int-") + p.name, qi, qi * 20, [p](Case& c) { IntCase(c, p, false); }});
    if (p.npc > 1) {
      gs.push_back({std::string("pat-int-") + p.name, qi / 3, qi * 6, [p](Case& c) { IntCase(c, p, true); }});
      gs.push_back({std::string("pat-fxp-") + p.name, q / 3, q * 6, [p](Case& c) { FxpPattern(c, p); }});
    }
    gs.push_back({std::string("fxp-poly-") + p.name, q / 3, q * 6, [p, meas](Case& c) { PolyCase(c, p, meas); }});
    gs.push_back({std::string("fxp-") + p.name, q, q * 20, [p, meas](Case& c) { FxpCase(c, p, meas); }});
  }
  return vh::Main(argc, argv, gs);
}
