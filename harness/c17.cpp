// C17: floating arithmetic helpers: exact operations are exact, elementary functions are accurate, special values follow IEEE 754.
#include "vf.h"

static double ulp(double v) {
	v = std::fabs(v);
	if (!(v < INFINITY)) return INFINITY;
	return std::nextafter(v, INFINITY) - v;
}
static bool close(double got, long double want, double k = 16) {
	if (want != want) return got != got;
	double w = (double)want;
	if (std::isinf(w) || std::isinf(got)) return got == w || (std::fabs((double)got) > 1.79e308 && std::fabs(w) > 1.79e308 && (got > 0) == (w > 0));
	return std::fabs(got - w) <= k * ulp(w);
}
static void exact(Ctx& c, const char* f, double got, double want, double x, double y = 0, double z = 0) {
	CHECK(sameD(got, want) || (got != got && want != want), f, "(%.17g, %.17g, %.17g) gave %.17g expected %.17g", x, y, z, got, want);
	c.event("exact results");
}
static void near(Ctx& c, const char* f, double got, long double want, double x, double y = 0) {
	CHECK(close(got, want), f, "(%.17g, %.17g) gave %.17g expected %.17Lg", x, y, got, want);
	c.event("accurate results");
}
static double nextUp(double x) { return x != x || x == INFINITY ? x : std::nextafter(x, INFINITY); }
static double nextDown(double x) { return x != x || x == -INFINITY ? x : std::nextafter(x, -INFINITY); }
static double maxRef(double a, double b) { if (a != a) return a; if (b != b) return b; if (a == b) return std::signbit(a) ? b : a; return a > b ? a : b; }
static double minRef(double a, double b) { if (a != a) return a; if (b != b) return b; if (a == b) return std::signbit(a) ? a : b; return a < b ? a : b; }

static void two(Ctx& c, double x, double y, double z) {
	exact(c, "Max", Math::Max((Double)x, (Double)y), maxRef(x, y), x, y);
	exact(c, "Min", Math::Min((Double)x, (Double)y), minRef(x, y), x, y);
	double ax = std::fabs(x), ay = std::fabs(y);
	exact(c, "MaxMagnitude", Math::MaxMagnitude(x, y), ax != ax ? x : ay != ay ? y : ax > ay ? x : ax < ay ? y : std::signbit(x) ? y : x, x, y);
	exact(c, "MinMagnitude", Math::MinMagnitude(x, y), ax != ax ? x : ay != ay ? y : ax < ay ? x : ax > ay ? y : std::signbit(x) ? x : y, x, y);
	double got = 0;
	Ex e = run([&] { got = Math::Clamp((Double)x, (Double)y, (Double)z); });
	if (y > z) CHECK(e == MINMAX, "clamp to an empty range", "%g in [%g,%g]: %s", x, y, z, exName(e));
	else { CHECK(e == NOEX, "clamp refused", "%g in [%g,%g]", x, y, z); exact(c, "Clamp", got, x < y ? y : x > z ? z : x, x, y, z); }
	if (y == y) exact(c, "CopySign", Math::CopySign(x, y), std::copysign(x, y), x, y);
	exact(c, "FusedMultiplyAdd", Math::FusedMultiplyAdd(x, y, z), std::fma(x, y, z), x, y, z);
	exact(c, "IEEERemainder", Math::IEEERemainder(x, y), std::remainder(x, y), x, y);
	exact(c, "Divide", Math::Divide((Double)x, (Double)y), y == 0 ? (x == 0 || x != x ? NAN : std::signbit(x) != std::signbit(y) ? -INFINITY : INFINITY) : x / y, x, y);
	near(c, "Atan2", Math::Atan2(x, y), atan2l(x, y), x, y);
	if (x == x && y == y) near(c, "Pow", Math::Pow(x, y), pow(x, y), x, y);
	float fx = (float)x, fy = (float)y, fz = (float)z;
	exact(c, "Max(Single)", Math::Max((Single)fx, (Single)fy), (float)maxRef(fx, fy), fx, fy);
	exact(c, "Min(Single)", Math::Min((Single)fx, (Single)fy), (float)minRef(fx, fy), fx, fy);
	float fg = 0;
	e = run([&] { fg = Math::Clamp((Single)fx, (Single)fy, (Single)fz); });
	if (fy > fz) CHECK(e == MINMAX, "clamp to an empty range", "single %g in [%g,%g]", fx, fy, fz);
	else exact(c, "Clamp(Single)", fg, fx < fy ? fy : fx > fz ? fz : fx, fx, fy, fz);
	// logarithm to a base: NaN, 1 and the improper bases are special
	double l = Math::Log(x, y);
	if (x != x || y != y || y == 1 || (x != 1 && (y == 0 || y == INFINITY))) CHECK(l != l, "Log(base) special values", "(%g, %g) gave %g", x, y, l);
	else {
		double w = log(x) / log(y);
		CHECK((l != l && w != w) || close(l, w, 64), "Log(base)", "(%.17g, %.17g) gave %.17g expected %.17g", x, y, l, w);
	}
}
static void one(Ctx& c, double x) {
	exact(c, "Abs", Math::Abs((Double)x), std::fabs(x), x);
	exact(c, "Abs(Single)", Math::Abs((Single)(float)x), std::fabs((float)x), x);
	exact(c, "Ceiling", Math::Ceiling(x), std::ceil(x), x);
	exact(c, "Floor", Math::Floor(x), std::floor(x), x);
	exact(c, "Truncate", Math::Truncate(x), std::trunc(x), x);
	exact(c, "Round", Math::Round(x), std::rint(x), x);
	exact(c, "Sqrt", Math::Sqrt(x), std::sqrt(x), x);
	exact(c, "BitIncrement", Math::BitIncrement(x), nextUp(x), x);
	exact(c, "BitDecrement", Math::BitDecrement(x), nextDown(x), x);
	Int32 s = 7, fs = 7;
	Ex e = run([&] { s = Math::Sign((Double)x); }), e2 = run([&] { fs = Math::Sign((Single)(float)x); });
	if (x != x) CHECK(e == ARITH && e2 == ARITH, "sign of NaN", "%s %s", exName(e), exName(e2));
	else CHECK(e == NOEX && s == (x > 0) - (x < 0) && fs == ((float)x > 0) - ((float)x < 0), "Sign", "%.17g gave %d %d", x, s, fs);
	Int32 il = Math::ILogB(x);
	CHECK(il == (x == 0 ? INT_MIN : (x != x || std::isinf(x)) ? INT_MAX : ilogb(x)), "ILogB", "%.17g gave %d", x, il);
	near(c, "Sin", Math::Sin(x), sinl(x), x);
	near(c, "Cos", Math::Cos(x), cosl(x), x);
	near(c, "Tan", Math::Tan(x), tanl(x), x);
	near(c, "Asin", Math::Asin(x), asinl(x), x);
	near(c, "Acos", Math::Acos(x), acosl(x), x);
	near(c, "Atan", Math::Atan(x), atanl(x), x);
	near(c, "Sinh", Math::Sinh(x), sinhl(x), x);
	near(c, "Cosh", Math::Cosh(x), coshl(x), x);
	near(c, "Tanh", Math::Tanh(x), tanhl(x), x);
	near(c, "Asinh", Math::Asinh(x), asinhl(x), x);
	near(c, "Acosh", Math::Acosh(x), acoshl(x), x);
	near(c, "Atanh", Math::Atanh(x), atanhl(x), x);
	near(c, "Exp", Math::Exp(x), expl(x), x);
	near(c, "Log", Math::Log(x), logl(x), x);
	near(c, "Log10", Math::Log10(x), log10l(x), x);
	near(c, "Log2", Math::Log2(x), log2l(x), x);
	near(c, "Cbrt", Math::Cbrt(x), cbrtl(x), x);
	near(c, "Log(x,10)", Math::Log(x, 10), x != x ? (long double)NAN : logl(x) / logl(10.0L), x);
}
SECTION(single, 8, 16) {
	uint64_t n = c.n(160000, 5000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		double x;
		switch (r.below(4)) {
		case 0: x = (double)r.range(-4000000, 4000000) / 1048576.0; break;
		case 1: x = (double)r.range(-100, 100) / 2.0 + (r.chance(1, 2) ? 0 : dblOf(bitsOf(1e-15) + r.below(5))); break;
		default: x = interestingD(r);
		}
		c.begin(true, "%.17g", x);
		one(c, x);
		int nn = (int)(r.chance(1, 3) ? r.range(-2200, 2200) : interesting32(r));
		exact(c, "ScaleB", Math::ScaleB(x, nn), scalbn(x, nn), x, nn);
	}
}
SECTION(pairs, 8, 16) {
	uint64_t n = c.n(160000, 5000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		double x = interestingD(r), y = r.chance(1, 6) ? x : r.chance(1, 6) ? -x : interestingD(r), z = r.chance(1, 4) ? y : r.chance(1, 6) ? -x * y : interestingD(r);
		if (r.chance(1, 3)) { x = (double)r.range(-40, 40) / 4; y = (double)r.range(-40, 40) / 4; }
		c.begin(true, "%.17g %.17g %.17g", x, y, z);
		two(c, x, y, z);
	}
}
// rounding to a number of decimal digits: scaled rounding in every mode
SECTION(rounding, 8, 8) {
	uint64_t n = c.n(400000, 8000000);
	for (uint64_t h = 0; h < n; h++) {
		Rng& r = c.rng;
		double x;
		switch (r.below(4)) {
		case 0: x = (double)r.range(-100000, 100000) / 8.0; break;
		case 1: x = (double)r.range(-1000000, 1000000) / 1000.0; break;
		case 2: x = (r.chance(1, 2) ? 1e16 : -1e16) + (double)r.range(-8, 8); break;
		default: x = interestingD(r);
		}
		int d = r.chance(1, 8) ? interesting32(r) : (int)r.range(-1, 16), m = r.chance(1, 10) ? (int)r.range(-2, 7) : (int)r.below(5);
		c.begin(true, "round %.17g to %d digits, mode %d", x, d, m);
		double got = 0, g2 = 0;
		Ex e = run([&] { got = Math::Round(x, d, (MidpointRounding)(m & 7)); }), e2 = run([&] { g2 = Math::Round(x, d); });
		int mode = m & 7;
		bool dOk = d >= 0 && d <= 15;
		if (!dOk) { CHECK(isErr(e) && isErr(e2), "bad digit count accepted", "%s", exName(e)); c.event("refused"); continue; }
		CHECK(e2 == NOEX, "rounding refused", "%s", exName(e2));
		if (mode > 4) { CHECK(isErr(e), "bad mode accepted", "%s", exName(e)); c.event("refused"); continue; }
		CHECK(e == NOEX, "rounding refused", "%s", exName(e));
		auto ref = [&](int md) {
			if (!(std::fabs(x) < 1e16)) return x;
			static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
			double v = x * p10[d], q;
			switch (md) {
			case 0: q = std::rint(v); break;
			case 1: { double t = std::trunc(v); q = std::fabs(v - t) >= 0.5 ? t + (v > 0 ? 1 : -1) : t; break; }
			case 2: q = std::trunc(v); break;
			case 3: q = std::floor(v); break;
			default: q = std::ceil(v); break;
			}
			return q / p10[d];
		};
		double w = ref(mode), w2 = ref(0);
		CHECK(got == w || (got != got && w != w), "Round(digits, mode)", "gave %.17g expected %.17g", got, w);
		CHECK(g2 == w2 || (g2 != g2 && w2 != w2), "Round(digits)", "gave %.17g expected %.17g", g2, w2);
		c.event("rounded");
	}
	c.begin(true, "constants");
	CHECK(Math::PI == M_PI && Math::E == M_E, "constants", "PI %.17g E %.17g", Math::PI, Math::E);
}
