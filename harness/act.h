// Independent reference of the activation functions (long double) and the tables that reach every route to them.
#ifndef ACT_H
#define ACT_H
#include "arith.h"
#include "core/activation.h"
typedef long double LD;
typedef MLPPActivation A_;
struct Act {
	const char *n; int id; std::function<LD(LD)> f; std::function<bool(double)> dom; std::function<bool(double)> smooth; double rtol, atol;
	A_::RealActivationFunctionPointer nr, dr; A_::VectorActivationFunctionPointer nv, dv; A_::MatrixActivationFunctionPointer nm, dm;
};
inline std::vector<Act> acts() {
	std::vector<Act> r;
	auto all = [](double) { return true; };
	auto no0 = [](double z) { return z != 0; };
#define ACT(ID, name, expr, dom_, smooth_, rt, at) r.push_back(Act{ #name, A_::ACTIVATION_FUNCTION_##ID, [](LD z) -> LD { return expr; }, dom_, smooth_, rt, at, &A_::name##_normr, &A_::name##_derivr, &A_::name##_normv, &A_::name##_derivv, &A_::name##_normm, &A_::name##_derivm })
	ACT(LINEAR, linear, z, all, all, 1e-6, 0);
	ACT(SIGMOID, sigmoid, 1 / (1 + expl(-z)), all, all, 1e-5, 1e-6);
	ACT(SWISH, swish, z / (1 + expl(-z)), all, all, 1e-5, 2e-6);
	ACT(MISH, mish, z * tanhl(log1pl(expl(z))), all, all, 1e-5, 5e-6);
	ACT(SIN_C, sinc, z == 0 ? 1 : sinl(z) / z, all, all, 2e-5, 5e-6);
	ACT(SOFTPLUS, softplus, log1pl(expl(z)), all, all, 1e-5, 1e-6);
	ACT(SOFTSIGN, softsign, z / (1 + fabsl(z)), all, all, 1e-5, 1e-6);
	ACT(C_LOG_LOG, cloglog, 1 - expl(-expl(z)), all, all, 2e-5, 2e-6);
	ACT(LOGIT, logit, logl(z / (1 - z)), [](double z) { return z > 0 && z < 1; }, all, 1e-5, 1e-6);
	ACT(GAUSSIAN_CDF, gaussian_cdf, 0.5L * erfcl(-z / sqrtl(2)), all, all, 1e-5, 1e-6);
	ACT(RELU, relu, z > 0 ? z : 0, all, no0, 1e-6, 0);
	ACT(GELU, gelu, 0.5L * z * (1 + tanhl(sqrtl(2 / M_PIl) * (z + 0.044715L * z * z * z))), all, all, 2e-5, 1e-5);
	ACT(SIGN, sign, z > 0 ? 1 : z < 0 ? -1 : 0, all, no0, 0, 0);
	ACT(UNIT_STEP, unit_step, z < 0 ? 0 : 1, all, no0, 0, 0);
	ACT(SINH, sinh, sinhl(z), all, all, 1e-5, 1e-6);
	ACT(COSH, cosh, coshl(z), all, all, 1e-5, 1e-6);
	ACT(TANH, tanh, tanhl(z), all, all, 1e-5, 1e-6);
	ACT(CSCH, csch, 1 / sinhl(z), no0, all, 2e-5, 1e-6);
	ACT(SECH, sech, 1 / coshl(z), all, all, 1e-5, 1e-6);
	ACT(COTH, coth, 1 / tanhl(z), no0, all, 2e-5, 1e-6);
	ACT(ARSINH, arsinh, asinhl(z), all, all, 1e-5, 3e-5);
	ACT(ARCOSH, arcosh, acoshl(z), [](double z) { return z > 1; }, all, 2e-5, 5e-6);
	ACT(ARTANH, artanh, atanhl(z), [](double z) { return z > -1 && z < 1; }, all, 1e-5, 1e-6);
	ACT(ARCSCH, arcsch, asinhl(1 / z), no0, all, 1e-5, 1e-5);
	ACT(ARSECH, arsech, acoshl(1 / z), [](double z) { return z > 0 && z < 1; }, all, 2e-5, 5e-6);
	ACT(ARCOTH, arcoth, atanhl(1 / z), [](double z) { return z < -1 || z > 1; }, all, 1e-5, 2e-6);
	for (Act &a : r) if (!strcmp(a.n, "softplus") || !strcmp(a.n, "sinh") || !strcmp(a.n, "cosh") || !strcmp(a.n, "arsinh")) a.dom = [](double z) { return std::fabs(z) <= 20; }; // beyond this the exponentials leave single precision
	return r;
}
inline std::vector<float> grid() { // both branches, both tails, the origin
	std::vector<float> g = { -100, -40, -20, -6, -3, -2, -1.5f, -1, -0.75f, -0.5f, -0.25f, -0.125f, 0, 0.125f, 0.25f, 0.5f, 0.75f, 0.9375f, 1, 1.25f, 1.5f, 2, 3, 6, 20, 40, 100 };
	if (mc::thorough()) for (int i = -96; i <= 96; i++) g.push_back(i / 16.f + 1 / 64.f);
	return g;
}
inline LD slope(const std::function<LD(LD)> &f, LD z) { // central differences, twice Richardson-extrapolated
	LD h = z == 0 ? 1e-6L : 1e-3L; // at the origin |z| inside some formulas spoils extrapolation
	auto d = [&](LD k) { return (f(z + k) - f(z - k)) / (2 * k); };
	LD a = d(h), b = d(h / 2), c = d(h / 4), ab = (4 * b - a) / 3, bc = (4 * c - b) / 3;
	return (16 * bc - ab) / 15;
}
inline bool near(LD e, double g, double rt, double at) { return mc::close((double)e, g, rt, at); }
#endif
