// MC: variant=asan
// C63: the functions of the library are pure. Every function of the numeric facades and every method of the vector, matrix and tensor objects, on every choice and aliasing of arguments from a small pool:
// operands stay as they were, results are fresh objects, the same call gives the same bits, operands and results are released in full.
#include "hist.h"
#include <functional>
#include <random>
#include <tuple>
#include <type_traits>
#include "core/lin_alg.h"
#include "core/activation.h"
#include "core/cost.h"
#include "core/reg.h"
#include "core/stat.h"
#include "core/transforms.h"
#include "core/convolutions.h"
#include "core/numerical_analysis.h"
#include "core/data.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static unsigned g_draws = 0;
namespace std { unsigned int random_device::_M_getval() { return ++g_draws * 2654435761u; } }
typedef std::vector<float> Fl; typedef std::vector<int> Ix;
typedef Ref<MLPPMatrix> RM; typedef Ref<MLPPVector> RV; typedef Ref<MLPPTensor3> RT;
template <class T> static Fl flat(const T &m) { return Fl(m->ptr(), m->ptr() + m->data_size()); }
static Fl flat(const RV &m) { return Fl(m->ptr(), m->ptr() + m->size()); }
static int N = 2; // operands are N x N matrices, N-vectors and N x N x N tensors
static Fl mv(int i) { Fl r; for (int y = 0; y < N; y++) for (int x = 0; x < N; x++) r.push_back(i ? (x == y ? 0.5 + 0.25 * y : 0.25 / (1 + std::abs(x - y))) : (x == y ? 4 - y : 1.0 / (1 + std::abs(x - y)))); return r; } // symmetric, positive definite
static Fl vv(int i) { Fl r; for (int y = 0; y < N; y++) r.push_back(i ? 0.75 / (1 + 2 * y) : 0.5 - 0.125 * y); return r; }
static Fl tv(int i) { Fl r; for (int y = 0; y < N * N * N; y++) r.push_back(0.25 + (y * (i ? 5 : 3) % 11) * 0.375); return r; }
struct Pool { RM m[2]; RV v[2]; RT t[2]; bool clone = false; // clone: every argument is a copy of its own, so nothing aliases
	RM gm(int i) { if (!clone) return m[i]; RM r; r.instance(); r->resize(m[i]->size()); for (int j = 0; j < m[i]->data_size(); j++) r->element_set_index(j, m[i]->element_get_index(j)); return r; }
	RV gv(int i) { if (!clone) return v[i]; RV r; r.instance(); r->resize(v[i]->size()); for (int j = 0; j < v[i]->size(); j++) r->element_set(j, v[i]->element_get(j)); return r; }
	RT gt(int i) { if (!clone) return t[i]; RT r; r.instance(); r->resize(t[i]->size()); for (int j = 0; j < t[i]->data_size(); j++) r->element_set_index(j, t[i]->element_get_index(j)); return r; }
	Pool() { for (int i = 0; i < 2; i++) { m[i].instance(); m[i]->resize(Size2i(N, N)); for (int j = 0; j < N * N; j++) m[i]->element_set_index(j, mv(i)[j]); v[i].instance(); v[i]->resize(N); for (int j = 0; j < N; j++) v[i]->element_set(j, vv(i)[j]); t[i].instance(); t[i]->resize(Size3i(N, N, N)); for (int j = 0; j < N * N * N; j++) t[i]->element_set_index(j, tv(i)[j]); } }
	bool same(const void *but, std::string *what) const { for (int i = 0; i < 2; i++) { // bit for bit, shape included
			if (m[i].ptr() != but && (m[i]->size() != Size2i(N, N) || flat(m[i]) != mv(i))) { *what = mc::fmt("matrix %d", i); return false; } if (v[i].ptr() != but && (v[i]->size() != N || flat(v[i]) != vv(i))) { *what = mc::fmt("vector %d", i); return false; } if (t[i].ptr() != but && (t[i]->size() != Size3i(N, N, N) || flat(t[i]) != tv(i))) { *what = mc::fmt("tensor %d", i); return false; } }
		return true; }
	bool has(const void *p) const { for (int i = 0; i < 2; i++) if (m[i].ptr() == p || v[i].ptr() == p || t[i].ptr() == p) return true; return false; }
	bool owned() const { for (int i = 0; i < 2; i++) if (m[i]->reference_get_count() != 1 || v[i]->reference_get_count() != 1 || t[i]->reference_get_count() != 1) return false; return true; } };
static real_t f1(real_t x) { return x * x - 2; }
static real_t fv(const RV &x) { real_t s = 0; for (int i = 0; i < x->size(); i++) s += (i + 1) * x->element_get(i) * x->element_get(i); return s; }
// ---- arguments: how many choices a type has, and each of them
static int ints[2] = { 1, 0 };
template <class T> struct Arg { static int n() { return std::is_enum<T>::value ? 5 : 2; } static T get(Pool &, int i) { return num(i, std::is_enum<T>()); } static T num(int i, std::true_type) { return (T)i; } static T num(int i, std::false_type) { return std::is_same<T, real_t>::value ? (T)(i ? 1.25 : 0.5) : (T)(ints[i]); } };
template <> struct Arg<RM> { static int n() { return 2; } static RM get(Pool &p, int i) { return p.gm(i); } };
template <> struct Arg<RV> { static int n() { return 2; } static RV get(Pool &p, int i) { return p.gv(i); } };
template <> struct Arg<RT> { static int n() { return 2; } static RT get(Pool &p, int i) { return p.gt(i); } };
template <> struct Arg<Vector<RM>> { static int n() { return 2; } static Vector<RM> get(Pool &p, int i) { Vector<RM> r; r.push_back(p.gm(0)); r.push_back(p.gm(1 - i)); return r; } };
template <> struct Arg<Vector<RV>> { static int n() { return 2; } static Vector<RV> get(Pool &p, int i) { Vector<RV> r; r.push_back(p.gv(0)); r.push_back(p.gv(1 - i)); return r; } };
template <> struct Arg<Vector<real_t>> { static int n() { return 1; } static Vector<real_t> get(Pool &, int) { Vector<real_t> r; for (int k = 0; k < N; k++) r.push_back(0.5 + 0.75 * k); return r; } };
template <> struct Arg<Vector<Vector<real_t>>> { static int n() { return 1; } static Vector<Vector<real_t>> get(Pool &p, int) { Vector<Vector<real_t>> r; for (int k = 0; k < N; k++) r.push_back(Arg<Vector<real_t>>::get(p, 0)); return r; } };
template <> struct Arg<PoolRealArray> { static int n() { return 1; } static PoolRealArray get(Pool &, int) { PoolRealArray r; for (int k = 0; k < N; k++) r.push_back(0.5 + 0.75 * k); return r; } };
template <> struct Arg<Size2i> { static int n() { return 2; } static Size2i get(Pool &, int i) { return Size2i(N + i, N); } };
template <> struct Arg<Size3i> { static int n() { return 2; } static Size3i get(Pool &, int i) { return i ? Size3i(N, N * N, 1) : Size3i(N, N, N); } };
template <> struct Arg<real_t (*)(real_t)> { static int n() { return 1; } static real_t (*get(Pool &, int))(real_t) { return f1; } };
template <> struct Arg<real_t (*)(const RV &)> { static int n() { return 1; } static real_t (*get(Pool &, int))(const RV &) { return fv; } };
template <class T> struct Arg<T *> { }; // other pointers: not called
template <> struct Arg<MLPPMatrix> { static int n() { return 2; } static MLPPMatrix &get(Pool &p, int i) { return *p.m[i].ptr(); } };
template <> struct Arg<MLPPVector> { static int n() { return 2; } static MLPPVector &get(Pool &p, int i) { return *p.v[i].ptr(); } };
template <> struct Arg<MLPPTensor3> { static int n() { return 2; } static MLPPTensor3 &get(Pool &p, int i) { return *p.t[i].ptr(); } };
// ---- receivers
template <class C> struct Recv { static int n() { return 1; } static C *get(Pool &, int, C &own) { return &own; } };
template <> struct Recv<MLPPMatrix> { static int n() { return 2; } static MLPPMatrix *get(Pool &p, int i, MLPPMatrix &) { return p.m[i].ptr(); } };
template <> struct Recv<MLPPVector> { static int n() { return 2; } static MLPPVector *get(Pool &p, int i, MLPPVector &) { return p.v[i].ptr(); } };
template <> struct Recv<MLPPTensor3> { static int n() { return 2; } static MLPPTensor3 *get(Pool &p, int i, MLPPTensor3 &) { return p.t[i].ptr(); } };
// ---- results: what they say, and the objects they consist of
struct Out { Fl d; std::vector<const void *> o; bool scribble = false; };
template <class T> static typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type rd(Out &o, T v) { o.d.push_back(v); }
template <class T> static void robj(Out &o, const Ref<T> &r, int n) { o.o.push_back(r.ptr()); o.d.push_back(-12345); for (int i = 0; i < n; i++) o.d.push_back(r->ptr()[i]); if (o.scribble) { T *w = const_cast<T *>(r.ptr()); for (int i = 0; i < n; i++) w->ptrw()[i] = 77; } }
static void rd(Out &o, const RM &r) { if (!r.is_valid()) { o.d.push_back(-2000); return; } o.d.push_back(r->size().x); robj(o, r, r->data_size()); }
static void rd(Out &o, const RV &r) { if (!r.is_valid()) { o.d.push_back(-2000); return; } robj(o, r, r->size()); }
static void rd(Out &o, const RT &r) { if (!r.is_valid()) { o.d.push_back(-2000); return; } o.d.push_back(r->size().x); o.d.push_back(r->size().z); robj(o, r, r->data_size()); }
static void rd(Out &o, const Size2i &r) { o.d.push_back(r.x); o.d.push_back(r.y); }
static void rd(Out &o, const Size3i &r) { o.d.push_back(r.x); o.d.push_back(r.y); o.d.push_back(r.z); }
static void rd(Out &o, const PoolRealArray &a) { for (int i = 0; i < a.size(); i++) o.d.push_back(a.get(i)); }
template <class T> static void rd(Out &o, const Vector<T> &a) { o.d.push_back(a.size()); for (int i = 0; i < a.size(); i++) rd(o, a[i]); }
static void rd(Out &o, const MLPPMatrix::EigenResult &r) { rd(o, r.eigen_vectors); rd(o, r.eigen_values); }
static void rd(Out &o, const MLPPMatrix::SVDResult &r) { rd(o, r.U); rd(o, r.S); rd(o, r.Vt); }
static void rd(Out &o, const MLPPLinAlg::EigenResult &r) { rd(o, r.eigen_vectors); rd(o, r.eigen_values); }
static void rd(Out &o, const MLPPLinAlg::SVDResult &r) { rd(o, r.U); rd(o, r.S); rd(o, r.Vt); }
static void rd(Out &o, const MLPPLinAlg::QRDResult &r) { rd(o, r.Q); rd(o, r.R); }
static void rd(Out &o, const MLPPLinAlg::CholeskyResult &r) { rd(o, r.L); rd(o, r.Lt); }
// ---- one function, with its types erased: arity choices, and a call that also reports the receiver
struct Fn { std::string n; Ix dims; bool pure, into; std::function<const void *(Pool &, const Ix &, Out &)> call; };
static std::vector<Fn> fns;
template <class A> using B = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template <class R> struct Caller { template <class F> static void go(Out &o, F f) { rd(o, f()); } };
template <> struct Caller<void> { template <class F> static void go(Out &, F f) { f(); } };
template <class C, class R, class M, class... A, size_t... I> static void add(const char *n, M f, bool is_const, std::index_sequence<I...>) {
	Ix d{ Recv<C>::n() }; int u[] = { 0, (d.push_back(Arg<B<A>>::n()), 0)... }; (void)u; std::string s = n; bool obj = !std::is_void<R>::value && !std::is_arithmetic<R>::value;
	fns.push_back({ s, d, is_const || obj || Recv<C>::n() == 1, s.find("into") != std::string::npos || s.find("MLPPConvolutions::get_") == 0 || (std::is_void<R>::value && (Recv<C>::n() == 1 || s.back() == 'o')), [f](Pool &p, const Ix &x, Out &o) -> const void * { static C own; C *r = Recv<C>::get(p, x[0], own); Caller<R>::go(o, [&]() -> R { return (r->*f)(Arg<B<A>>::get(p, x[I + 1])...); }); return r; } });
}
template <class C, class R, class... A> static void reg(const char *n, R (C::*f)(A...)) { add<C, R, R (C::*)(A...), A...>(n, f, false, std::index_sequence_for<A...>()); }
template <class C, class R, class... A> static void reg(const char *n, R (C::*f)(A...) const) { add<C, R, R (C::*)(A...) const, A...>(n, f, true, std::index_sequence_for<A...>()); }
static void list() {
#define F(c, n) reg(#c "::" #n, &c::n);
	F(MLPPLinAlg, gram_matrix) F(MLPPLinAlg, linear_independence_checker) F(MLPPLinAlg, gaussian_noise) F(MLPPLinAlg, additionnm) F(MLPPLinAlg, subtractionnm) F(MLPPLinAlg, matmultnm) F(MLPPLinAlg, hadamard_productnm) F(MLPPLinAlg, kronecker_productnm) F(MLPPLinAlg, division_element_wisenvnm) F(MLPPLinAlg, transposenm) F(MLPPLinAlg, scalar_multiplynm) F(MLPPLinAlg, scalar_addnm)
	F(MLPPLinAlg, lognm) F(MLPPLinAlg, log10nm) F(MLPPLinAlg, expnm) F(MLPPLinAlg, erfnm) F(MLPPLinAlg, exponentiatenm) F(MLPPLinAlg, sqrtnm) F(MLPPLinAlg, cbrtnm) F(MLPPLinAlg, absnm) F(MLPPLinAlg, detm) F(MLPPLinAlg, cofactornm) F(MLPPLinAlg, adjointnm) F(MLPPLinAlg, inversenm)
	F(MLPPLinAlg, pinversenm) F(MLPPLinAlg, zeromatnm) F(MLPPLinAlg, onematnm) F(MLPPLinAlg, fullnm) F(MLPPLinAlg, sinnm) F(MLPPLinAlg, cosnm) F(MLPPLinAlg, maxnm) F(MLPPLinAlg, identitym) F(MLPPLinAlg, covnm) F(MLPPLinAlg, eigen) F(MLPPLinAlg, svd) F(MLPPLinAlg, vector_projection)
	F(MLPPLinAlg, gram_schmidt_process) F(MLPPLinAlg, qrd) F(MLPPLinAlg, cholesky) F(MLPPLinAlg, flattenvvnv) F(MLPPLinAlg, solve) F(MLPPLinAlg, positive_definite_checker) F(MLPPLinAlg, negative_definite_checker) F(MLPPLinAlg, zero_eigenvalue) F(MLPPLinAlg, flattenmnv) F(MLPPLinAlg, hadamard_productnv) F(MLPPLinAlg, hadamard_productv) F(MLPPLinAlg, division_element_wisenv)
	F(MLPPLinAlg, scalar_multiplynv) F(MLPPLinAlg, scalar_multiplyv) F(MLPPLinAlg, scalar_addnv) F(MLPPLinAlg, scalar_addv) F(MLPPLinAlg, additionnv) F(MLPPLinAlg, additionv) F(MLPPLinAlg, subtractionnv) F(MLPPLinAlg, subtractionv) F(MLPPLinAlg, lognv) F(MLPPLinAlg, log10nv) F(MLPPLinAlg, expnv) F(MLPPLinAlg, erfnv)
	F(MLPPLinAlg, exponentiatenv) F(MLPPLinAlg, sqrtnv) F(MLPPLinAlg, cbrtnv) F(MLPPLinAlg, dotnv) F(MLPPLinAlg, absv) F(MLPPLinAlg, zerovecnv) F(MLPPLinAlg, onevecnv) F(MLPPLinAlg, fullnv) F(MLPPLinAlg, sinnv) F(MLPPLinAlg, cosnv) F(MLPPLinAlg, maxnvv) F(MLPPLinAlg, maxvr)
	F(MLPPLinAlg, minvr) F(MLPPLinAlg, euclidean_distance) F(MLPPLinAlg, euclidean_distance_squared) F(MLPPLinAlg, norm_sqv) F(MLPPLinAlg, sum_elementsv) F(MLPPLinAlg, mat_vec_multnv) F(MLPPLinAlg, subtract_matrix_rowsnv) F(MLPPLinAlg, outer_product) F(MLPPLinAlg, mat_vec_addnm) F(MLPPLinAlg, diagnm) F(MLPPLinAlg, additionnvt) F(MLPPLinAlg, division_element_wisevt)
	F(MLPPLinAlg, division_element_wisenvnvt) F(MLPPLinAlg, sqrtnvt) F(MLPPLinAlg, exponentiatenvt) F(MLPPLinAlg, scalar_multiplynvt) F(MLPPLinAlg, scalar_addnvt) F(MLPPLinAlg, resizencvt) F(MLPPLinAlg, maxnvt) F(MLPPLinAlg, absnvt)
	F(MLPPActivation, run_activation_real) F(MLPPActivation, run_activation_vector) F(MLPPActivation, run_activation_matrix) F(MLPPActivation, run_activation_norm_real) F(MLPPActivation, run_activation_norm_vector) F(MLPPActivation, run_activation_norm_matrix) F(MLPPActivation, run_activation_deriv_real) F(MLPPActivation, run_activation_deriv_vector) F(MLPPActivation, run_activation_deriv_matrix) F(MLPPActivation, activationr) F(MLPPActivation, linear_normr) F(MLPPActivation, linear_normv)
	F(MLPPActivation, linear_normm) F(MLPPActivation, linear_derivr) F(MLPPActivation, linear_derivv) F(MLPPActivation, linear_derivm) F(MLPPActivation, sigmoid_normr) F(MLPPActivation, sigmoid_normv) F(MLPPActivation, sigmoid_normm) F(MLPPActivation, sigmoid_derivr) F(MLPPActivation, sigmoid_derivv) F(MLPPActivation, sigmoid_derivm) F(MLPPActivation, softmax_normr) F(MLPPActivation, softmax_normv)
	F(MLPPActivation, softmax_normm) F(MLPPActivation, softmax_derivr) F(MLPPActivation, softmax_derivv) F(MLPPActivation, softmax_derivm) F(MLPPActivation, adj_softmax_normr) F(MLPPActivation, adj_softmax_normv) F(MLPPActivation, adj_softmax_normm) F(MLPPActivation, adj_softmax_derivr) F(MLPPActivation, adj_softmax_derivv) F(MLPPActivation, adj_softmax_derivm) F(MLPPActivation, softmax_deriv_normv) F(MLPPActivation, softmax_deriv_normm)
	F(MLPPActivation, softmax_deriv_derivv) F(MLPPActivation, softmax_deriv_derivm) F(MLPPActivation, softplus_normr) F(MLPPActivation, softplus_normv) F(MLPPActivation, softplus_normm) F(MLPPActivation, softplus_derivr) F(MLPPActivation, softplus_derivv) F(MLPPActivation, softplus_derivm) F(MLPPActivation, softsign_normr) F(MLPPActivation, softsign_normv) F(MLPPActivation, softsign_normm) F(MLPPActivation, softsign_derivr)
	F(MLPPActivation, softsign_derivv) F(MLPPActivation, softsign_derivm) F(MLPPActivation, gaussian_cdf_normr) F(MLPPActivation, gaussian_cdf_normv) F(MLPPActivation, gaussian_cdf_normm) F(MLPPActivation, gaussian_cdf_derivr) F(MLPPActivation, gaussian_cdf_derivv) F(MLPPActivation, gaussian_cdf_derivm) F(MLPPActivation, cloglog_normr) F(MLPPActivation, cloglog_normv) F(MLPPActivation, cloglog_normm) F(MLPPActivation, cloglog_derivr)
	F(MLPPActivation, cloglog_derivv) F(MLPPActivation, cloglog_derivm) F(MLPPActivation, logit_normr) F(MLPPActivation, logit_normv) F(MLPPActivation, logit_normm) F(MLPPActivation, logit_derivr) F(MLPPActivation, logit_derivv) F(MLPPActivation, logit_derivm) F(MLPPActivation, unit_step_normr) F(MLPPActivation, unit_step_normv) F(MLPPActivation, unit_step_normm) F(MLPPActivation, unit_step_derivr)
	F(MLPPActivation, unit_step_derivv) F(MLPPActivation, unit_step_derivm) F(MLPPActivation, swish_normr) F(MLPPActivation, swish_normv) F(MLPPActivation, swish_normm) F(MLPPActivation, swish_derivr) F(MLPPActivation, swish_derivv) F(MLPPActivation, swish_derivm) F(MLPPActivation, mish_normr) F(MLPPActivation, mish_normv) F(MLPPActivation, mish_normm) F(MLPPActivation, mish_derivr)
	F(MLPPActivation, mish_derivv) F(MLPPActivation, mish_derivm) F(MLPPActivation, sinc_normr) F(MLPPActivation, sinc_normv) F(MLPPActivation, sinc_normm) F(MLPPActivation, sinc_derivr) F(MLPPActivation, sinc_derivv) F(MLPPActivation, sinc_derivm) F(MLPPActivation, relu_normr) F(MLPPActivation, relu_normv) F(MLPPActivation, relu_normm) F(MLPPActivation, relu_derivr)
	F(MLPPActivation, relu_derivv) F(MLPPActivation, relu_derivm) F(MLPPActivation, leaky_relu_normr) F(MLPPActivation, leaky_relu_normv) F(MLPPActivation, leaky_relu_normm) F(MLPPActivation, leaky_relu_derivr) F(MLPPActivation, leaky_relu_derivv) F(MLPPActivation, leaky_relu_derivm) F(MLPPActivation, elu_normr) F(MLPPActivation, elu_normv) F(MLPPActivation, elu_normm) F(MLPPActivation, elu_derivr)
	F(MLPPActivation, elu_derivv) F(MLPPActivation, elu_derivm) F(MLPPActivation, selu_normr) F(MLPPActivation, selu_normv) F(MLPPActivation, selu_normm) F(MLPPActivation, selu_derivr) F(MLPPActivation, selu_derivv) F(MLPPActivation, selu_derivm) F(MLPPActivation, gelu_normr) F(MLPPActivation, gelu_normv) F(MLPPActivation, gelu_normm) F(MLPPActivation, gelu_derivr)
	F(MLPPActivation, gelu_derivv) F(MLPPActivation, gelu_derivm) F(MLPPActivation, sign_normr) F(MLPPActivation, sign_normv) F(MLPPActivation, sign_normm) F(MLPPActivation, sign_derivr) F(MLPPActivation, sign_derivv) F(MLPPActivation, sign_derivm) F(MLPPActivation, sinh_normr) F(MLPPActivation, sinh_normv) F(MLPPActivation, sinh_normm) F(MLPPActivation, sinh_derivr)
	F(MLPPActivation, sinh_derivv) F(MLPPActivation, sinh_derivm) F(MLPPActivation, cosh_normr) F(MLPPActivation, cosh_normv) F(MLPPActivation, cosh_normm) F(MLPPActivation, cosh_derivr) F(MLPPActivation, cosh_derivv) F(MLPPActivation, cosh_derivm) F(MLPPActivation, tanh_normr) F(MLPPActivation, tanh_normv) F(MLPPActivation, tanh_normm) F(MLPPActivation, tanh_derivr)
	F(MLPPActivation, tanh_derivv) F(MLPPActivation, tanh_derivm) F(MLPPActivation, csch_normr) F(MLPPActivation, csch_normv) F(MLPPActivation, csch_normm) F(MLPPActivation, csch_derivr) F(MLPPActivation, csch_derivv) F(MLPPActivation, csch_derivm) F(MLPPActivation, sech_normr) F(MLPPActivation, sech_normv) F(MLPPActivation, sech_normm) F(MLPPActivation, sech_derivr)
	F(MLPPActivation, sech_derivv) F(MLPPActivation, sech_derivm) F(MLPPActivation, coth_normr) F(MLPPActivation, coth_normv) F(MLPPActivation, coth_normm) F(MLPPActivation, coth_derivr) F(MLPPActivation, coth_derivv) F(MLPPActivation, coth_derivm) F(MLPPActivation, arsinh_normr) F(MLPPActivation, arsinh_normv) F(MLPPActivation, arsinh_normm) F(MLPPActivation, arsinh_derivr)
	F(MLPPActivation, arsinh_derivv) F(MLPPActivation, arsinh_derivm) F(MLPPActivation, arcosh_normr) F(MLPPActivation, arcosh_normv) F(MLPPActivation, arcosh_normm) F(MLPPActivation, arcosh_derivr) F(MLPPActivation, arcosh_derivv) F(MLPPActivation, arcosh_derivm) F(MLPPActivation, artanh_normr) F(MLPPActivation, artanh_normv) F(MLPPActivation, artanh_normm) F(MLPPActivation, artanh_derivr)
	F(MLPPActivation, artanh_derivv) F(MLPPActivation, artanh_derivm) F(MLPPActivation, arcsch_normr) F(MLPPActivation, arcsch_normv) F(MLPPActivation, arcsch_normm) F(MLPPActivation, arcsch_derivr) F(MLPPActivation, arcsch_derivv) F(MLPPActivation, arcsch_derivm) F(MLPPActivation, arsech_normr) F(MLPPActivation, arsech_normv) F(MLPPActivation, arsech_normm) F(MLPPActivation, arsech_derivr)
	F(MLPPActivation, arsech_derivv) F(MLPPActivation, arsech_derivm) F(MLPPActivation, arcoth_normr) F(MLPPActivation, arcoth_normv) F(MLPPActivation, arcoth_normm) F(MLPPActivation, arcoth_derivr) F(MLPPActivation, arcoth_derivv) F(MLPPActivation, arcoth_derivm)
	F(MLPPCost, msev) F(MLPPCost, msem) F(MLPPCost, mse_derivv) F(MLPPCost, mse_derivm) F(MLPPCost, rmsev) F(MLPPCost, rmsem) F(MLPPCost, rmse_derivv) F(MLPPCost, rmse_derivm) F(MLPPCost, maev) F(MLPPCost, maem) F(MLPPCost, mae_derivv) F(MLPPCost, mae_derivm)
	F(MLPPCost, mbev) F(MLPPCost, mbem) F(MLPPCost, mbe_derivv) F(MLPPCost, mbe_derivm) F(MLPPCost, log_lossv) F(MLPPCost, log_lossm) F(MLPPCost, log_loss_derivv) F(MLPPCost, log_loss_derivm) F(MLPPCost, cross_entropyv) F(MLPPCost, cross_entropym) F(MLPPCost, cross_entropy_derivv) F(MLPPCost, cross_entropy_derivm)
	F(MLPPCost, huber_lossv) F(MLPPCost, huber_lossm) F(MLPPCost, huber_loss_derivv) F(MLPPCost, huber_loss_derivm) F(MLPPCost, hinge_lossv) F(MLPPCost, hinge_lossm) F(MLPPCost, hinge_loss_derivv) F(MLPPCost, hinge_loss_derivm) F(MLPPCost, hinge_losswv) F(MLPPCost, hinge_losswm) F(MLPPCost, hinge_loss_derivwv) F(MLPPCost, hinge_loss_derivwm)
	F(MLPPCost, wasserstein_lossv) F(MLPPCost, wasserstein_lossm) F(MLPPCost, wasserstein_loss_derivv) F(MLPPCost, wasserstein_loss_derivm) F(MLPPCost, dual_form_svm) F(MLPPCost, dual_form_svm_deriv) F(MLPPCost, run_cost_norm_vector) F(MLPPCost, run_cost_norm_matrix) F(MLPPCost, run_cost_deriv_vector) F(MLPPCost, run_cost_deriv_matrix)
	F(MLPPReg, reg_termv) F(MLPPReg, reg_termm) F(MLPPReg, reg_weightsv) F(MLPPReg, reg_weightsm) F(MLPPReg, reg_deriv_termv) F(MLPPReg, reg_deriv_termm)
	F(MLPPStat, b0_estimation) F(MLPPStat, b1_estimation) F(MLPPStat, median) F(MLPPStat, mode) F(MLPPStat, range) F(MLPPStat, midrange) F(MLPPStat, abs_avg_deviation) F(MLPPStat, correlation) F(MLPPStat, r2) F(MLPPStat, chebyshev_ineq) F(MLPPStat, meanv) F(MLPPStat, standard_deviationv)
	F(MLPPStat, variancev) F(MLPPStat, covariancev) F(MLPPStat, weighted_mean) F(MLPPStat, geometric_mean) F(MLPPStat, harmonic_mean) F(MLPPStat, rms) F(MLPPStat, power_mean) F(MLPPStat, lehmer_mean) F(MLPPStat, weighted_lehmer_mean) F(MLPPStat, contra_harmonic_mean) F(MLPPStat, heronian_mean) F(MLPPStat, heinz_mean)
	F(MLPPStat, neuman_sandor_mean) F(MLPPStat, stolarsky_mean) F(MLPPStat, identric_mean) F(MLPPStat, log_mean)
	F(MLPPTransforms, discrete_cosine_transform)
	F(MLPPConvolutions, convolve_2d) F(MLPPConvolutions, convolve_3d) F(MLPPConvolutions, pool_2d) F(MLPPConvolutions, pool_3d) F(MLPPConvolutions, global_pool_2d) F(MLPPConvolutions, global_pool_3d) F(MLPPConvolutions, gaussian_2d) F(MLPPConvolutions, gaussian_filter_2d) F(MLPPConvolutions, dx) F(MLPPConvolutions, dy) F(MLPPConvolutions, grad_magnitude) F(MLPPConvolutions, grad_orientation)
	F(MLPPConvolutions, compute_m) F(MLPPConvolutions, compute_mv) F(MLPPConvolutions, get_prewitt_horizontal) F(MLPPConvolutions, get_prewitt_vertical) F(MLPPConvolutions, get_sobel_horizontal) F(MLPPConvolutions, get_sobel_vertical) F(MLPPConvolutions, get_scharr_horizontal) F(MLPPConvolutions, get_scharr_vertical) F(MLPPConvolutions, get_roberts_horizontal) F(MLPPConvolutions, get_roberts_vertical)
	F(MLPPNumericalAnalysis, num_diffr) F(MLPPNumericalAnalysis, num_diff_2r) F(MLPPNumericalAnalysis, num_diff_3r) F(MLPPNumericalAnalysis, constant_approximationr) F(MLPPNumericalAnalysis, linear_approximationr) F(MLPPNumericalAnalysis, quadratic_approximationr) F(MLPPNumericalAnalysis, cubic_approximationr) F(MLPPNumericalAnalysis, num_diffv) F(MLPPNumericalAnalysis, num_diff_2v) F(MLPPNumericalAnalysis, num_diff_3v) F(MLPPNumericalAnalysis, newton_raphson_method) F(MLPPNumericalAnalysis, halley_method)
	F(MLPPNumericalAnalysis, inv_quadratic_interpolation) F(MLPPNumericalAnalysis, eulerian_methodr) F(MLPPNumericalAnalysis, eulerian_methodv) F(MLPPNumericalAnalysis, growth_method) F(MLPPNumericalAnalysis, jacobian) F(MLPPNumericalAnalysis, hessian) F(MLPPNumericalAnalysis, third_order_tensor) F(MLPPNumericalAnalysis, third_order_tensorvt) F(MLPPNumericalAnalysis, constant_approximationv) F(MLPPNumericalAnalysis, linear_approximationv) F(MLPPNumericalAnalysis, quadratic_approximationv) F(MLPPNumericalAnalysis, cubic_approximationv)
	F(MLPPNumericalAnalysis, laplacian)
	F(MLPPData, feature_scaling) F(MLPPData, mean_centering) F(MLPPData, mean_normalization) F(MLPPData, one_hot_rep) F(MLPPData, vec_to_setnv) F(MLPPData, load_default_suffixes) F(MLPPData, load_default_stop_words)
	F(MLPPVector, get_data) F(MLPPVector, push_back) F(MLPPVector, append_mlpp_vector) F(MLPPVector, remove) F(MLPPVector, remove_unordered) F(MLPPVector, erase) F(MLPPVector, erase_multiple_unordered) F(MLPPVector, invert) F(MLPPVector, clear) F(MLPPVector, reset) F(MLPPVector, empty) F(MLPPVector, size)
	F(MLPPVector, resize) F(MLPPVector, element_get) F(MLPPVector, element_set) F(MLPPVector, fill) F(MLPPVector, insert) F(MLPPVector, find) F(MLPPVector, sort) F(MLPPVector, ordered_insert) F(MLPPVector, to_vector) F(MLPPVector, to_pool_vector) F(MLPPVector, to_byte_array)
	F(MLPPVector, duplicate_fast) F(MLPPVector, set_from_mlpp_vectorr) F(MLPPVector, set_from_mlpp_vector) F(MLPPVector, set_from_vector) F(MLPPVector, is_equal_approx) F(MLPPVector, flatten_vectors) F(MLPPVector, flatten_vectorsn) F(MLPPVector, hadamard_product) F(MLPPVector, hadamard_productn) F(MLPPVector, hadamard_productb) F(MLPPVector, division_element_wise) F(MLPPVector, division_element_wisen)
	F(MLPPVector, division_element_wiseb) F(MLPPVector, scalar_multiply) F(MLPPVector, scalar_multiplyn) F(MLPPVector, scalar_multiplyb) F(MLPPVector, scalar_add) F(MLPPVector, scalar_addn) F(MLPPVector, scalar_addb) F(MLPPVector, add) F(MLPPVector, addn) F(MLPPVector, addb) F(MLPPVector, sub) F(MLPPVector, subn)
	F(MLPPVector, subb) F(MLPPVector, log) F(MLPPVector, logn) F(MLPPVector, logb) F(MLPPVector, log10) F(MLPPVector, log10n) F(MLPPVector, log10b) F(MLPPVector, exp) F(MLPPVector, expn) F(MLPPVector, expb) F(MLPPVector, erf) F(MLPPVector, erfn)
	F(MLPPVector, erfb) F(MLPPVector, exponentiate) F(MLPPVector, exponentiaten) F(MLPPVector, exponentiateb) F(MLPPVector, sqrt) F(MLPPVector, sqrtn) F(MLPPVector, sqrtb) F(MLPPVector, cbrt) F(MLPPVector, cbrtn) F(MLPPVector, cbrtb) F(MLPPVector, dot) F(MLPPVector, cross)
	F(MLPPVector, abs) F(MLPPVector, absn) F(MLPPVector, absb) F(MLPPVector, vecn_zero) F(MLPPVector, vecn_one) F(MLPPVector, vecn_full) F(MLPPVector, sin) F(MLPPVector, sinn) F(MLPPVector, sinb) F(MLPPVector, cos) F(MLPPVector, cosn) F(MLPPVector, cosb)
	F(MLPPVector, max) F(MLPPVector, maxn) F(MLPPVector, maxb) F(MLPPVector, min) F(MLPPVector, minn) F(MLPPVector, minb) F(MLPPVector, max_element) F(MLPPVector, max_element_index) F(MLPPVector, min_element) F(MLPPVector, min_element_index) F(MLPPVector, euclidean_distance) F(MLPPVector, euclidean_distance_squared)
	F(MLPPVector, norm_2) F(MLPPVector, norm_sq) F(MLPPVector, sum_elements) F(MLPPVector, subtract_matrix_rows) F(MLPPVector, subtract_matrix_rowsn) F(MLPPVector, subtract_matrix_rowsb) F(MLPPVector, outer_product) F(MLPPVector, diagnm)
	F(MLPPMatrix, row_add) F(MLPPMatrix, row_add_mlpp_vector) F(MLPPMatrix, rows_add_mlpp_matrix) F(MLPPMatrix, row_remove) F(MLPPMatrix, row_remove_unordered) F(MLPPMatrix, row_swap) F(MLPPMatrix, clear) F(MLPPMatrix, reset) F(MLPPMatrix, empty) F(MLPPMatrix, data_size) F(MLPPMatrix, size) F(MLPPMatrix, resize)
	F(MLPPMatrix, calculate_index) F(MLPPMatrix, element_get_index) F(MLPPMatrix, element_set_index) F(MLPPMatrix, element_get) F(MLPPMatrix, element_set) F(MLPPMatrix, row_get_vector) F(MLPPMatrix, row_get_pool_vector) F(MLPPMatrix, row_get_mlpp_vector) F(MLPPMatrix, row_get_into_mlpp_vector) F(MLPPMatrix, row_set_vector) F(MLPPMatrix, row_set_mlpp_vector) F(MLPPMatrix, fill)
	F(MLPPMatrix, to_flat_vector) F(MLPPMatrix, to_flat_pool_vector) F(MLPPMatrix, to_flat_byte_array) F(MLPPMatrix, duplicate_fast) F(MLPPMatrix, set_from_mlpp_matrix) F(MLPPMatrix, set_from_mlpp_matrixr) F(MLPPMatrix, set_from_mlpp_vectors) F(MLPPMatrix, set_from_vectors) F(MLPPMatrix, gaussian_noise) F(MLPPMatrix, gaussian_noise_fill) F(MLPPMatrix, add) F(MLPPMatrix, addn)
	F(MLPPMatrix, addb) F(MLPPMatrix, sub) F(MLPPMatrix, subn) F(MLPPMatrix, subb) F(MLPPMatrix, mult) F(MLPPMatrix, multn) F(MLPPMatrix, multb) F(MLPPMatrix, hadamard_product) F(MLPPMatrix, hadamard_productn) F(MLPPMatrix, hadamard_productb) F(MLPPMatrix, kronecker_product) F(MLPPMatrix, kronecker_productn)
	F(MLPPMatrix, kronecker_productb) F(MLPPMatrix, division_element_wise) F(MLPPMatrix, division_element_wisen) F(MLPPMatrix, division_element_wiseb) F(MLPPMatrix, transpose) F(MLPPMatrix, transposen) F(MLPPMatrix, transposeb) F(MLPPMatrix, scalar_multiply) F(MLPPMatrix, scalar_multiplyn) F(MLPPMatrix, scalar_multiplyb) F(MLPPMatrix, scalar_add) F(MLPPMatrix, scalar_addn)
	F(MLPPMatrix, scalar_addb) F(MLPPMatrix, log) F(MLPPMatrix, logn) F(MLPPMatrix, logb) F(MLPPMatrix, log10) F(MLPPMatrix, log10n) F(MLPPMatrix, log10b) F(MLPPMatrix, exp) F(MLPPMatrix, expn) F(MLPPMatrix, expb) F(MLPPMatrix, erf) F(MLPPMatrix, erfn)
	F(MLPPMatrix, erfb) F(MLPPMatrix, exponentiate) F(MLPPMatrix, exponentiaten) F(MLPPMatrix, exponentiateb) F(MLPPMatrix, sqrt) F(MLPPMatrix, sqrtn) F(MLPPMatrix, sqrtb) F(MLPPMatrix, cbrt) F(MLPPMatrix, cbrtn) F(MLPPMatrix, cbrtb) F(MLPPMatrix, matrix_powern) F(MLPPMatrix, abs)
	F(MLPPMatrix, absn) F(MLPPMatrix, absb) F(MLPPMatrix, det) F(MLPPMatrix, detb) F(MLPPMatrix, trace) F(MLPPMatrix, cofactor) F(MLPPMatrix, cofactoro) F(MLPPMatrix, adjoint) F(MLPPMatrix, adjointo) F(MLPPMatrix, inverse) F(MLPPMatrix, inverseo) F(MLPPMatrix, pinverse)
	F(MLPPMatrix, pinverseo) F(MLPPMatrix, matn_zero) F(MLPPMatrix, matn_one) F(MLPPMatrix, matn_full) F(MLPPMatrix, sin) F(MLPPMatrix, sinn) F(MLPPMatrix, sinb) F(MLPPMatrix, cos) F(MLPPMatrix, cosn) F(MLPPMatrix, cosb) F(MLPPMatrix, create_rotation_matrix) F(MLPPMatrix, rotate)
	F(MLPPMatrix, rotaten) F(MLPPMatrix, rotateb) F(MLPPMatrix, max) F(MLPPMatrix, maxn) F(MLPPMatrix, maxb) F(MLPPMatrix, min) F(MLPPMatrix, minn) F(MLPPMatrix, minb) F(MLPPMatrix, identity) F(MLPPMatrix, identityn) F(MLPPMatrix, identity_mat) F(MLPPMatrix, cov)
	F(MLPPMatrix, covo) F(MLPPMatrix, eigen) F(MLPPMatrix, eigenb) F(MLPPMatrix, svd) F(MLPPMatrix, svdb) F(MLPPMatrix, flatten) F(MLPPMatrix, flatteno) F(MLPPMatrix, solve) F(MLPPMatrix, mult_vec) F(MLPPMatrix, mult_veco) F(MLPPMatrix, add_vec) F(MLPPMatrix, add_vecn)
	F(MLPPMatrix, add_vecb) F(MLPPMatrix, outer_product) F(MLPPMatrix, outer_productn) F(MLPPMatrix, diagonal_set) F(MLPPMatrix, diagonal_setn) F(MLPPMatrix, diagonal_zeroed) F(MLPPMatrix, diagonal_zeroedn) F(MLPPMatrix, is_equal_approx)
	F(MLPPTensor3, z_slice_add) F(MLPPTensor3, z_slice_add_mlpp_vector) F(MLPPTensor3, z_slice_add_mlpp_matrix) F(MLPPTensor3, z_slice_remove) F(MLPPTensor3, z_slice_remove_unordered) F(MLPPTensor3, z_slice_swap) F(MLPPTensor3, clear) F(MLPPTensor3, reset) F(MLPPTensor3, empty) F(MLPPTensor3, z_slice_data_size) F(MLPPTensor3, z_slice_size) F(MLPPTensor3, data_size)
	F(MLPPTensor3, size) F(MLPPTensor3, resize) F(MLPPTensor3, shape_set) F(MLPPTensor3, calculate_index) F(MLPPTensor3, calculate_z_slice_index) F(MLPPTensor3, element_get_index) F(MLPPTensor3, element_set_index) F(MLPPTensor3, element_get) F(MLPPTensor3, element_set) F(MLPPTensor3, row_get_vector) F(MLPPTensor3, row_get_pool_vector) F(MLPPTensor3, row_get_mlpp_vector)
	F(MLPPTensor3, row_get_into_mlpp_vector) F(MLPPTensor3, row_set_vector) F(MLPPTensor3, row_set_mlpp_vector) F(MLPPTensor3, z_slice_get_vector) F(MLPPTensor3, z_slice_get_pool_vector) F(MLPPTensor3, z_slice_get_mlpp_vector) F(MLPPTensor3, z_slice_get_into_mlpp_vector) F(MLPPTensor3, z_slice_get_mlpp_matrix) F(MLPPTensor3, z_slice_get_into_mlpp_matrix) F(MLPPTensor3, z_slice_set_vector) F(MLPPTensor3, z_slice_set_mlpp_vector) F(MLPPTensor3, z_slice_set_mlpp_matrix)
	F(MLPPTensor3, x_slice_get_into) F(MLPPTensor3, x_slice_get) F(MLPPTensor3, x_slice_set) F(MLPPTensor3, y_slice_get_into) F(MLPPTensor3, y_slice_get) F(MLPPTensor3, y_slice_set) F(MLPPTensor3, add) F(MLPPTensor3, addn) F(MLPPTensor3, addb) F(MLPPTensor3, sub) F(MLPPTensor3, subn) F(MLPPTensor3, subb)
	F(MLPPTensor3, division_element_wise) F(MLPPTensor3, division_element_wisen) F(MLPPTensor3, division_element_wiseb) F(MLPPTensor3, sqrt) F(MLPPTensor3, sqrtn) F(MLPPTensor3, sqrtb) F(MLPPTensor3, exponentiate) F(MLPPTensor3, exponentiaten) F(MLPPTensor3, exponentiateb) F(MLPPTensor3, scalar_multiply) F(MLPPTensor3, scalar_multiplyn) F(MLPPTensor3, scalar_multiplyb)
	F(MLPPTensor3, scalar_add) F(MLPPTensor3, scalar_addn) F(MLPPTensor3, scalar_addb) F(MLPPTensor3, hadamard_product) F(MLPPTensor3, hadamard_productn) F(MLPPTensor3, hadamard_productb) F(MLPPTensor3, max) F(MLPPTensor3, maxn) F(MLPPTensor3, maxb) F(MLPPTensor3, abs) F(MLPPTensor3, absn) F(MLPPTensor3, absb)
	F(MLPPTensor3, flatten) F(MLPPTensor3, flatteno) F(MLPPTensor3, tensor_vec_mult) F(MLPPTensor3, fill) F(MLPPTensor3, to_flat_vector) F(MLPPTensor3, to_flat_pool_vector) F(MLPPTensor3, to_flat_byte_array) F(MLPPTensor3, duplicate_fast) F(MLPPTensor3, set_from_mlpp_tensor3) F(MLPPTensor3, set_from_mlpp_tensor3r) F(MLPPTensor3, set_from_mlpp_matrix) F(MLPPTensor3, set_from_mlpp_matrixr)
	F(MLPPTensor3, set_from_mlpp_vectors) F(MLPPTensor3, set_from_mlpp_matricess) F(MLPPTensor3, is_equal_approx)
}
static bool bits(const Fl &a, const Fl &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 4) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; }
static std::string sh(const Fl &a) { std::string s; for (size_t i = 0; i < a.size() && i < 20; i++) s += mc::fmt(" %.9g", a[i]); return s; }
static void one(const Fn &f, const Ix &x, Pool &p, Out &o, const void *&r) { g_draws = 0; Math::seed(3); ints[1] = f.n.find("MLPPConvolutions") == 0 ? 2 : 0; r = f.call(p, x, o); }
static void state(Pool &p, const void *r, Out &o) { for (int i = 0; i < 2; i++) { if (p.m[i].ptr() == r) rd(o, p.m[i]); if (p.v[i].ptr() == r) rd(o, p.v[i]); if (p.t[i].ptr() == r) rd(o, p.t[i]); } } // the receiver after the call
static void decide(const Fn &f, const Ix &x) {
	Out a, b, c; const void *r; std::string what; { Pool p; one(f, x, p, a, r); bool recv = Recv<MLPPVector>::n() && p.has(r), own = recv && !f.pure;
		if (!f.into) { mc::ok(p.same(own ? r : nullptr, &what), "operand: " + f.n, "the call changed %s", what.c_str()); for (const void *q : a.o) mc::ok(!p.has(q), "fresh: " + f.n, "the call returned one of its operands"); }
		mc::ok(p.owned(), "references: " + f.n, "the call kept a reference to an operand");
		if (!own && !f.into) { b.scribble = true; one(f, x, p, b, r); mc::ok(bits(a.d, b.d), "repeat: " + f.n, "the same call gave%s, then%s", sh(a.d).c_str(), sh(b.d).c_str()); mc::ok(p.same(nullptr, &what), "fresh: " + f.n, "writing into the result changed %s", what.c_str()); one(f, x, p, c, r); mc::ok(bits(a.d, c.d), "fresh: " + f.n, "after writing into the result the same call gave%s instead of%s", sh(c.d).c_str(), sh(a.d).c_str()); } }
	if (!f.into) { Out e, g; Pool p, q; q.clone = true; one(f, x, p, e, r); Out er; state(p, r, er); const void *r2; one(f, x, q, g, r2); Out gr; state(q, r2, gr); mc::ok(bits(e.d, g.d), "alias: " + f.n, "with these operands the call gave%s, with copies of them%s", sh(e.d).c_str(), sh(g.d).c_str()); mc::ok(bits(er.d, gr.d), "alias: " + f.n, "with these operands the receiver became%s, with copies of them%s", sh(er.d).c_str(), sh(gr.d).c_str()); }
	b.d.clear(); b.o.clear(); b.scribble = false; b.d.reserve(a.d.size() + 4096); b.o.reserve(a.o.size() + 64);
	size_t before = __sanitizer_get_current_allocated_bytes(), engine = Memory::get_mem_usage(); { Pool p; one(f, x, p, b, r); } size_t after = __sanitizer_get_current_allocated_bytes(), eafter = Memory::get_mem_usage();
	mc::ok(before == after && engine == eafter, "memory: " + f.n, "%zd bytes not given back", (ssize_t)(after - before)); mc::ok(bits(a.d, b.d), "repeat: " + f.n, "on equal operands the call gave%s, then%s", sh(a.d).c_str(), sh(b.d).c_str());
	mc::transition(4); mc::outcome(f.n); mc::state(f.n + sh(a.d) + what); for (int i : x) mc::count(mc::fmt("choice %d", i));
}
void explore() {
	list(); { Pool p; } // every size, every choice of receiver and arguments, and so every aliasing between them
	for (N = 2; N <= (mc::thorough() ? 4 : 3); N++) for (const Fn &f : fns) { if (N == 2 && f.n.find("inv_quadratic") != std::string::npos) continue; /* takes three points */ Ix x(f.dims.size(), 0); for (;;) { std::string s; for (int i : x) s += mc::fmt(" %d", i); MC_CASE("%s size %d choices%s", f.n.c_str(), N, s.c_str()) decide(f, x); size_t k = 0; while (k < x.size() && ++x[k] == f.dims[k]) x[k++] = 0; if (k == x.size()) break; } }
}
