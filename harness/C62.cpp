// MC: variant=asan
// C62: models side by side. Every short history of training, prediction and scoring calls of every model class: the same history always gives the same bits, predictions and
// progress output never influence what follows, two models never influence each other under any interleaving of their calls, the data handed in stays as it was, and releasing a model gives everything back.
#include "hist.h"
#include <random>
#include <functional>
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include "modules/knn/knn.h"
#include "modules/kmeans/kmeans.h"
#include "modules/pca/pca.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/mlp/mlp.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/ann/ann.h"
#include "modules/mann/mann.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static unsigned g_draws = 0; // every source of randomness restarts at each call, so that equal calls draw equal numbers
namespace std { unsigned int random_device::_M_getval() { return ++g_draws * 2654435761u; } }
#include <sys/time.h>
#include <time.h>
static long long now_us = 5000000;
extern "C" time_t time(time_t *t) noexcept { time_t r = now_us / 1000000; if (t) *t = r; return r; }
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }
typedef std::vector<float> Fl;
typedef std::vector<int> His;
typedef Ref<MLPPMatrix> RM; typedef Ref<MLPPVector> RV;
static RM mat(int n, int k, const Fl &v) { RM m; m.instance(); m->resize(Size2i(k, n)); for (int i = 0; i < n * k; i++) m->element_set_index(i, v[i]); return m; }
static RV vec(const Fl &v) { RV r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
enum Kind { REAL, PROB, SIGN, BITS, LABEL }; // what the targets look like
struct Dat { // the objects handed to a model
	RM X, Y, Q; RV y, x, u; Fl xs, ys, Ys, qs, xx, us;
	static Fl of(const RM &m) { return Fl(m->ptr(), m->ptr() + m->data_size()); } static Fl of(const RV &m) { return Fl(m->ptr(), m->ptr() + m->size()); }
	Dat(int w, Kind t) {
		int n = w ? 4 : 3; Fl X0[] = { { 0.5, -1, 1.25, 0.75, -0.5, 2 }, { 1, 2, -0.25, 0.5, 3, -1.5, 0.125, 1 } }, B[] = { { 1, 0, 0, 1, 1, 1 }, { 0, 1, 1, 1, 0, 0, 1, 0 } };
		Fl yr[] = { { 0.5, 1.5, -1 }, { 2, -0.5, 1, 0.25 } }, yb[] = { { 0, 1, 1 }, { 1, 0, 1, 0 } }; Fl yy = t == REAL ? yr[w] : yb[w]; if (t == SIGN) for (float &v : yy) v = 2 * v - 1;
		Fl hot; for (float v : yb[w]) { hot.push_back(v == 0); hot.push_back(v == 1); }
		X = mat(n, 2, t == BITS ? B[w] : X0[w]); Y = mat(n, 2, hot); y = vec(yy); Q = t == BITS ? mat(2, 2, { 1, 1, 0, 1 }) : mat(2, 2, { 0.25, 0.5, -1, 1.5 }); x = t == BITS ? vec({ 1, 0 }) : vec({ 0.75, -0.25 });
		u = vec(Fl(X0[w].begin(), X0[w].begin() + n)); xs = of(X); ys = of(y); Ys = of(Y); qs = of(Q); xx = of(x); us = of(u);
	}
	bool same() const { return xs == of(X) && ys == of(y) && Ys == of(Y) && qs == of(Q) && xx == of(x) && us == of(u) && X->size().x == 2 && Y->size().x == 2 && Q->size().x == 2; }
	bool free_() const { return X->reference_get_count() == 1 && Y->reference_get_count() == 1 && Q->reference_get_count() == 1 && y->reference_get_count() == 1 && x->reference_get_count() == 1 && u->reference_get_count() == 1; }
};
static bool g_scribble = false, g_hold = false; static std::vector<std::pair<RV, Fl>> g_v; static std::vector<std::pair<RM, Fl>> g_m; // results held while the history goes on
static bool bits(const Fl &a, const Fl &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 4) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; }
static void held(const char *n) { for (size_t i = 0; i < g_v.size(); i++) { mc::ok(bits(Dat::of(g_v[i].first), g_v[i].second), std::string("held: ") + n, "a later call changed the vector an earlier one returned"); for (size_t j = 0; j < i; j++) mc::ok(g_v[i].first.ptr() != g_v[j].first.ptr(), std::string("held: ") + n, "two calls returned the same vector"); }
	for (size_t i = 0; i < g_m.size(); i++) { mc::ok(bits(Dat::of(g_m[i].first), g_m[i].second), std::string("held: ") + n, "a later call changed the matrix an earlier one returned"); for (size_t j = 0; j < i; j++) mc::ok(g_m[i].first.ptr() != g_m[j].first.ptr(), std::string("held: ") + n, "two calls returned the same matrix"); } g_v.clear(); g_m.clear(); }
static void put(Fl &o, float v) { o.push_back(v); }
static void put(Fl &o, RV v) { if (!v.is_valid()) { o.push_back(-2000); return; } for (int i = 0; i < v->size(); i++) o.push_back(v->element_get(i)); if (g_hold) g_v.push_back({ v, Dat::of(v) }); if (g_scribble) for (int i = 0; i < v->size(); i++) v->element_set(i, 77); }
static void put(Fl &o, RM v) { if (!v.is_valid()) { o.push_back(-2000); return; } for (int i = 0; i < v->data_size(); i++) o.push_back(v->ptr()[i]); if (g_hold) g_m.push_back({ v, Dat::of(v) }); if (g_scribble) for (int i = 0; i < v->data_size(); i++) v->element_set_index(i, 77); }
static void keep(Fl &o, RM v) { bool s = g_scribble, h = g_hold; g_scribble = g_hold = false; put(o, v); g_scribble = s; g_hold = h; } // an accessor of the model's own matrix
static void keepv(Fl &o, RV v) { bool s = g_scribble, h = g_hold; g_scribble = g_hold = false; put(o, v); g_scribble = s; g_hold = h; }
static void put(Fl &o, const PoolIntArray &a) { for (int i = 0; i < a.size(); i++) o.push_back(a.get(i)); }
static void put(Fl &o, const PoolRealArray &a) { for (int i = 0; i < a.size(); i++) o.push_back(a.get(i)); }
static void put(Fl &o, const PoolVector2iArray &a) { for (int i = 0; i < a.size(); i++) { o.push_back(a.get(i).x); o.push_back(a.get(i).y); } }
static void put(Fl &o, const Vector<Vector<real_t>> &a) { for (int i = 0; i < a.size(); i++) { o.push_back(-1000); for (int j = 0; j < a[i].size(); j++) o.push_back(a[i][j]); } }
struct Op { const char *n; int kind; std::function<void(Reference *, Dat &, Fl &)> f; }; // kind 0: trains, 1: only looks, 2: the trainer before it, with progress output
struct Model { const char *n; Kind t; std::function<Ref<Reference>(Dat &)> make; std::vector<Op> ops; };
template <class T> static Ref<Reference> up(T *t) { return Ref<Reference>(t); }
#define ME static_cast<T *>(r)
#define OP(name, kind, ...) Op{ name, kind, [](Reference *r, Dat &d, Fl &o) { (void)r; (void)d; (void)o; __VA_ARGS__; } }
#define TR(fn, ...) OP(#fn, 0, ME->fn(__VA_ARGS__)), OP(#fn " ui", 2, ME->fn(__VA_ARGS__, true))
#define LOOK OP("predict", 1, put(o, ME->model_test(d.x))), OP("predict set", 1, put(o, ME->model_set_test(d.Q))), OP("score", 1, put(o, ME->score()))
static std::vector<Model> models() {
	std::vector<Model> r; const MLPPReg::RegularizationType R2 = MLPPReg::REGULARIZATION_TYPE_RIDGE;
	{ typedef MLPPLinReg T; r.push_back({ "lin_reg", REAL, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(gradient_descent, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), TR(newton_raphson, 0.5, 1), TR(momentum, 0.125, 1, 2, 0.5), TR(nag, 0.125, 1, 2, 0.5), TR(adagrad, 0.125, 1, 2, 0.01), TR(adadelta, 0.125, 1, 2, 0.5, 0.01), TR(adam, 0.125, 1, 2, 0.5, 0.75, 0.01), TR(adamax, 0.125, 1, 2, 0.5, 0.75, 0.01), TR(nadam, 0.125, 1, 2, 0.5, 0.75, 0.01), OP("normal_equation", 0, ME->normal_equation()), LOOK } }); }
	{ typedef MLPPLogReg T; r.push_back({ "log_reg", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(gradient_descent, 0.125, 1), TR(mle, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), LOOK } }); }
	{ typedef MLPPProbitReg T; r.push_back({ "probit_reg", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(train_gradient_descent, 0.125, 1), TR(train_mle, 0.125, 1), TR(train_sgd, 0.125, 1), TR(train_mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.y); ME->initialize()), LOOK } }); }
	{ typedef MLPPCLogLogReg T; r.push_back({ "c_log_log_reg", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(gradient_descent, 0.125, 1), TR(mle, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), LOOK } }); }
	{ typedef MLPPExpReg T; r.push_back({ "exp_reg", REAL, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(gradient_descent, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), LOOK } }); }
	{ typedef MLPPTanhReg T; r.push_back({ "tanh_reg", REAL, [=](Dat &d) { return up(memnew(T(d.X, d.y, R2, 0.25, 0.5))); }, { TR(train_gradient_descent, 0.125, 1), TR(train_sgd, 0.125, 1), TR(train_mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.y); ME->initialize()), LOOK } }); }
	{ typedef MLPPSoftmaxReg T; r.push_back({ "softmax_reg", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.Y, R2, 0.25, 0.5))); }, { TR(train_gradient_descent, 0.125, 1), TR(train_sgd, 0.125, 1), TR(train_mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.Y); ME->initialize()), LOOK } }); }
	{ typedef MLPPSVC T; r.push_back({ "svc", SIGN, [](Dat &d) { return up(memnew(T(d.X, d.y, 1))); }, { TR(train_gradient_descent, 0.125, 1), TR(train_sgd, 0.125, 1), TR(train_mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.y); ME->initialize()), LOOK } }); }
	{ typedef MLPPDualSVC T; r.push_back({ "dual_svc", SIGN, [](Dat &d) { return up(memnew(T(d.X, d.y, 1))); }, { TR(gradient_descent, 0.125, 1), TR(gradient_descent, 0.125, 2), LOOK } }); }
	{ typedef MLPPUniLinReg T; r.push_back({ "uni_lin_reg", REAL, [](Dat &d) { return up(memnew(T(d.u, d.y))); }, { OP("train", 0, ME->train()), OP("predict", 1, put(o, ME->model_test(0.75))), OP("predict set", 1, put(o, ME->model_set_test(d.x))) } }); }
	{ typedef MLPPKNN T; r.push_back({ "knn", LABEL, [](Dat &d) { T *t = memnew(T); t->set_input_set(d.X); t->set_output_set(d.y); t->set_k(2); return up(t); }, { OP("set k 1", 0, ME->set_k(1)), OP("set k 3", 0, ME->set_k(3)), LOOK } }); }
	{ typedef MLPPKMeans T; r.push_back({ "kmeans", REAL, [](Dat &d) { T *t = memnew(T); t->set_input_set(d.X); t->set_k(2); t->initialize(); return up(t); }, { OP("initialize", 0, ME->initialize()), OP("set k", 0, ME->set_k(1); ME->initialize()), TR(train, 1), TR(train, 2), OP("predict", 1, put(o, ME->model_test(d.x))), OP("predict set", 1, put(o, ME->model_set_test(d.Q))), OP("score", 1, put(o, ME->score())), OP("silhouette", 1, put(o, ME->silhouette_scores())) } });
		r.push_back({ "kmeans++", REAL, [](Dat &d) { T *t = memnew(T); t->set_input_set(d.X); t->set_k(2); t->set_mean_type(T::MEAN_TYPE_KMEANSPP); t->initialize(); return up(t); }, { TR(train, 1), OP("predict", 1, put(o, ME->model_test(d.x))), OP("predict set", 1, put(o, ME->model_set_test(d.Q))), OP("score", 1, put(o, ME->score())), OP("silhouette", 1, put(o, ME->silhouette_scores())) } }); }
	{ typedef MLPPPCA T; r.push_back({ "pca", REAL, [](Dat &d) { return up(memnew(T(d.X, 1))); }, { OP("components", 0, keep(o, ME->principal_components())), OP("score", 1, put(o, ME->score())) } }); }
	{ typedef MLPPOutlierFinder T; r.push_back({ "outlier_finder", REAL, [](Dat &) { return up(memnew(T(0.5))); }, { OP("threshold", 0, ME->set_threshold(1.25)), OP("predict", 1, put(o, ME->model_test(d.u))), OP("predict set", 1, put(o, ME->model_set_test(d.X))), OP("indices", 1, put(o, ME->model_set_test_indices(d.X))), OP("bind", 1, put(o, (float)ME->model_set_test_bind(d.X).size())) } }); }
	{ typedef MLPPBernoulliNB T; r.push_back({ "bernoulli_nb", BITS, [](Dat &d) { return up(memnew(T(d.X, d.y))); }, { LOOK } }); }
	{ typedef MLPPGaussianNB T; r.push_back({ "gaussian_nb", LABEL, [](Dat &d) { return up(memnew(T(d.X, d.y, 2))); }, { OP("initialize", 0, ME->initialize()), LOOK } }); }
	{ typedef MLPPMultinomialNB T; r.push_back({ "multinomial_nb", BITS, [](Dat &d) { return up(memnew(T(d.X, d.y, 2))); }, { OP("initialize", 0, ME->initialize()), LOOK } }); }
	{ typedef MLPPMLP T; r.push_back({ "mlp", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.y, 2, R2, 0.25, 0.5))); }, { TR(gradient_descent, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.y); ME->initialize()), LOOK } }); }
	{ typedef MLPPSoftmaxNet T; r.push_back({ "softmax_net", PROB, [=](Dat &d) { return up(memnew(T(d.X, d.Y, 2, R2, 0.25, 0.5))); }, { TR(train_gradient_descent, 0.125, 1), TR(train_sgd, 0.125, 1), TR(train_mbgd, 0.125, 1, 2), OP("set data", 0, ME->set_input_set(d.X); ME->set_output_set(d.Y); ME->initialize()), LOOK, OP("embeddings", 1, keep(o, ME->get_embeddings())) } }); }
	{ typedef MLPPAutoEncoder T; r.push_back({ "auto_encoder", REAL, [](Dat &d) { return up(memnew(T(d.X, 2))); }, { TR(gradient_descent, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), LOOK } }); }
	const auto HA = MLPPActivation::ACTIVATION_FUNCTION_TANH, OA = MLPPActivation::ACTIVATION_FUNCTION_SIGMOID; const auto U = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_UNIFORM;
	{ typedef MLPPANN T; r.push_back({ "ann", PROB, [=](Dat &d) { T *t = memnew(T(d.X, d.y)); t->add_layer(2, HA, U, R2, 0.25, 0.5); t->add_layer(2, OA); t->add_output_layer(OA, MLPPCost::COST_TYPE_LOGISTIC_LOSS); return up(t); },
		{ TR(gradient_descent, 0.125, 1), TR(sgd, 0.125, 1), TR(mbgd, 0.125, 1, 2), TR(momentum, 0.125, 1, 2, 0.5, false), TR(momentum, 0.125, 1, 2, 0.5, true), TR(adagrad, 0.125, 1, 2, 0.01), TR(adadelta, 0.125, 1, 2, 0.5, 0.01), TR(adam, 0.125, 1, 2, 0.5, 0.75, 0.01), TR(adamax, 0.125, 1, 2, 0.5, 0.75, 0.01), TR(nadam, 0.125, 1, 2, 0.5, 0.75, 0.01), TR(amsgrad, 0.125, 1, 2, 0.5, 0.75, 0.01), LOOK } }); }
	{ typedef MLPPMANN T; r.push_back({ "mann", PROB, [=](Dat &d) { T *t = memnew(T(d.X, d.Y)); t->add_layer(2, HA, U, R2, 0.25, 0.5); t->add_output_layer(OA, MLPPCost::COST_TYPE_MSE); return up(t); }, { TR(gradient_descent, 0.125, 1), TR(gradient_descent, 0.125, 2), LOOK } }); }
	{ typedef MLPPHiddenLayer T; r.push_back({ "hidden_layer", PROB, [=](Dat &d) { T *t = memnew(T(2, HA, d.X, U, R2, 0.25, 0.5)); t->initialize(); return up(t); }, { OP("initialize", 0, ME->initialize()), OP("forward", 0, ME->forward_pass(); keep(o, ME->get_z()); keep(o, ME->get_a())), OP("activation", 0, ME->set_activation(OA)), OP("input", 0, ME->set_input(d.Q); ME->initialize(); ME->forward_pass()), OP("test", 0, ME->test(d.x); keepv(o, ME->get_z_test()); keepv(o, ME->get_a_test())), OP("weights", 1, keep(o, ME->get_weights())) } }); }
	{ typedef MLPPOutputLayer T; r.push_back({ "output_layer", PROB, [=](Dat &d) { T *t = memnew(T(2, HA, MLPPCost::COST_TYPE_MSE, d.X, U, R2, 0.25, 0.5)); t->initialize(); return up(t); }, { OP("initialize", 0, ME->initialize()), OP("forward", 0, ME->forward_pass(); keepv(o, ME->get_z()); keepv(o, ME->get_a())), OP("activation", 0, ME->set_activation(OA)), OP("input", 0, ME->set_input(d.Q); ME->initialize(); ME->forward_pass()), OP("test", 0, ME->test(d.x); put(o, ME->get_z_test()); put(o, ME->get_a_test())), OP("weights", 1, keepv(o, ME->get_weights())) } }); }
	{ typedef MLPPMultiOutputLayer T; r.push_back({ "multi_output_layer", PROB, [=](Dat &d) { return up(memnew(T(2, 2, HA, MLPPCost::COST_TYPE_MSE, d.X, U, R2, 0.25, 0.5))); }, { OP("forward", 0, ME->forward_pass(); keep(o, ME->get_z()); keep(o, ME->get_a())), OP("activation", 0, ME->set_activation(OA)), OP("input", 0, ME->set_input(d.Q); ME->forward_pass()), OP("test", 0, ME->test(d.x); keepv(o, ME->get_z_test()); keepv(o, ME->get_a_test())), OP("weights", 1, keep(o, ME->get_weights())) } }); }
	return r;
}
static void fresh() { Math::seed(11); g_draws = 0; }
static void call(const Model &m, int op, Reference *r, Dat &d, Fl &o) { fresh(); m.ops[op].f(r, d, o); }
static Ref<Reference> make(const Model &m, Dat &d) { fresh(); return m.make(d); }
static std::string hs(const Model &m, const His &h) { std::string s = m.n; s += ":"; for (int o : h) s += std::string(" ") + m.ops[o].n + ","; return s; }
static std::string sh(const Fl &a) { std::string s; for (float v : a) s += mc::fmt(" %.9g", v); return s; }
typedef std::vector<Fl> Out;
static void closing(const Model &m, Reference *r, Dat &d, Fl &o) { for (size_t i = 0; i < m.ops.size(); i++) if (m.ops[i].kind == 1) call(m, i, r, d, o); } // everything that can be observed without training
static void run(const Model &m, const His &h, Dat &d, Out &out) { out.assign(h.size() + 1, Fl()); Ref<Reference> r = make(m, d); for (size_t i = 0; i < h.size(); i++) call(m, h[i], r.ptr(), d, out[i]); closing(m, r.ptr(), d, out.back()); }
static void stay(const Model &m, Dat &d, const char *what) { mc::ok(d.same(), std::string("data: ") + m.n, "%s changed the data the model was given", what); mc::ok(d.free_(), std::string("references: ") + m.n, "%s: the released model still holds on to the data it was given", what); }
// all histories of one model up to a length, with a call of its own for each: shortest first
static void histories(int nops, int len, const std::function<void(const His &)> &f) { His h; std::function<void()> go = [&]() { f(h); if ((int)h.size() == len) return; for (int i = 0; i < nops; i++) { h.push_back(i); go(); h.pop_back(); } }; go(); }
static void solo(const Model &m, int len) {
	histories(m.ops.size(), len, [&](const His &h) {
		if (!mc::thorough() && h.size() > 2) for (int o : h) if (m.ops[o].kind == 2) return; // progress output: in histories of up to two calls
		MC_CASE("history %s", hs(m, h).c_str()) {
			Out a, b, c; Dat d(h.size() % 2, m.t); g_hold = true; run(m, h, d, a); held(m.n); g_hold = false; stay(m, d, hs(m, h).c_str()); mc::transition(h.size() + 1);
			Out keep(h.size() + 1); for (size_t i = 0; i <= h.size(); i++) keep[i].reserve(a[i].size() + 64);
			size_t before = __sanitizer_get_current_allocated_bytes(), engine = Memory::get_mem_usage();
			{ Ref<Reference> r = make(m, d); for (size_t i = 0; i < h.size(); i++) call(m, h[i], r.ptr(), d, keep[i]); closing(m, r.ptr(), d, keep.back()); }
			size_t after = __sanitizer_get_current_allocated_bytes(), eafter = Memory::get_mem_usage();
			mc::ok(engine == eafter && before == after, std::string("memory: ") + m.n, "%zd bytes (%zd counted) not given back after the model was released", (ssize_t)(after - before), (ssize_t)(eafter - engine));
			for (size_t i = 0; i <= h.size(); i++) mc::ok(bits(a[i], keep[i]), std::string("repeat: ") + m.n, "call %zu of the same history gave%s, then%s", i, sh(a[i]).c_str(), sh(keep[i]).c_str());
			{ Dat e(h.size() % 2, m.t); g_scribble = true; run(m, h, e, b); g_scribble = false; stay(m, e, "writing into a returned object"); for (size_t i = 0; i <= h.size(); i++) mc::ok(bits(a[i], b[i]), std::string("fresh: ") + m.n, "after writing into the objects it returned, call %zu gave%s instead of%s", i, sh(b[i]).c_str(), sh(a[i]).c_str()); }
			{ std::vector<int> looks; for (size_t i = 0; i < m.ops.size(); i++) if (m.ops[i].kind == 1) looks.push_back(i); std::vector<Fl> f(looks.size()), g(looks.size()); for (int rev = 0; rev < 2; rev++) { Ref<Reference> r = make(m, d); Fl o; for (int x : h) call(m, x, r.ptr(), d, o); for (size_t i = 0; i < looks.size(); i++) { size_t j = rev ? looks.size() - 1 - i : i; call(m, looks[j], r.ptr(), d, rev ? g[j] : f[j]); } }
				for (size_t j = 0; j < looks.size(); j++) mc::ok(bits(f[j], g[j]), std::string("looking: ") + m.n, "%s gave%s or%s, depending on which looking calls came before it", m.ops[looks[j]].n, sh(f[j]).c_str(), sh(g[j]).c_str()); }
			// looking calls removed, progress output off: the rest must not notice
			His q; std::vector<size_t> at; for (size_t i = 0; i < h.size(); i++) { if (m.ops[h[i]].kind != 1) { q.push_back(m.ops[h[i]].kind == 2 ? h[i] - 1 : h[i]); at.push_back(i); } }
			if (q != h) { run(m, q, d, c); for (size_t i = 0; i < q.size(); i++) mc::ok(bits(a[at[i]], c[i]), std::string("looking: ") + m.n, "call %zu gave%s, without the looking calls%s", at[i], sh(a[at[i]]).c_str(), sh(c[i]).c_str()); mc::ok(bits(a.back(), c.back()), std::string("looking: ") + m.n, "predictions and progress output changed the model: afterwards%s, without them%s", sh(a.back()).c_str(), sh(c.back()).c_str()); }
			// the same call again and again: no growth
			if (h.size() && h.size() < (size_t)len + 1) { Fl o; o.reserve(4096); Ref<Reference> r = make(m, d); for (int x : h) call(m, x, r.ptr(), d, o); for (int x : h) call(m, x, r.ptr(), d, o); size_t u1 = __sanitizer_get_current_allocated_bytes(); for (int x : h) call(m, x, r.ptr(), d, o); size_t u2 = __sanitizer_get_current_allocated_bytes(); mc::ok(u1 == u2, std::string("growth: ") + m.n, "repeating the same calls grows the model by %zd bytes", (ssize_t)(u2 - u1)); }
			std::string key = m.n; for (const Fl &f : a) key += sh(f) + "|"; mc::state(key); mc::outcome(mc::fmt("%s %zu", m.n, h.size()));
		}
	});
}
// two models alive at once, every interleaving of their calls; with data of their own or sharing the objects they were given
static void pair(const Model &m1, const His &h1, const Model &m2, const His &h2, bool share) {
	MC_CASE("together %s and %s%s", hs(m1, h1).c_str(), hs(m2, h2).c_str(), share ? " sharing their data" : "") {
		Out a1, a2; { Dat d(0, m1.t); run(m1, h1, d, a1); } { Dat d(share ? 0 : 1, m2.t); run(m2, h2, d, a2); }
		int n = h1.size() + h2.size(); for (int mask = 0; mask < 1 << n; mask++) { if (__builtin_popcount(mask) != (int)h1.size()) continue;
			for (int rel = 0; rel < 2; rel++) { Dat d(0, m1.t), e_(1, m2.t); Dat &e = share ? d : e_; Out b1(h1.size() + 1), b2(h2.size() + 1); size_t i = 0, j = 0;
				g_hold = true; Ref<Reference> r1 = make(m1, d), r2 = make(m2, e); for (int s = 0; s < n; s++) { if (mask >> s & 1) { call(m1, h1[i], r1.ptr(), d, b1[i]); i++; } else { call(m2, h2[j], r2.ptr(), e, b2[j]); j++; } }
				if (rel) { closing(m1, r1.ptr(), d, b1.back()); r1.unref(); closing(m2, r2.ptr(), e, b2.back()); r2.unref(); } else { closing(m2, r2.ptr(), e, b2.back()); r2.unref(); closing(m1, r1.ptr(), d, b1.back()); r1.unref(); }
				held(m1.n); g_hold = false;
				for (size_t q = 0; q <= h1.size(); q++) mc::ok(bits(a1[q], b1[q]), std::string("together: ") + m1.n, "interleaving %d: call %zu of the first model gave%s, alone%s", mask, q, sh(b1[q]).c_str(), sh(a1[q]).c_str());
				for (size_t q = 0; q <= h2.size(); q++) mc::ok(bits(a2[q], b2[q]), std::string("together: ") + m2.n, "interleaving %d: call %zu of the second model gave%s, alone%s", mask, q, sh(b2[q]).c_str(), sh(a2[q]).c_str());
				stay(m1, d, "two models side by side"); if (!share) stay(m2, e, "two models side by side"); mc::transition(n + 2); mc::count("interleavings"); }
			mc::state(mc::fmt("%s %s %d %d", hs(m1, h1).c_str(), hs(m2, h2).c_str(), mask, (int)share)); }
	}
}
void explore() {
	std::vector<Model> ms = models(); bool th = mc::thorough();
	for (const Model &m : ms) solo(m, m.ops.size() > 20 ? (th ? 3 : 2) : th ? 4 : 3);
	for (const Model &m : ms) { // two of a class: every pair of calls against every call
		std::vector<int> plain; for (size_t i = 0; i < m.ops.size(); i++) if (m.ops[i].kind != 2) plain.push_back(i); bool big = plain.size() > 8;
		for (int a : plain) for (int b : plain) for (int c : plain) for (int s = 0; s < 2; s++) { if (!th && ((m.ops[b].kind == 0 && b != a) || (big && c != plain[0] && c != plain.back() && c != a && c != b))) continue; pair(m, His{ a, b }, m, His{ c, b }, s); } }
	for (const Model &a : ms) for (const Model &b : ms) if (&a != &b) for (size_t i = 0; i < std::min<size_t>(a.ops.size(), th ? 4 : 1); i++) { int k = b.ops.size(); pair(a, His{ (int)i, (int)a.ops.size() - 1 }, b, His{ 0, k - 1 }, false); if (a.t == b.t) pair(a, His{ (int)i, (int)a.ops.size() - 1 }, b, His{ 0, k - 1 }, true); }
}
