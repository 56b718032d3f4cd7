// MC: variant=asan
// C31: logistic regression. Every small data set, start, regularisation, optimiser history and sample order against the update rule.
#include "glm.h"
#include "modules/log_reg/log_reg.h"
static double sg(double z) { return 1 / (1 + std::exp(-z)); }
struct M : Inst, MLPPLogReg { M(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) : MLPPLogReg(X, y, REG[r.kind], r.lam, r.al) {}
	void put(const P &p) { _weights = mkv(F(p.w.begin(), p.w.end())); _bias = p.b; }
	P get() { P p; p.amb = false; for (int i = 0; i < _weights->size(); i++) p.w.push_back(_weights->element_get(i)); p.b = _bias; return p; }
	void train(int o, double lr, int e, int mb) { if (o == GD) gradient_descent(lr, e); if (o == SGD) sgd(lr, e); if (o == MBGD) mbgd(lr, e, mb); if (o == MLE) mle(lr, e); }
	double one(const F &x) { return model_test(mkv(x)); } Val many(Ref<MLPPMatrix> X) { return dump(model_set_test(X)); } double score() { return MLPPLogReg::score(); } };
void explore() { Fam f = { "logistic", sg, [](double z, double y) { return sg(z) - y; }, 1u << GD | 1u << SGD | 1u << MBGD | 1u << MLE, false, nullptr, [](Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) -> Inst * { return new M(X, y, r); } };
	explore_family(f, { -1, 0, 0.5f, 2 }, { 0, 1 }, { 0.5f, -0.75f, 0.2f, 0 });
}
