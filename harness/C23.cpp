// MC: variant=asan
// C23: text processing over every text up to a length bound over an alphabet of letters, blanks and punctuation.
#include <algorithm>
#include <map>
#include <random>
namespace std { unsigned int random_device::_M_getval() { return 12345; } }
#include "lin.h"
#include "core/data.h"
#include "modules/softmax_net/softmax_net.h"
typedef std::vector<std::string> SS;
static MLPPData *P;
static std::string u8(const String &s) { return s.utf8().get_data() ? s.utf8().get_data() : ""; }
static SS ss(const Vector<String> &v) { SS r; for (int i = 0; i < v.size(); i++) r.push_back(u8(v[i])); return r; }
static Vector<String> vs(const SS &v) { Vector<String> r; for (auto &s : v) r.push_back(String(s.c_str())); return r; }
static std::string j(const SS &v) { std::string r = "["; for (auto &s : v) r += "'" + s + "' "; return r + "]"; }
static SS nonempty(const SS &v) { SS r; for (auto &s : v) if (!s.empty()) r.push_back(s); return r; }
static void cmp(const char *k, const std::string &in, const SS &e, const SS &g) { mc::transition(); mc::outcome(j(e)); mc::ok(e == g, std::string(k) + ":value", "%s of %s: expected %s, got %s", k, in.c_str(), j(e).c_str(), j(g).c_str()); }
static bool punct(char c) { return c == ',' || c == '!' || c == '.' || c == '-'; }
static SS words(const std::string &t) { SS r; std::string w; for (char c : t) { if (c == ' ' || punct(c)) { if (!w.empty()) r.push_back(w); w.clear(); if (c != ' ') r.push_back(std::string(1, c)); } else w += c; } if (!w.empty()) r.push_back(w); return r; }
static std::string low(std::string s) { for (char &c : s) c = tolower(c); return s; }
static SS drop(const SS &v, const SS &stop) { SS r; for (auto &s : v) if (std::find(stop.begin(), stop.end(), s) == stop.end()) r.push_back(s); return r; }
static SS uniq(const SS &v) { SS r; for (auto &s : v) if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s); return r; }
static SS sentences(const std::string &t) { SS r; std::string w; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '.' && (i + 1 == t.size() || t[i + 1] != '.')) { r.push_back(w); w.clear(); if (i + 1 < t.size() && t[i + 1] == ' ') i++; } else w += t[i]; } if (!w.empty()) r.push_back(w); return r; }
static std::string stem(const std::string &t, const SS &suf) { std::string r, w; auto flush = [&]() { size_t best = 0; for (auto &s : suf) if (s.size() <= w.size() && w.compare(w.size() - s.size(), s.size(), s) == 0) best = std::max(best, s.size()); r += w.substr(0, w.size() - best); w.clear(); }; for (char c : t) if (c == ' ' || punct(c)) { flush(); r += c; } else w += c; flush(); return r; }
static void text(const std::string &t) {
	mc::state(t); String s(t.c_str()); std::string in = "'" + t + "'"; SS w = words(t); SS seg = ss(P->segment(s)); cmp("segment", in, w, nonempty(seg));
	Vector<int> tk = P->tokenize(s); std::map<std::string, int> id; bool ok = tk.size() == (int)seg.size(); std::string got; for (int i = 0; ok && i < tk.size(); i++) { auto it = id.find(seg[i]); if (it == id.end()) { int n = id.size() + 1; id[seg[i]] = n; ok = tk[i] == n; } else ok = tk[i] == it->second; } mc::transition(); mc::ok(ok, "tokenize:value", "tokenize of %s does not number the words %s by first appearance", in.c_str(), j(seg).c_str());
	cmp("split_sentences", in, sentences(t), ss(P->split_sentences(s))); std::vector<char> c = P->split(t); mc::ok(std::string(c.begin(), c.end()) == t, "split:value", "split of %s", in.c_str()); mc::ok(P->toLower(t) == low(t), "toLower:value", "toLower of %s", in.c_str());
	SS stop = ss(P->stop_words), suf = ss(P->suffixes); cmp("remove_stop_words", in, drop(words(low(t)), stop), nonempty(ss(P->remove_stop_words(s))));
	std::string st = u8(P->stemming(s)); while (!st.empty() && st.back() == ' ') st.pop_back(); std::string se = stem(t, suf); while (!se.empty() && se.back() == ' ') se.pop_back(); mc::transition(); mc::ok(st == se, "stemming:value", "stemming of %s: expected '%s', got '%s'", in.c_str(), se.c_str(), st.c_str()); mc::ok(u8(s) == t, "text-changed", "%s was changed", in.c_str());
}
static void all(const std::string &alpha, int n, const std::function<void(const std::string &)> &f) { std::string t(n, alpha[0]); std::vector<int> ix(n, 0); for (;;) { f(t); int i = n - 1; while (i >= 0 && ++ix[i] == (int)alpha.size()) { ix[i] = 0; t[i] = alpha[0]; i--; } if (i < 0) return; t[i] = alpha[ix[i]]; } }
static void docs(const SS &d) { // sentences with at least one word each
	std::string in = j(d); mc::state(in); Vector<String> D = vs(d); SS stop = ss(P->stop_words), list; for (auto &s : d) { SS w = drop(words(low(s)), stop); list.insert(list.end(), w.begin(), w.end()); } list = uniq(list);
	cmp("create_word_list", in, list, nonempty(ss(P->create_word_list(D)))); int R = d.size(), C = list.size(); if (!C) return; Exp cnt, bin, tf; cnt.d = bin.d = tf.d = { R, C }; std::vector<double> df(C, 0); std::vector<double> len; bool full = true;
	for (auto &s : d) { SS w = drop(words(low(s)), stop); len.push_back(w.size()); full = full && w.size(); for (int k = 0; k < C; k++) { double n = std::count(w.begin(), w.end(), list[k]); cnt.v.push_back(n); bin.v.push_back(n > 0); df[k] += n > 0; } }
	auto near = [&](const char *k, const Exp &e, const Val &g) { mc::transition(); mc::outcome(es(e)); mc::ok(agrees(e, g, 5e-5, 5e-6), std::string(k) + ":value", "%s of %s: expected %s, got %s", k, in.c_str(), es(e).c_str(), g.s().c_str()); };
	near("bag_of_words", cnt, dump(P->bag_of_words(D))); near("bag_of_words (binary)", bin, dump(P->bag_of_words(D, MLPPData::BAG_OF_WORDS_TYPE_BINARY)));
	if (full) { for (int i = 0; i < R; i++) for (int k = 0; k < C; k++) tf.v.push_back(cnt.v[i * C + k] / len[i] * std::log(R / df[k])); near("tfidf", tf, dump(P->tfidf(D))); }
	cmp("sentences unchanged", in, d, ss(D));
}
static void lsa_docs(const SS &d) { // documents x words counts B; embedding E of the full rank satisfies E^T E = B^T B
	std::string in = j(d); Vector<String> D = vs(d); Val b = dump(P->bag_of_words(D, MLPPData::BAG_OF_WORDS_TYPE_BINARY)); int R = b.d[0], C = b.d[1]; if (C < R) return; mc::state(in + " lsa"); Val e = dump(P->lsa(D, R)); mc::transition(); if (!mc::ok(e.d == Dims({ R, C }), "lsa:shape", "lsa of %s has shape %s", in.c_str(), e.s().c_str())) return;
	for (int p = 0; p < C; p++) for (int q = 0; q < C; q++) { double x = 0, y = 0; for (int i = 0; i < R; i++) { x += b.v[i * C + p] * b.v[i * C + q]; y += e.v[i * C + p] * e.v[i * C + q]; } if (!mc::ok(std::fabs(x - y) < 2e-2, "lsa:value", "lsa of %s: words %d and %d share %g documents, embeddings give %g", in.c_str(), p, q, x, y)) return; }
}
// word vectors: the pairs of words within the window, one-hot, train the same network from the same weights
static void wordvec(const SS &d, int win, int dim, int ty) {
	std::string in = mc::fmt("%s, window %d, dimension %d, kind %d", j(d).c_str(), win, dim, ty); mc::state(in); MLPPData::WordsToVecResult r = P->word_to_vec(vs(d), ty ? MLPPData::WORD_TO_VEC_TYPE_SKIPGRAM : MLPPData::WORD_TO_VEC_TYPE_CBOW, win, dim, 0.1, 3); mc::transition();
	SS a, b; static const SS stop = { "the", "a" }; for (auto &s : d) { SS w = drop(words(s), stop); for (int i = 0; i < (int)w.size(); i++) for (int k = win; k > 0; k--) { if (i - k >= 0) { a.push_back(w[i]); b.push_back(w[i - k]); } if (i + k < (int)w.size()) { a.push_back(w[i]); b.push_back(w[i + k]); } } }
	SS all = a; all.insert(all.end(), b.begin(), b.end()); SS l = uniq(all); cmp("word_to_vec words", in, l, ss(r.word_list)); Ref<MLPPMatrix> A, B; A.instance(); B.instance(); A->resize(Size2i(l.size(), a.size())); B->resize(Size2i(l.size(), a.size())); A->fill(0); B->fill(0); for (size_t i = 0; i < a.size(); i++) { A->element_set(i, std::find(l.begin(), l.end(), a[i]) - l.begin(), 1); B->element_set(i, std::find(l.begin(), l.end(), b[i]) - l.begin(), 1); }
	Ref<MLPPSoftmaxNet> n = Ref<MLPPSoftmaxNet>(memnew(MLPPSoftmaxNet(ty ? B : A, ty ? A : B, dim))); n->train_gradient_descent(0.1, 3); Val e = dump(r.word_embeddings), w = dump(n->get_embeddings()); bool same = e.d == w.d && e.d == Dims({ (int)l.size(), dim }); double far = 0; for (size_t i = 0; same && i < e.v.size(); i++) far = std::max(far, (double)std::fabs(e.v[i] - w.v[i])); mc::ok(same && far < 1e-5, "word_to_vec:embeddings", "word_to_vec of %s: embeddings %s, expected %s", in.c_str(), e.s().c_str(), w.s().c_str());
}
void explore() {
	MLPPData data; P = &data; bool T = mc::thorough();
	for (int cfg = 0; cfg < 3; cfg++) { auto load = [&]() { if (cfg == 0) { data.stop_words = Vector<String>(); data.suffixes = Vector<String>(); } else if (cfg == 1) { data.stop_words = vs({ "a", "ba", "aa", "." }); data.suffixes = vs({ "a", "ba", "b" }); } else { data.load_default_stop_words(); data.load_default_suffixes(); } };
		for (int n = 0; n <= (T ? 7 : 6) - (cfg == 2); n++) MC_CASE("texts of length %d, word lists %d", n, cfg) { load(); all("ab .", n, text); }
		for (int n = 0; n <= (T ? 5 : 4); n++) MC_CASE("texts of length %d with every mark, word lists %d", n, cfg) { load(); all("aB ,!.-", n, text); } }
	SS tok = { "running", "The", "fish", "ion", "a", "happiness", "not", "national", "s", "wise-ly", "i" }; for (int n = 1; n <= (T ? 4 : 3); n++) MC_CASE("texts of %d English words", n) { data.load_default_stop_words(); data.load_default_suffixes(); std::vector<float> ix; for (size_t i = 0; i < tok.size(); i++) ix.push_back(i); for (const char *sep : { " ", ", ", ".", " - " }) tuples(ix, n, [&](const std::vector<float> &v) { std::string t; for (float i : v) t += (t.empty() ? "" : sep) + tok[(int)i]; text(t); text(t + "."); }); }
	SS el = { "", " ", "a", "b ", " a", "the" }; for (int n = 0; n <= (T ? 6 : 5); n++) MC_CASE("lists of %d strings", n) { data.stop_words = vs({ "a", "the", " " }); std::vector<float> ix; for (size_t i = 0; i < el.size(); i++) ix.push_back(i); tuples(ix, n, [&](const std::vector<float> &v) { SS l, e1, e2; for (float i : v) { std::string s = el[(int)i], q; l.push_back(s); for (char c : s) if (c != ' ') q += c; e1.push_back(q); } e2 = nonempty(l); Vector<String> L = vs(l); mc::state(j(l)); cmp("remove_spaces", j(l), e1, ss(P->remove_spaces(L))); cmp("remove_empty", j(l), e2, ss(P->remove_empty(L))); cmp("remove_stop_words_vec", j(l), drop(l, { "a", "the", " " }), ss(P->remove_stop_words_vec(L))); cmp("list unchanged", j(l), l, ss(L)); }); }
	SS sent = { "red blue", "Red", "the cat, the dog", "dog dog cat", "blue", "a", "cat red red." }; for (int cfg = 0; cfg < 2; cfg++) for (int n = 1; n <= (T ? 4 : 3); n++) MC_CASE("collections of %d sentences, stop words %d", n, cfg) { data.stop_words = Vector<String>(); if (cfg) data.load_default_stop_words(); std::vector<float> ix; for (size_t i = 0; i < sent.size(); i++) ix.push_back(i); tuples(ix, n, [&](const std::vector<float> &v) { SS d; for (float i : v) d.push_back(sent[(int)i]); docs(d); if (cfg) lsa_docs(d); }); }
	for (int win = 1; win <= 3; win++) for (int dim = 1; dim <= 3; dim++) for (int ty = 0; ty < 2; ty++) MC_CASE("word vectors window %d dimension %d kind %d", win, dim, ty) { data.load_default_stop_words(); for (auto d : { SS{ "red blue green" }, SS{ "red blue", "blue cat" }, SS{ "red green blue cat red" }, SS{ "solo", "red the blue" }, SS{ "green red", "solo", "a dog red cat", "the" } }) wordvec(d, win, dim, ty); }
}
