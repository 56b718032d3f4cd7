// MC: variant=asan
// C44: exchange between matrices / tensors and images, over every image format, channel selection, slice and history.
#include "mc.h"
#include "img.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include <array>
#include <functional>
struct Ten {
	int x = 0, y = 0, z = 0;
	vector<double> v;
	double &at(int k, int j, int i) { return v[((size_t)k * y + j) * x + i]; }
	string s() const { string o = fmt("%dx%dx%d", z, y, x); if (v.size() <= 12) { o += "("; for (double d : v) o += fmt("%g ", d); o += ")"; } return o; }
	bool operator==(const Ten &t) const { return x == t.x && y == t.y && z == t.z && v == t.v; }
};
static Ten mkten(int z, int y, int x, int seed, bool wide = false) {
	Ten t; t.x = x; t.y = y; t.z = z; t.v.resize((size_t)x * y * z);
	uint32_t s = seed * 747796405u + 99;
	for (double &d : t.v) { s = s * 1664525u + 1013904223u; int k = s >> 24; d = (float)(wide ? k / 96.0 - 0.8 : (seed % 3 == 2 ? (k % 16) / 15.0 : k / 255.0)); }
	return t;
}
static Ref<MLPPTensor3> mk(const Ten &t) {
	Ref<MLPPTensor3> r; r.instance();
	r->resize(Size3i(t.x, t.y, t.z));
	for (size_t i = 0; i < t.v.size(); i++) r->ptrw()[i] = t.v[i];
	return r;
}
static Ten dump(const Ref<MLPPTensor3> &r) {
	Ten t; t.x = r->size().x; t.y = r->size().y; t.z = r->size().z;
	t.v.assign(r->ptr(), r->ptr() + r->data_size());
	return t;
}
static bool near(const Ten &a, const Ten &b) {
	if (a.x != b.x || a.y != b.y || a.z != b.z || a.v.size() != b.v.size()) return false;
	for (size_t i = 0; i < a.v.size(); i++) if (!mc::close(a.v[i], b.v[i], 1e-6, 1e-6)) return false;
	return true;
}

// one slice image: width, height and the value at (column, row)
static void check_slice_image(const char *key, const Ref<Image> &im, int w, int h, const std::function<double(int, int)> &val, const string &what) {
	mc::transition();
	if (!mc::ok(im.is_valid() && im->get_width() == w && im->get_height() == h && im->get_format() == Image::FORMAT_L8, fmt("%s:shape", key), "%s: image %dx%d format %d instead of an L8 image of %dx%d", what.c_str(), im.is_valid() ? im->get_width() : -1, im.is_valid() ? im->get_height() : -1, im.is_valid() ? im->get_format() : -1, w, h)) return;
	Pic p = dump(im);
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
		string why; double v = val(x, y);
		if (!mc::ok(shows(0, p.at(x, y), { v, v, v, 1 }, &why), fmt("%s:pixel", key), "%s: pixel (%d,%d): %s", what.c_str(), x, y, why.c_str())) return;
	}
	mc::ok(unlocked(im), fmt("%s:lock", key), "%s: the image stays locked", what.c_str());
}
static void check_into(const char *key, const Ref<Image> &im, int f, bool mip, int w, int h, const std::function<Col(int, int)> &val, const string &what) {
	mc::transition();
	if (!mc::ok(im->get_width() == w && im->get_height() == h && im->get_format() == f && im->has_mipmaps() == mip, fmt("%s:shape", key), "%s: image %dx%d format %d mipmaps %d instead of %dx%d format %d mipmaps %d", what.c_str(), im->get_width(), im->get_height(), im->get_format(), im->has_mipmaps(), w, h, f, mip)) return;
	Pic p = dump(im);
	if (!mc::ok(p.f == f, fmt("%s:data", key), "%s: the image holds less data than its size says", what.c_str())) return;
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
		string why;
		if (!mc::ok(shows(f, p.at(x, y), val(x, y), &why), fmt("%s:pixel", key), "%s: pixel (%d,%d): %s", what.c_str(), x, y, why.c_str())) return;
	}
	mc::ok(unlocked(im), fmt("%s:lock", key), "%s: the image stays locked", what.c_str());
}

static void check_views(const Ten &m, const Ref<MLPPTensor3> &t) {
	Ten tm = m;
	auto A = [&](int z, int y, int x) { return tm.at(z, y, x); };
	bool some = m.v.size() > 0;
	for (int k = -1; k <= m.z; k++) {
		Ref<Image> im = t->z_slice_get_image(k); string w = fmt("%s z_slice_get_image(%d)", m.s().c_str(), k);
		if (k < 0 || k >= m.z) mc::ok(im.is_null(), "z_slice_get_image:range", "%s returns an image", w.c_str());
		else if (some) check_slice_image("z_slice_get_image", im, m.x, m.y, [&](int x, int y) { return A(k, y, x); }, w);
	}
	for (int k = -1; k <= m.x; k++) {
		Ref<Image> im = t->x_slice_get_image(k); string w = fmt("%s x_slice_get_image(%d)", m.s().c_str(), k);
		if (k < 0 || k >= m.x) mc::ok(im.is_null(), "x_slice_get_image:range", "%s returns an image", w.c_str());
		else if (some) check_slice_image("x_slice_get_image", im, m.y, m.z, [&](int x, int y) { return A(y, x, k); }, w);
	}
	for (int k = -1; k <= m.y; k++) {
		Ref<Image> im = t->y_slice_get_image(k); string w = fmt("%s y_slice_get_image(%d)", m.s().c_str(), k);
		if (k < 0 || k >= m.y) mc::ok(im.is_null(), "y_slice_get_image:range", "%s returns an image", w.c_str());
		else if (some) check_slice_image("y_slice_get_image", im, m.x, m.z, [&](int x, int y) { return A(y, k, x); }, w);
	}
	mc::ok(dump(t) == m, "views:pure", "reading slices of %s as images changed the tensor", m.s().c_str());
}

static Col pick(const Ten &m0, const int idx[4], int y, int x) {
	Ten &m = const_cast<Ten &>(m0);
	Col c = { 0, 0, 0, 1 };
	for (int i = 0; i < 4; i++) if (idx[i] != -1) c[i] = m.at(idx[i], y, x);
	return c;
}
static void check_rgba(const Ten &m, const Ref<MLPPTensor3> &t, bool range) {
	int lo = range ? -2 : -1, hi = range ? m.z : m.z - 1;
	int id[4];
	for (id[0] = lo; id[0] <= hi; id[0]++) for (id[1] = lo; id[1] <= hi; id[1]++) for (id[2] = lo; id[2] <= hi; id[2]++) for (id[3] = lo; id[3] <= hi; id[3]++) {
		bool bad = false; for (int i : id) bad |= i < -1 || i >= m.z;
		string w = fmt("%s z_slices_get_image(%d,%d,%d,%d)", m.s().c_str(), id[0], id[1], id[2], id[3]);
		Ref<Image> im = t->z_slices_get_image(id[0], id[1], id[2], id[3]);
		if (bad) { mc::transition(); mc::ok(im.is_null(), "z_slices_get_image:range", "%s returns an image", w.c_str()); continue; }
		if (!mc::ok(im.is_valid(), "z_slices_get_image:null", "%s returns nothing", w.c_str())) continue;
		check_into("z_slices_get_image", im, 5, false, m.x, m.y, [&](int x, int y) { return pick(m, id, y, x); }, w);
	}
	mc::ok(dump(t) == m, "z_slices_get_image:pure", "z_slices_get_image changed %s", m.s().c_str());
}

struct Target { int f, w, h; bool mip; };
static void into_all(const Ten &m, const Ref<MLPPTensor3> &t, const Target &tg) {
	Ten tm = m;
	auto A = [&](int z, int y, int x) { return tm.at(z, y, x); };
	Pic p = mkpic(tg.f, tg.w, tg.h, 7);
	auto sweep = [&](const char *key, int n, int w, int h, const std::function<void(Ref<Image>, int, int)> &op, const std::function<double(int, int, int)> &val) {
		for (int k = -1; k <= n; k++) for (int fl = 0; fl < 16; fl++) {
			Ref<Image> im = mk(p, tg.mip);
			string what = fmt("%s %s(%s%s, %d, flags %d)", m.s().c_str(), key, p.s().c_str(), tg.mip ? " with mipmaps" : "", k, fl);
			op(im, k, fl);
			if (k < 0 || k >= n || fl == 0) { mc::transition(); mc::ok(same(dump(im), p) && unlocked(im), fmt("%s:refuse", key), "%s changed the image", what.c_str()); continue; }
			check_into(key, im, tg.f, tg.mip, w, h, [&](int x, int y) { Col c = { 0, 0, 0, 1 }; for (int i = 0; i < 4; i++) if (fl >> i & 1) c[i] = val(k, x, y); return c; }, what);
		}
		op(Ref<Image>(), 0, 1);
	};
	sweep("z_slice_get_into_image", m.z, m.x, m.y, [&](Ref<Image> im, int k, int fl) { t->z_slice_get_into_image(im, k, fl); }, [&](int k, int x, int y) { return A(k, y, x); });
	sweep("x_slice_get_into_image", m.x, m.y, m.z, [&](Ref<Image> im, int k, int fl) { t->x_slice_get_into_image(im, k, fl); }, [&](int k, int x, int y) { return A(y, x, k); });
	sweep("y_slice_get_into_image", m.y, m.x, m.z, [&](Ref<Image> im, int k, int fl) { t->y_slice_get_into_image(im, k, fl); }, [&](int k, int x, int y) { return A(y, k, x); });
	int id[4];
	int hi = m.z;
	for (id[0] = -1; id[0] <= hi; id[0]++) for (id[1] = -1; id[1] <= hi; id[1]++) for (id[2] = -1; id[2] <= hi; id[2]++) for (id[3] = -1; id[3] <= hi; id[3]++) {
		bool bad = false; for (int i : id) bad |= i >= m.z;
		Ref<Image> im = mk(p, tg.mip);
		string what = fmt("%s z_slices_get_into_image(%s, %d,%d,%d,%d)", m.s().c_str(), p.s().c_str(), id[0], id[1], id[2], id[3]);
		t->z_slices_get_into_image(im, id[0], id[1], id[2], id[3]);
		if (bad) { mc::transition(); mc::ok(same(dump(im), p) && unlocked(im), "z_slices_get_into_image:refuse", "%s changed the image", what.c_str()); continue; }
		check_into("z_slices_get_into_image", im, tg.f, tg.mip, m.x, m.y, [&](int x, int y) { return pick(m, id, y, x); }, what);
	}
	mc::ok(dump(t) == m, "into:pure", "writing slices into images changed %s", m.s().c_str());
}

// operations that change the tensor, with their specification
struct Op { string name; std::function<void(Ref<MLPPTensor3>, Ref<Image>)> run; std::function<void(Ten &)> spec; Pic pic; };
static void fill_set(Ten &m, const Pic &p, int fl) {
	vector<int> ch; for (int i = 0; i < 4; i++) if (fl >> i & 1) ch.push_back(i);
	if (ch.empty()) return;
	m.x = p.w; m.y = p.h; m.z = ch.size(); m.v.assign((size_t)m.x * m.y * m.z, 0);
	for (int k = 0; k < m.z; k++) for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) m.at(k, y, x) = p.at(x, y)[ch[k]];
}
static void fill_add(Ten &m, const Pic &p, int fl) {
	vector<int> ch; for (int i = 0; i < 4; i++) if (fl >> i & 1) ch.push_back(i);
	if (ch.empty()) return;
	if (m.x == 0 && m.y == 0 && m.z == 0) { m.x = p.w; m.y = p.h; }
	if (m.x != p.w || m.y != p.h) return;
	int z0 = m.z; m.z += ch.size(); m.v.resize((size_t)m.x * m.y * m.z);
	for (size_t k = 0; k < ch.size(); k++) for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) m.at(z0 + k, y, x) = p.at(x, y)[ch[k]];
}
static int low(int fl) { for (int i = 0; i < 4; i++) if (fl >> i & 1) return i; return -1; }
static Op op_set(const Pic &p, int fl) { return { fmt("set_from_image(%s, %d)", p.s().c_str(), fl), [fl](Ref<MLPPTensor3> t, Ref<Image> i) { t->set_from_image(i, fl); }, [p, fl](Ten &m) { fill_set(m, p, fl); }, p }; }
static Op op_add(const Pic &p, int fl) { return { fmt("z_slices_add_image(%s, %d)", p.s().c_str(), fl), [fl](Ref<MLPPTensor3> t, Ref<Image> i) { t->z_slices_add_image(i, fl); }, [p, fl](Ten &m) { fill_add(m, p, fl); }, p }; }
static Op op_z(const Pic &p, int k, int fl) { return { fmt("z_slice_set_image(%s, %d, %d)", p.s().c_str(), k, fl), [k, fl](Ref<MLPPTensor3> t, Ref<Image> i) { t->z_slice_set_image(i, k, fl); },
	[p, k, fl](Ten &m) { int c = low(fl); if (k < 0 || k >= m.z || c < 0 || m.x != p.w || m.y != p.h) return; for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) m.at(k, y, x) = p.at(x, y)[c]; }, p }; }
static Op op_x(const Pic &p, int k, int fl) { return { fmt("x_slice_set_image(%s, %d, %d)", p.s().c_str(), k, fl), [k, fl](Ref<MLPPTensor3> t, Ref<Image> i) { t->x_slice_set_image(i, k, fl); },
	[p, k, fl](Ten &m) { int c = low(fl); if (k < 0 || k >= m.x || c < 0 || m.y != p.w || m.z != p.h) return; for (int z = 0; z < p.h; z++) for (int y = 0; y < p.w; y++) m.at(z, y, k) = p.at(y, z)[c]; }, p }; }
static Op op_y(const Pic &p, int k, int fl) { return { fmt("y_slice_set_image(%s, %d, %d)", p.s().c_str(), k, fl), [k, fl](Ref<MLPPTensor3> t, Ref<Image> i) { t->y_slice_set_image(i, k, fl); },
	[p, k, fl](Ten &m) { int c = low(fl); if (k < 0 || k >= m.y || c < 0 || m.x != p.w || m.z != p.h) return; for (int z = 0; z < p.h; z++) for (int x = 0; x < p.w; x++) m.at(z, k, x) = p.at(x, z)[c]; }, p }; }
static Op op_zs(const Pic &p, int r, int g, int b, int a) { return { fmt("z_slices_set_image(%s, %d,%d,%d,%d)", p.s().c_str(), r, g, b, a), [=](Ref<MLPPTensor3> t, Ref<Image> i) { t->z_slices_set_image(i, r, g, b, a); },
	[=](Ten &m) { int id[4] = { r, g, b, a }; for (int i : id) if (i != -1 && (i < 0 || i >= m.z)) return; if (m.x != p.w || m.y != p.h) return; for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) for (int i = 0; i < 4; i++) if (id[i] != -1) m.at(id[i], y, x) = p.at(x, y)[i]; }, p }; }

static bool apply(const Op &o, Ref<MLPPTensor3> t, Ten &m, const string &hist) {
	mc::transition();
	Ref<Image> im = mk(o.pic);
	o.run(t, im); o.spec(m);
	string key = o.name.substr(0, o.name.find('('));
	Ten d = dump(t);
	mc::state(d.s());
	bool ok = mc::ok(near(d, m), key, "%s; %s: expected %s, got %s", hist.c_str(), o.name.c_str(), m.s().c_str(), d.s().c_str());
	ok = mc::ok(same(dump(im), o.pic), key + ":source", "%s; %s changed the image", hist.c_str(), o.name.c_str()) && ok;
	ok = mc::ok(unlocked(im), key + ":lock", "%s; %s leaves the image locked", hist.c_str(), o.name.c_str()) && ok;
	m = d; // values as rounded by the tensor
	return ok;
}

static void histories(int depth, const Ten &m, const vector<Op> &ops, const string &hist) {
	if (depth == 0) { check_views(m, mk(m)); return; }
	for (const Op &o : ops) {
		Ten n = m; Ref<MLPPTensor3> t = mk(m);
		if (!apply(o, t, n, hist)) continue;
		if (n == m) { continue; } // refused or without effect: every continuation is explored from m already
		check_views(n, t);
		histories(depth - 1, n, ops, hist + "; " + o.name);
	}
}

void explore() {
	bool th = mc::thorough();
	// tensors: slices as images
	int M = th ? 4 : 3;
	for (int z = 0; z <= M; z++) for (int y = 1; y <= M; y++) for (int x = 1; x <= M; x++) for (int sd = 0; sd < 4; sd++) MC_CASE("tensor %dx%dx%d values %d: slices as images", z, y, x, sd) {
		Ten m = mkten(z, y, x, sd, sd == 3);
		Ref<MLPPTensor3> t = mk(m);
		check_views(m, t);
		if (m.v.size()) check_rgba(m, t, z <= 2);
	}
	// every 8-bit level survives matrix / tensor -> image -> matrix / tensor
	MC_CASE("every 8-bit level through matrix and tensor") {
		Pic p; p.f = 0; p.w = 16; p.h = 16; for (int i = 0; i < 256; i++) p.b.push_back(i);
		Ref<MLPPMatrix> m; m.instance();
		Ref<MLPPTensor3> t; t.instance();
		for (int c = 0; c < 3; c++) { m->set_from_image(mk(p), c); mc::ok(same(dump(m->get_as_image()), p), "levels:matrix", "an L8 image with every level, channel %d, read into a matrix and written out again, differs", c); mc::transition(); }
		t->set_from_image(mk(p), 1);
		mc::ok(same(dump(t->z_slice_get_image(0)), p), "levels:tensor", "an L8 image with every level, read into a tensor and written out again, differs");
		Pic q = p; q.f = 5; q.b.clear(); for (int i = 0; i < 256; i++) for (int c = 0; c < 4; c++) q.b.push_back((i + 64 * c) & 255);
		t->set_from_image(mk(q), 15);
		mc::ok(same(dump(t->z_slices_get_image(0, 1, 2, 3)), q), "levels:rgba", "an RGBA8 image with every level, read into a tensor and written out again, differs");
		Ref<Image> im = mk(mkpic(5, 16, 16, 3)); t->z_slices_get_into_image(im, 0, 1, 2, 3);
		mc::ok(same(dump(im), q), "levels:into", "an RGBA8 image with every level, read into a tensor and written into another image, differs");
		for (int s = 0; s < 16; s++) { Ref<Image> xi = t->x_slice_get_image(s); for (int zz = 0; zz < 4; zz++) for (int yy = 0; yy < 16; yy++) mc::ok(dump(xi).b[zz * 16 + yy] == q.b[(yy * 16 + s) * 4 + zz], "levels:x", "level of x slice %d differs at (%d,%d)", s, yy, zz);
			Ref<Image> yi = t->y_slice_get_image(s); for (int zz = 0; zz < 4; zz++) for (int xx = 0; xx < 16; xx++) mc::ok(dump(yi).b[zz * 16 + xx] == q.b[(s * 16 + xx) * 4 + zz], "levels:y", "level of y slice %d differs at (%d,%d)", s, xx, zz); }
	}
	// matrices
	for (int h = 0; h <= M; h++) for (int w = h ? 1 : 0; w <= (h ? M : 0); w++) for (int sd = 0; sd < 4; sd++) for (int f = 0; f < NF; f++) MC_CASE("matrix %dx%d values %d and images %s", h, w, sd, fname(f)) {
		Ten v = mkten(1, h, w, sd, sd == 3);
		Ref<MLPPMatrix> m; m.instance(); m->resize(Size2i(w, h));
		for (size_t i = 0; i < v.v.size(); i++) m->ptrw()[i] = v.v[i];
		auto intact = [&](const char *key) { bool ok = m->size() == Size2i(w, h); for (size_t i = 0; ok && i < v.v.size(); i++) ok = m->ptr()[i] == (float)v.v[i]; mc::ok(ok, fmt("%s:pure", key), "%s changed the matrix", key); };
		Ref<Image> g = m->get_as_image();
		if (h) check_slice_image("get_as_image", g, w, h, [&](int x, int y) { return v.at(0, y, x); }, fmt("matrix %s get_as_image", v.s().c_str()));
		else mc::ok(g.is_valid() && g->empty() && g->get_width() == 0, "get_as_image:empty", "the image of an empty matrix is not empty");
		intact("get_as_image");
		for (int ww = 0; ww <= 3; ww++) for (int hh = ww ? 1 : 0; hh <= (ww ? 3 : 0); hh++) for (int mip = 0; mip < (f == 6 || f == 7 || !ww ? 1 : 2); mip++) {
			Ref<Image> t = mk(mkpic(f, ww, hh, 5), mip);
			m->get_into_image(t);
			if (h) { mc::ok(!t->has_mipmaps() , "get_into_image:mipmaps", "the image keeps mipmaps"); check_slice_image("get_into_image", t, w, h, [&](int x, int y) { return v.at(0, y, x); }, fmt("matrix %s get_into_image %s %dx%d", v.s().c_str(), fname(f), ww, hh)); }
			else mc::ok(t->empty() && t->get_width() == 0 && t->get_height() == 0, "get_into_image:empty", "an empty matrix leaves a non-empty image");
		}
		m->get_into_image(Ref<Image>()); intact("get_into_image");
		m->set_from_image(Ref<Image>(), 0); intact("set_from_image(null)");
		for (int ww = 1; ww <= 3; ww++) for (int hh = 1; hh <= 3; hh++) for (int c = -1; c <= 4; c++) {
			mc::transition();
			Pic p = mkpic(f, ww, hh, 11 + c);
			Ref<MLPPMatrix> n = m->duplicate_fast();
			Ref<Image> im = mk(p, ww == 2 && f != 6 && f != 7);
			n->set_from_image(im, c);
			bool bad = c < 0 || c > 3, ok = n->size() == (bad ? Size2i(w, h) : Size2i(ww, hh));
			string why;
			for (int i = 0; ok && i < n->data_size(); i++) { double e = bad ? v.v[i] : p.at(i % ww, i / ww)[c]; if (!mc::close(n->ptr()[i], e, 1e-6, 1e-6)) { ok = false; why = fmt("entry %d is %g instead of %g", i, n->ptr()[i], e); } }
			mc::ok(ok, "set_from_image", "matrix %s set_from_image(%s, %d): size %dx%d; %s", v.s().c_str(), p.s().c_str(), c, n->size().y, n->size().x, why.c_str());
			mc::ok(same(dump(im), p), "set_from_image:source", "set_from_image(%s, %d) changed the image", p.s().c_str(), c);
			mc::ok(unlocked(im), "set_from_image:lock", "set_from_image(%s, %d) leaves the image locked", p.s().c_str(), c);
		}
	}
	// slices written into existing images of every format and several sizes
	vector<std::array<int, 3>> tz = { { 1, 1, 1 }, { 2, 1, 3 }, { 1, 3, 2 }, { 3, 2, 4 }, { 2, 3, 2 } };
	if (th) tz.insert(tz.end(), { { 3, 3, 3 }, { 4, 2, 1 }, { 1, 5, 4 }, { 4, 4, 2 } });
	for (auto &d : tz) for (int f = 0; f < NF; f++) for (int sz = 0; sz < 4; sz++) for (int mip = 0; mip < (f == 6 || f == 7 ? 1 : 2); mip++) for (int sd = 0; sd < 4; sd += th ? 1 : 3) MC_CASE("tensor %dx%dx%d values %d into %s image kind %d mipmaps %d", d[0], d[1], d[2], sd, fname(f), sz, mip) {
		Ten m = mkten(d[0], d[1], d[2], sd, sd == 3);
		Target t = { f, sz == 0 ? m.x : sz == 1 ? m.y : sz == 2 ? 1 : 5, sz == 0 ? m.y : sz == 1 ? m.z : sz == 2 ? 1 : 3, (bool)mip };
		into_all(m, mk(m), t);
	}
	// single operations that read an image, every parameter
	vector<std::array<int, 2>> is = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 2, 3 }, { 3, 2 }, { 2, 2 } };
	for (int f = 0; f < NF; f++) for (auto &q : is) for (auto &d : tz) MC_CASE("tensor %dx%dx%d from a %s image %dx%d, every operation and parameter", d[0], d[1], d[2], fname(f), q[0], q[1]) {
		Pic p = mkpic(f, q[0], q[1], 3);
		for (int e = 0; e < 2; e++) {
			Ten m = e ? Ten() : mkten(d[0], d[1], d[2], 1);
			auto one = [&](const Op &o) { Ten n = m; apply(o, mk(m), n, m.s()); };
			for (int fl = 0; fl < 32; fl++) { one(op_set(p, fl)); one(op_add(p, fl)); for (int k = -1; k <= 4; k++) { one(op_z(p, k, fl)); one(op_x(p, k, fl)); one(op_y(p, k, fl)); } }
			for (int r = -2; r <= m.z; r++) for (int g = -1; g <= m.z; g++) for (int b = -1; b <= m.z; b++) for (int a = -1; a <= m.z; a++) one(op_zs(p, r, g, b, a));
			Ref<MLPPTensor3> t = mk(m); Ref<Image> nul;
			t->set_from_image(nul, 1); t->z_slices_add_image(nul, 1); t->z_slice_set_image(nul, 0, 1); t->x_slice_set_image(nul, 0, 1); t->y_slice_set_image(nul, 0, 1); t->z_slices_set_image(nul, 0, 0, 0, 0);
			mc::ok(dump(t) == m, "null", "an operation without an image changed %s", m.s().c_str());
		}
	}
	// histories
	vector<Pic> pics = { mkpic(5, 2, 3, 21), mkpic(1, 3, 2, 22), mkpic(9, 2, 2, 23) };
	vector<Op> ops;
	for (auto &p : pics) { ops.push_back(op_set(p, 7)); ops.push_back(op_set(p, 10)); ops.push_back(op_add(p, 1)); ops.push_back(op_add(p, 12)); for (int k = 0; k < 2; k++) { ops.push_back(op_z(p, k, 2)); ops.push_back(op_x(p, k, 4 + 8)); ops.push_back(op_y(p, k, 8)); } ops.push_back(op_zs(p, 1, 0, -1, 1)); }
	for (auto &o : ops) for (auto &o2 : ops) MC_CASE("history %s; %s; every continuation", o.name.c_str(), o2.name.c_str()) {
		Ten m; Ref<MLPPTensor3> t = mk(m);
		if (apply(o, t, m, "empty tensor") && apply(o2, t, m, o.name)) { check_views(m, t); histories(th ? 3 : 2, m, ops, o.name + "; " + o2.name); }
	}
}
