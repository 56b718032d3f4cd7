// MC: variant=asan
// C46: images. Every operation on every format over all small sizes and rectangles, and histories of operations, against a plain byte model.
#include "img.h"
#include <algorithm>
#include <dirent.h>
#include <functional>
#include <sys/stat.h>
typedef std::array<int, 4> R4;
static Col tocol(const Color &c) { return { c.r, c.g, c.b, c.a }; }
static Color mkcol(const Col &c) { return Color(c[0], c[1], c[2], c[3]); }
static bool colnear(const Col &a, const Col &b, double t = 1e-5) { for (int i = 0; i < 4; i++) if (std::fabs(a[i] - b[i]) > t) return false; return true; }
static string cstr(const Col &c) { return fmt("(%g %g %g %g)", c[0], c[1], c[2], c[3]); }
static Pic blank(int f, int w, int h) { Pic p; p.f = f; p.w = w; p.h = h; p.b.assign((size_t)w * h * psize(f), 0); return p; }
static uint8_t *px(Pic &p, int x, int y) { return &p.b[(size_t)(y * p.w + x) * psize(p.f)]; }
static const uint8_t *px(const Pic &p, int x, int y) { return &p.b[(size_t)(y * p.w + x) * psize(p.f)]; }
static void put(Pic &p, int x, int y, const uint8_t *v) { memcpy(px(p, x, y), v, psize(p.f)); }
static int mips(int w, int h) { int n = 0; while (w > 1 || h > 1) { w = std::max(1, w / 2); h = std::max(1, h / 2); n++; } return n; }
static Pic half(const Pic &p) { // one mipmap step: every pixel is the mean of its 2x2 block
	Pic q = blank(p.f, std::max(1, p.w / 2), std::max(1, p.h / 2));
	for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) {
		int x0 = p.w == 1 ? 0 : 2 * x, x1 = p.w == 1 ? 0 : 2 * x + 1, y0 = p.h == 1 ? 0 : 2 * y, y1 = p.h == 1 ? 0 : 2 * y + 1;
		const uint8_t *s[4] = { px(p, x0, y0), px(p, x1, y0), px(p, x0, y1), px(p, x1, y1) };
		if (p.f >= 8) for (int i = 0; i < psize(p.f) / 4; i++) { float v = 0, t; for (auto a : s) { memcpy(&t, a + 4 * i, 4); v += t; } v *= 0.25f; memcpy(px(q, x, y) + 4 * i, &v, 4); }
		else for (int i = 0; i < psize(p.f); i++) px(q, x, y)[i] = (s[0][i] + s[1][i] + s[2][i] + s[3][i] + 2) / 4;
	}
	return q;
}
// bytes compared exactly, floats within rounding, 8-bit levels optionally within a level
static bool alike(const Pic &a, const Pic &b, int level = 0, double ft = 1e-5) {
	if (a.f != b.f || a.w != b.w || a.h != b.h || a.b.size() != b.b.size()) return false;
	if (a.f >= 8) { for (size_t i = 0; i + 4 <= a.b.size(); i += 4) { float x, y; memcpy(&x, &a.b[i], 4); memcpy(&y, &b.b[i], 4); if (!mc::close(x, y, ft, ft)) return false; } return true; }
	if (!level) return a.b == b.b;
	for (size_t i = 0; i < a.b.size(); i++) if (std::abs((int)a.b[i] - (int)b.b[i]) > level) return false;
	return true;
}
static string show(const Pic &p) { string o = p.s() + "["; for (size_t i = 0; i < p.b.size() && i < 24; i++) o += fmt("%02x", p.b[i]); return o + "]"; }
// the whole image: content, and mipmaps present, of the right size and derived from the content
static bool content(const char *key, const Ref<Image> &im, const Pic &e, int mip, const string &what, int level = 0, double ft = 1e-5) {
	mc::transition();
	Pic g = dump(im);
	bool ok = mc::ok(alike(g, e, level, ft), key, "%s: expected %s, got %s", what.c_str(), show(e).c_str(), show(g).c_str());
	if (mip >= 0) {
		int need = 0; Pic q = e; int n = mip ? mips(e.w, e.h) : 0;
		for (int i = 0; i <= n; i++) { int w = std::max(1, e.w >> i), h = std::max(1, e.h >> i); need += w * h * psize(e.f); }
		if (!e.w) need = 0;
		ok = mc::ok(im->has_mipmaps() == (bool)mip && im->get_data_size() == need && im->get_mipmap_count() == n, string(key) + ":mipmaps", "%s: mipmaps %d, %d levels, %d bytes, instead of %d, %d levels, %d bytes", what.c_str(), im->has_mipmaps(), im->get_mipmap_count(), im->get_data_size(), mip, n, need) && ok;
	}
	return ok;
}
static bool levels_ok(const char *key, const Ref<Image> &im, const string &what) {
	Pic q = dump(im); Vector<uint8_t> d = im->get_data(); int ofs = 0, n = mips(q.w, q.h);
	for (int i = 0; i <= n; i++) {
		Pic g = q; if (ofs + (int)q.b.size() > d.size()) return mc::ok(false, string(key) + ":levels", "%s: too little data", what.c_str());
		memcpy(g.b.data(), d.ptr() + ofs, g.b.size());
		int o, s, w, h; im->get_mipmap_offset_size_and_dimensions(i, o, s, w, h);
		int o2, s2; im->get_mipmap_offset_and_size(i, o2, s2);
		bool ok = mc::ok(alike(g, q) && o == ofs && s == (int)q.b.size() && w == q.w && h == q.h && o2 == o && s2 == s && im->get_mipmap_offset(i) == ofs && Image::get_image_mipmap_offset(im->get_width(), im->get_height(), (Image::Format)q.f, i) == ofs, string(key) + ":levels", "%s: level %d at %d of %d bytes %dx%d is %s, expected %s at %d", what.c_str(), i, o, s, w, h, show(g).c_str(), show(q).c_str(), ofs);
		if (!ok) return false;
		ofs += q.b.size(); q = half(g);
	}
	return mc::ok(Image::get_image_data_size(im->get_width(), im->get_height(), im->get_format(), true) == ofs && Image::get_image_required_mipmaps(im->get_width(), im->get_height(), im->get_format()) == n, string(key) + ":levels", "%s: the static size functions disagree", what.c_str());
}
static bool usable(const char *key, const Ref<Image> &im, const string &what) { return mc::ok(unlocked(im), string(key) + ":lock", "%s: the image stays locked", what.c_str()); }
static bool custom(int f) { return f == 6 || f == 7; }

static Pic m_crop(const Pic &p, int x0, int y0, int w, int h) { Pic q = blank(p.f, w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (x + x0 < p.w && y + y0 < p.h) put(q, x, y, px(p, x + x0, y + y0)); return q; }
static Pic m_flip(const Pic &p, bool fx, bool fy) { Pic q = p; for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) put(q, x, y, px(p, fx ? p.w - 1 - x : x, fy ? p.h - 1 - y : y)); return q; }
static Pic m_near(const Pic &p, int w, int h) { Pic q = blank(p.f, w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(q, x, y, px(p, x * p.w / w, y * p.h / h)); return q; }
// the part of source rectangle sr that exists, drawn at d: pixel s of the source goes to d + s - sr.position
static void m_blit(Pic &q, const Pic &p, const R4 &sr, int dx, int dy, const std::function<void(uint8_t *, const uint8_t *, int, int, int, int)> &f) {
	for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) {
		if (x < sr[0] || y < sr[1] || x >= sr[0] + sr[2] || y >= sr[1] + sr[3]) continue;
		int tx = dx + x - sr[0], ty = dy + y - sr[1];
		if (tx < 0 || ty < 0 || tx >= q.w || ty >= q.h) continue;
		f(px(q, tx, ty), px(p, x, y), x, y, tx, ty);
	}
}
static Col m_blend(const Col &d, const Col &s) { double sa = 1 - s[3]; Col r; r[3] = d[3] * sa + s[3]; if (r[3] == 0) return { 0, 0, 0, 0 }; for (int i = 0; i < 3; i++) r[i] = (d[i] * d[3] * sa + s[i] * s[3]) / r[3]; return r; }
static Pic m_convert(const Pic &p, int f) { // between the 8-bit formats
	Pic q = blank(f, p.w, p.h);
	for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) {
		const uint8_t *s = px(p, x, y); uint8_t c[4] = { 0, 0, 0, 255 };
		switch (p.f) { case 0: c[0] = c[1] = c[2] = s[0]; break; case 1: c[0] = c[1] = c[2] = s[0]; c[3] = s[1]; break; case 2: c[0] = s[0]; break; case 3: c[0] = s[0]; c[1] = s[1]; break; case 5: c[3] = s[3]; /* fallthrough */ case 4: for (int i = 0; i < 3; i++) c[i] = s[i]; }
		uint8_t g = (c[0] + c[1] + c[2]) / 3; uint8_t o[4];
		switch (f) { case 0: o[0] = g; break; case 1: o[0] = g; o[1] = c[3]; break; default: memcpy(o, c, 4); }
		put(q, x, y, o);
	}
	return q;
}

static void pixels(int f, int w, int h) {
	Pic p = mkpic(f, w, h, f + 1); Ref<Image> im = mk(p);
	im->lock();
	for (int y = -1; y <= h; y++) for (int x = -1; x <= w; x++) {
		bool in = x >= 0 && y >= 0 && x < w && y < h;
		Col e = in ? p.at(x, y) : Col{ 0, 0, 0, 1 }, g = tocol(im->get_pixel(x, y)), g2 = tocol(im->get_pixelv(Vector2(x, y)));
		mc::transition();
		mc::ok(colnear(e, g) && colnear(e, g2), "get_pixel", "%s pixel (%d,%d) is %s, expected %s", show(p).c_str(), x, y, cstr(g).c_str(), cstr(e).c_str());
	}
	im->unlock();
	vector<Col> cs = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { 1, 0, 0, 1 }, { 0, 1, 0, 0.5 }, { 0.2, 0.4, 0.6, 0.8 }, { 0.1, 0.9, 0.33, 0.66 }, { -1, 2, 0.5, 3 }, { 100 / 255., 200 / 255., 3 / 255., 254 / 255. }, { 0.75, 0.25, 0.125, 0.49 } };
	for (auto &c : cs) for (int y = -1; y <= h; y++) for (int x = -1; x <= w; x++) for (int v = 0; v < 2; v++) {
		Ref<Image> t = mk(p); t->lock(); v ? t->set_pixelv(Vector2(x, y), mkcol(c)) : t->set_pixel(x, y, mkcol(c)); Col back = tocol(t->get_pixel(x, y)); t->unlock();
		bool in = x >= 0 && y >= 0 && x < w && y < h; Pic g = dump(t), e = p; string why;
		mc::transition();
		if (in) { mc::ok(shows(f, g.at(x, y), c, &why), "set_pixel", "%s set to %s: %s", fname(f), cstr(c).c_str(), why.c_str()); mc::ok(colnear(back, g.at(x, y)), "set_pixel:read", "%s set to %s reads as %s", fname(f), cstr(c).c_str(), cstr(back).c_str()); put(e, x, y, px(g, x, y)); }
		mc::ok(g.b == e.b && g.w == w && g.h == h && g.f == f, "set_pixel:others", "%s: setting (%d,%d) changes other pixels", show(p).c_str(), x, y);
	}
	// writing back what was read changes nothing
	Ref<Image> t = mk(p); t->lock(); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) t->set_pixel(x, y, t->get_pixel(x, y)); t->unlock();
	content("set_pixel:identity", t, p, 0, fmt("writing back every pixel of %s", show(p).c_str()));
}
static void identity_levels() { // every level of every 8-bit channel survives read and write
	for (int f = 0; f < 8; f++) { int n = f < 6 ? 256 : 65536; Pic p = blank(f, 256, n / 256); for (int i = 0; i < n; i++) { uint8_t v[4]; if (f < 6) for (int c = 0; c < 4; c++) v[c] = i + 64 * c; else { v[0] = i & 255; v[1] = i >> 8; } put(p, i % 256, i / 256, v); }
		Ref<Image> t = mk(p); t->lock(); for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) t->set_pixel(x, y, t->get_pixel(x, y)); t->unlock(); Pic g = dump(t); size_t k = 0; while (k < g.b.size() && g.b[k] == p.b[k]) k++;
		mc::transition(); mc::ok(k == g.b.size(), "set_pixel:levels", "%s: reading and writing back pixel %zu changes byte %02x into %02x", fname(f), k / psize(f), k < g.b.size() ? p.b[k] : 0, k < g.b.size() ? g.b[k] : 0); }
}
static void conversions(int f, int w, int h) {
	for (int sd = 0; sd < 3; sd++) for (int f2 = 0; f2 < NF; f2++) for (int mip = 0; mip < (custom(f) || custom(f2) ? 1 : 2); mip++) {
		Pic p = mkpic(f, w, h, sd); Ref<Image> im = mk(p, mip); im->convert((Image::Format)f2);
		string what = fmt("%s converted to %s", show(p).c_str(), fname(f2));
		if (f == f2) content("convert:same", im, p, mip, what);
		else if (f < 6 && f2 < 6) { content("convert", im, m_convert(p, f2), mip, what); }
		else {
			Pic g = dump(im); mc::transition();
			if (!mc::ok(g.f == f2 && g.w == w && g.h == h, "convert:shape", "%s gives %s", what.c_str(), g.s().c_str())) continue;
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { string why; mc::ok(shows(f2, g.at(x, y), p.at(x, y), &why), "convert:pixel", "%s: pixel (%d,%d): %s", what.c_str(), x, y, why.c_str()); }
		}
		if (mip && f2 != 6 && f2 != 7) levels_ok("convert", im, what);
		Ref<Image> d = im->duplicate(); mc::ok(same(dump(d), dump(im)) && d->has_mipmaps() == im->has_mipmaps() && d->get_data_size() == im->get_data_size(), "duplicate", "%s: the duplicate differs", what.c_str());
		Pic before = dump(im); d->fill(Color(0.5, 0.25, 0.75, 0.5)); mc::ok(same(dump(im), before), "duplicate:independent", "%s: filling the duplicate changes the original", what.c_str());
		usable("convert", im, what);
	}
}
static void geometry(int f, int w, int h) {
	for (int mip = 0; mip < (custom(f) ? 1 : 2); mip++) {
		Pic p = mkpic(f, w, h, 5 + mip);
		for (int x = -1; x <= w + 1; x++) for (int y = -1; y <= h + 1; y++) for (int cw = -1; cw <= w + 1; cw++) for (int ch = -1; ch <= h + 1; ch++) {
			Ref<Image> im = mk(p, mip); im->crop_from_point(x, y, cw, ch); string what = fmt("%s crop_from_point(%d,%d,%d,%d)", show(p).c_str(), x, y, cw, ch);
			bool bad = x < 0 || y < 0 || cw <= 0 || ch <= 0; content("crop_from_point", im, bad ? p : m_crop(p, x, y, cw, ch), mip, what); if (mip) levels_ok("crop_from_point", im, what); usable("crop_from_point", im, what);
			if (x == 0 && y == 0) { im = mk(p, mip); im->crop(cw, ch); content("crop", im, bad ? p : m_crop(p, 0, 0, cw, ch), mip, fmt("%s crop(%d,%d)", show(p).c_str(), cw, ch)); }
			if (!mip) { im = mk(p); Ref<Image> r = im->get_rect(Rect2(x, y, cw, ch)); if (cw > 0 && ch > 0) { Pic e = blank(f, cw, ch); for (int j = 0; j < ch; j++) for (int i = 0; i < cw; i++) { int sx = i + x, sy = j + y; if (sx >= 0 && sy >= 0 && sx < w && sy < h) put(e, i, j, px(p, sx, sy)); } if (mc::ok(r.is_valid(), "get_rect:null", "no image")) content("get_rect", r, e, 0, fmt("%s get_rect(%d,%d,%d,%d)", show(p).c_str(), x, y, cw, ch)); } content("get_rect:source", im, p, 0, "get_rect"); }
		}
		Ref<Image> im = mk(p, mip); im->flip_x(); content("flip_x", im, m_flip(p, true, false), mip, fmt("%s flip_x", show(p).c_str())); if (mip) levels_ok("flip_x", im, "flip_x"); usable("flip_x", im, "flip_x");
		im = mk(p, mip); im->flip_y(); content("flip_y", im, m_flip(p, false, true), mip, fmt("%s flip_y", show(p).c_str())); if (mip) levels_ok("flip_y", im, "flip_y"); usable("flip_y", im, "flip_y");
		if (mip) { im = mk(p, true); levels_ok("generate_mipmaps", im, show(p)); content("generate_mipmaps", im, p, 1, show(p)); im->clear_mipmaps(); content("clear_mipmaps", im, p, 0, show(p)); }
		// half size
		im = mk(p, mip); im->shrink_x2(); string what = fmt("%s shrink_x2", show(p).c_str());
		if (w > 1 && h > 1 && !custom(f)) { content("shrink_x2", im, half(p), mip, what); }
		// to powers of two
		for (int sq = 0; sq < 2; sq++) { im = mk(p, mip); im->resize_to_po2(sq, Image::INTERPOLATE_NEAREST); int a = 1, b = 1; while (a < w) a *= 2; while (b < h) b *= 2; if (sq) a = b = std::max(a, b); content("resize_to_po2", im, m_near(p, a, b), mip, fmt("%s resize_to_po2(%d)", show(p).c_str(), sq)); mc::ok(im->is_size_po2(), "is_size_po2", "%dx%d is not a power of two", im->get_width(), im->get_height()); }
		// refusals
		im = mk(p, mip); im->lock(); im->crop(1, 1); im->resize(1, 2); im->shrink_x2(); im->convert(f ? Image::FORMAT_L8 : Image::FORMAT_RGBA8); im->create(1, 1, false, Image::FORMAT_L8); im->unlock(); content("locked", im, p, mip, "operations on a locked image");
		Vector<uint8_t> few; few.resize(p.b.size() + 1); im = mk(p, mip); im->create(w, h, false, (Image::Format)f, few); im->create(0, 1, false, Image::FORMAT_L8); im->create(1, -1, false, Image::FORMAT_L8); content("create:refuse", im, p, mip, "create with wrong sizes");
		for (int cm = 0; cm < (custom(f) ? 1 : 2); cm++) { im = mk(p, mip); im->create(w, h, cm, (Image::Format)f); content("create", im, blank(f, w, h), cm, "create"); }
		im = mk(p, mip); im->clear(); mc::ok(im->empty() && im->get_width() == 0 && im->get_height() == 0, "clear", "clear leaves content");
	}
}
static void scaling(int f, int w, int h, bool th) {
	static const Image::Interpolation I[] = { Image::INTERPOLATE_NEAREST, Image::INTERPOLATE_BILINEAR, Image::INTERPOLATE_CUBIC, Image::INTERPOLATE_TRILINEAR, Image::INTERPOLATE_LANCZOS };
	static const char *IN[] = { "nearest", "bilinear", "cubic", "trilinear", "lanczos" };
	int lim = th ? 7 : 5;
	for (int nw = 0; nw <= lim; nw++) for (int nh = 0; nh <= lim; nh++) for (int k = 0; k < 5; k++) for (int mip = 0; mip < (custom(f) ? 1 : 2); mip++) {
		Pic p = mkpic(f, w, h, 9); Ref<Image> im = mk(p, mip); im->resize(nw, nh, I[k]);
		string what = fmt("%s resized to %dx%d, %s", show(p).c_str(), nw, nh, IN[k]), key = fmt("resize:%s", IN[k]);
		if (nw == 0 || nh == 0 || (nw == w && nh == h)) { content(key.c_str(), im, p, mip, what); continue; }
		Pic g = dump(im);
		if (k == 0) content(key.c_str(), im, m_near(p, nw, nh), mip, what);
		else content((key + ":shape").c_str(), im, [&] { Pic e = g; e.f = f; e.w = nw; e.h = nh; return e; }(), k == 3 ? (mip ? 1 : -1) : mip, what);
		if (k == 1 && !custom(f)) { // linear interpolation between pixel centres
			Pic e = blank(f, nw, nh); int C = f >= 8 ? psize(f) / 4 : psize(f);
			auto val = [&](int x, int y, int c) { const uint8_t *s = px(p, x, y); if (f < 8) return (double)s[c]; float t; memcpy(&t, s + 4 * c, 4); return (double)t; };
			bool ok = true; string why; double range = f >= 8 ? 3.0 : 256;
			for (int y = 0; y < nh && ok; y++) for (int x = 0; x < nw && ok; x++) for (int c = 0; c < C && ok; c++) {
				double sx = std::min(std::max((x + 0.5) * w / nw - 0.5, 0.0), w - 1.0), sy = std::min(std::max((y + 0.5) * h / nh - 0.5, 0.0), h - 1.0);
				int x0 = sx, y0 = sy, x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1); double fx = sx - x0, fy = sy - y0;
				double v = (val(x0, y0, c) * (1 - fx) + val(x1, y0, c) * fx) * (1 - fy) + (val(x0, y1, c) * (1 - fx) + val(x1, y1, c) * fx) * fy, got; const uint8_t *s = px(g, x, y); if (f < 8) got = s[c]; else { float t; memcpy(&t, s + 4 * c, 4); got = t; }
				double tol = range / 256 * 2 + (f < 8 ? 1 : 0); // weights have 8 bits
				if (std::fabs(v - got) > tol) { ok = false; why = fmt("pixel (%d,%d) channel %d is %g, expected %g", x, y, c, got, v); }
			}
			mc::ok(ok, key, "%s: %s", what.c_str(), why.c_str());
		}
		if (mip) levels_ok(key.c_str(), im, what);
		usable(key.c_str(), im, what);
		// an image of one colour keeps it
		Pic u = p; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(u, x, y, px(p, 0, 0));
		Pic e = blank(f, nw, nh); for (int y = 0; y < nh; y++) for (int x = 0; x < nw; x++) put(e, x, y, px(p, 0, 0));
		im = mk(u, mip); im->resize(nw, nh, I[k]); bool rough = (k == 2 || k == 4 || k == 3) && f < 8; Pic gg = dump(im); mc::transition();
		mc::ok(alike(gg, e, rough && !custom(f) ? 1 : 0, 1e-4), key + ":constant", "%s of one colour resized to %dx%d, %s: %s", show(u).c_str(), nw, nh, IN[k], show(gg).c_str());
	}
}
static void blits(int f, int w, int h, int sw, int sh, bool th) {
	for (int op = 0; op < 4; op++) for (int x = -2; x <= sw; x++) for (int y = -2; y <= sh; y++) for (int rw = 0; rw <= sw + 2; rw++) for (int rh = 0; rh <= sh + 2; rh++) {
		if (!th && (x + 2 * y + rw + 3 * rh + op) % 2 && (x < -1 || y < -1)) continue;
		for (int dx = -3; dx <= w; dx++) for (int dy = -3; dy <= h; dy++) {
			if (!th && (dx == -3 || dy == -3) && (x + y) % 2) continue;
			Pic q = mkpic(f, w, h, 3), p = mkpic(f, sw, sh, 4), mask = mkpic(5, sw, sh, 6);
			for (int i = 0; i < sw * sh; i++) { if (i % 3 == 1) mask.b[4 * i + 3] = 0; if (f == 5 && i % 4 == 2) p.b[4 * i + 3] = 0; if (f == 5 && i % 4 == 3) p.b[4 * i + 3] = 255; }
			Ref<Image> D = mk(q), S = mk(p), M = mk(mask); Rect2 r(x, y, rw, rh); Vector2 at(dx, dy); R4 sr = { x, y, rw, rh };
			static const char *ON[] = { "blit_rect", "blit_rect_mask", "blend_rect", "blend_rect_mask" };
			auto what = [&]() { return fmt("%s(%s at %s, rect %d,%d,%d,%d, to %d,%d)", ON[op], show(p).c_str(), show(q).c_str(), x, y, rw, rh, dx, dy); };
			auto chk = [&](bool ok, const char *suf, const string &why) { if (ok) mc::ok(true, ON[op], ""); else mc::ok(false, string(ON[op]) + suf, "%s: %s", what().c_str(), why.c_str()); };
			if (op == 0) D->blit_rect(S, r, at); if (op == 1) D->blit_rect_mask(S, M, r, at); if (op == 2) D->blend_rect(S, r, at); if (op == 3) D->blend_rect_mask(S, M, r, at);
			Pic e = q, g = dump(D); mc::transition(); bool ok = g.w == w && g.h == h && g.f == f; string why;
			m_blit(e, p, sr, dx, dy, [&](uint8_t *d, const uint8_t *s, int sx, int sy, int tx, int ty) {
				if ((op & 1) && mask.b[(sy * sw + sx) * 4 + 3] == 0) return;
				if (op < 2) { memcpy(d, s, psize(f)); return; }
				Col sc = p.at(sx, sy), dc = q.at(tx, ty); if (sc[3] == 0) return;
				string y; if (ok && !shows(f, g.at(tx, ty), m_blend(dc, sc), &y, false) ) { ok = false; why = fmt("pixel (%d,%d) blended: %s", tx, ty, y.c_str()); } memcpy(d, px(g, tx, ty), psize(f)); });
			chk(ok, ":blend", why);
			if (g.b == e.b) chk(true, "", ""); else chk(false, "", fmt("expected %s, got %s", show(e).c_str(), show(g).c_str()));
			chk(same(dump(S), p) && same(dump(M), mask), ":source", "changed the source or mask");
			if (!unlocked(D) || !unlocked(S) || !unlocked(M)) { usable(ON[op], D, what()); usable(ON[op], S, what()); usable(ON[op], M, what()); }
		}
	}
}
static void fills(int f, int w, int h) {
	vector<Col> cs = { { 0, 0, 0, 0 }, { 0.2, 0.4, 0.6, 0.8 }, { 1, 0, 100 / 255., 1 } };
	for (auto &c : cs) {
		Pic p = mkpic(f, w, h, 2);
		auto one = [&](const char *key, const Ref<Image> &im, int x0, int y0, int x1, int y1, const string &what) {
			Pic g = dump(im); mc::transition(); bool ok = g.w == w && g.h == h && g.f == f; string why; const uint8_t *first = nullptr;
			for (int y = 0; ok && y < h; y++) for (int x = 0; ok && x < w; x++) { if (x >= x0 && x < x1 && y >= y0 && y < y1) { if (!first) { first = px(g, x, y); ok = shows(f, g.at(x, y), c, &why); } ok = ok && !memcmp(first, px(g, x, y), psize(f)); } else ok = !memcmp(px(p, x, y), px(g, x, y), psize(f)); if (!ok) why += fmt(" at (%d,%d)", x, y); }
			mc::ok(ok, key, "%s %s with %s: %s; %s", what.c_str(), show(p).c_str(), cstr(c).c_str(), show(g).c_str(), why.c_str()); usable(key, im, what);
		};
		Ref<Image> im = mk(p); im->fill(mkcol(c)); one("fill", im, 0, 0, w, h, "fill");
		for (int x = -2; x <= w + 1; x++) for (int y = -2; y <= h + 1; y++) for (int rw = -2; rw <= w + 2; rw++) for (int rh = -2; rh <= h + 2; rh++) { im = mk(p); im->fill_rect(Rect2(x, y, rw, rh), mkcol(c)); one("fill_rect", im, std::min(x, x + rw), std::min(y, y + rh), std::max(x, x + rw), std::max(y, y + rh), fmt("fill_rect(%d,%d,%d,%d)", x, y, rw, rh)); }
	}
}
static void analysis(int f, int w, int h) { // alpha patterns: all assignments of levels to up to four pixels
	vector<int> lv = { 0, 1, 128, 254, 255 }; int n = std::min(4, w * h), tot = 1; for (int i = 0; i < n; i++) tot *= lv.size();
	bool al = f == 1 || f == 5 || f == 11 || custom(f);
	for (int code = 0; code < tot; code++) for (int mip = 0; mip < (custom(f) ? 1 : 2); mip++) {
		Pic p = mkpic(f, w, h, 8); vector<int> a(w * h, 0); int t = code; for (int i = 0; i < n; i++) { a[(i * 7 + 3) % (w * h)] = lv[t % lv.size()]; t /= lv.size(); }
		for (int i = 0; i < w * h; i++) { uint8_t *d = &p.b[i * psize(f)]; if (f == 1) d[1] = a[i]; if (f == 5) d[3] = a[i]; if (f == 11) { float v = a[i] / 255.f; memcpy(d + 12, &v, 4); } if (f == 6) d[0] = (d[0] & 0xf0) | (a[i] >> 4); if (f == 7) d[0] = (d[0] & 0xfe) | (a[i] > 100); }
		if (!al && code) break;
		Ref<Image> im = mk(p, mip); int x0 = w, y0 = h, x1 = -1, y1 = -1; bool any = false;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (p.at(x, y)[3] > 0) { any = true; x0 = std::min(x0, x); y0 = std::min(y0, y); x1 = std::max(x1, x); y1 = std::max(y1, y); }
		Rect2 r = im->get_used_rect(), e = any ? Rect2(x0, y0, x1 - x0 + 1, y1 - y0 + 1) : Rect2(); mc::transition();
		mc::ok(r == e, "get_used_rect", "%s: used %g,%g,%g,%g expected %g,%g,%g,%g", show(p).c_str(), r.position.x, r.position.y, r.size.x, r.size.y, e.position.x, e.position.y, e.size.x, e.size.y);
		if (f == 1 || f == 5 || f == 0 || f == 3 || f == 4) mc::ok(im->is_invisible() == !any, "is_invisible", "%s: is_invisible %d", show(p).c_str(), im->is_invisible());
		if (f == 1 || f == 5 || f == 0 || f == 4) { bool mid = false, lo = false; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int v = std::round(p.at(x, y)[3] * 255); lo |= v < 2; mid |= v >= 2 && v < 254; } Image::AlphaMode m = im->detect_alpha(); mc::ok(m == (mid ? Image::ALPHA_BLEND : lo ? Image::ALPHA_BIT : Image::ALPHA_NONE), "detect_alpha", "%s: alpha mode %d", show(p).c_str(), m); }
		content("analysis:pure", im, p, mip, "get_used_rect, is_invisible, detect_alpha"); usable("analysis", im, "analysis");
		if (f < 6) { // dropping unused channels keeps every pixel
			for (int zero = 0; zero < 32; zero++) { Pic q = m_convert(p, 5); for (int i = 0; i < w * h; i++) { for (int c = 0; c < 3; c++) if (zero >> c & 1) q.b[4 * i + c] = 0; if (zero & 8) q.b[4 * i + 3] = 255; if (zero & 16) q.b[4 * i + 1] = q.b[4 * i + 2] = q.b[4 * i]; }
				Ref<Image> o = mk(q); o->optimize_channels(); Pic g = dump(o); bool ok = g.w == w && g.h == h && g.f >= 0 && g.f < 6; string why; for (int y = 0; ok && y < h; y++) for (int x = 0; ok && x < w; x++) if (!colnear(g.at(x, y), q.at(x, y), 1e-3)) { ok = false; why = fmt("pixel (%d,%d) is %s instead of %s", x, y, cstr(g.at(x, y)).c_str(), cstr(q.at(x, y)).c_str()); } mc::ok(ok, "optimize_channels", "%s becomes %s: %s", show(q).c_str(), show(g).c_str(), why.c_str()); if (!al && zero == 31) break; }
			if (code % 5) continue;
		}
		if (f == 5) { Ref<Image> o = mk(p); o->premultiply_alpha(); Pic g = dump(o); bool ok = g.f == 5; for (int i = 0; ok && i < w * h; i++) { for (int c = 0; c < 3; c++) ok = ok && std::fabs(p.b[4 * i + c] * p.b[4 * i + 3] / 255.0 - g.b[4 * i + c]) <= 2.0; ok = ok && p.b[4 * i + 3] == g.b[4 * i + 3]; } mc::ok(ok, "premultiply_alpha", "%s premultiplied is %s", show(p).c_str(), show(g).c_str());
			o = mk(p); o->fix_alpha_edges(); g = dump(o); ok = true; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const uint8_t *s = px(p, x, y), *d = px(g, x, y); ok = ok && s[3] == d[3]; if (s[3] >= 20) { ok = ok && !memcmp(s, d, 4); continue; } int best = 1 << 30; for (int yy = std::max(0, y - 4); yy <= std::min(h - 1, y + 4); yy++) for (int xx = std::max(0, x - 4); xx <= std::min(w - 1, x + 4); xx++) if (px(p, xx, yy)[3] >= 20) best = std::min(best, (xx - x) * (xx - x) + (yy - y) * (yy - y)); bool hit = best == 1 << 30 && !memcmp(s, d, 3); for (int yy = 0; yy < h; yy++) for (int xx = 0; xx < w; xx++) if (px(p, xx, yy)[3] >= 20 && (xx - x) * (xx - x) + (yy - y) * (yy - y) == best && !memcmp(px(p, xx, yy), d, 3)) hit = true; ok = ok && hit; } mc::ok(ok, "fix_alpha_edges", "%s becomes %s", show(p).c_str(), show(g).c_str()); }
		if ((f == 5 || f == 4) && code < 3) { Ref<Image> o = mk(p); o->srgb_to_linear(); Pic g = dump(o); bool ok = g.f == f; for (size_t i = 0; ok && i < p.b.size(); i++) { if (f == 5 && i % 4 == 3) { ok = g.b[i] == p.b[i]; continue; } double s = p.b[i] / 255.0, l = s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4); ok = std::fabs(l * 255 - g.b[i]) <= 1.01; } mc::ok(ok, "srgb_to_linear", "%s becomes %s", show(p).c_str(), show(g).c_str()); }
	}
}
static void all_levels_srgb() { Pic p = blank(4, 16, 16); for (int i = 0; i < 256; i++) for (int c = 0; c < 3; c++) p.b[3 * i + c] = i; Ref<Image> o = mk(p); o->srgb_to_linear(); Pic g = dump(o); int last = 0; for (int i = 0; i < 256; i++) { double s = i / 255.0, l = s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4); mc::ok(std::fabs(l * 255 - g.b[3 * i]) <= 1.01 && g.b[3 * i] >= last, "srgb_to_linear:table", "level %d becomes %d", i, g.b[3 * i]); last = g.b[3 * i]; } }

static void normals(int f, int w, int h) { // height maps to normal maps (wrapping at the edges), normal maps to two channels, renormalised levels
	for (int mip = 0; mip < (custom(f) ? 1 : 2); mip++) for (int seed : { 3, 17 }) {
		Pic p = mkpic(f, w, h, seed);
		for (float s : { 1.0f, 8.0f, -2.5f }) {
			Ref<Image> im = mk(p, mip), r = mk(p); r->convert(Image::FORMAT_RF); Pic hm = dump(r), e = blank(5, w, h);
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
				double here = hm.at(x, y)[0], dx = (hm.at((x + 1) % w, y)[0] - here) * s, dy = (here - hm.at(x, (y + 1) % h)[0]) * s, l = std::sqrt(dx * dx + dy * dy + 1);
				uint8_t v[4] = { (uint8_t)(127.5 - 127.5 * dx / l), (uint8_t)(127.5 - 127.5 * dy / l), (uint8_t)(127.5 + 127.5 / l), 255 }; put(e, x, y, v);
			}
			im->bumpmap_to_normalmap(s); string what = fmt("%s%s bumpmap_to_normalmap(%g)", show(p).c_str(), mip ? " with mipmaps" : "", s);
			content("bumpmap", im, e, im->has_mipmaps(), what, 1); usable("bumpmap", im, what);
		}
		Ref<Image> im = mk(p, mip), r = mk(p); r->convert(Image::FORMAT_RGBA8); Pic c = dump(r), e = blank(1, w, h);
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint8_t v[2] = { px(c, x, y)[1], px(c, x, y)[0] }; put(e, x, y, v); }
		im->normalmap_to_xy(); string what = fmt("%s%s normalmap_to_xy", show(p).c_str(), mip ? " with mipmaps" : "");
		content("normalmap_to_xy", im, e, im->has_mipmaps(), what); usable("normalmap_to_xy", im, what);
	}
	if (custom(f)) return;
	Pic p = mkpic(f, w, h, 23); Ref<Image> im = mk(p); im->generate_mipmaps(true); string what = show(p) + " generate_mipmaps(true)";
	if (!content("renormalize", im, p, 1, what)) return;
	if (f != 4 && f != 5 && f != 10 && f != 11) { levels_ok("renormalize", im, what); return; }
	Vector<uint8_t> d = im->get_data(); int ofs = p.b.size(); Pic q = p;
	for (int i = 1; i <= mips(w, h); i++) { // every level: the mean of the level above, its direction brought back to length one
		Pic e = half(q), g = e; memcpy(g.b.data(), d.ptr() + ofs, g.b.size()); ofs += g.b.size();
		for (int k = 0; k < e.w * e.h; k++) { double v[3], l = 0; for (int c = 0; c < 3; c++) { if (f >= 10) { float t; memcpy(&t, &e.b[k * psize(f) + 4 * c], 4); v[c] = t; } else v[c] = e.b[k * psize(f) + c] / 255.0 * 2 - 1; l += v[c] * v[c]; }
			l = std::sqrt(l); if (l == 0) continue;
			for (int c = 0; c < 3; c++) { if (f >= 10) { float t = v[c] / l; memcpy(&e.b[k * psize(f) + 4 * c], &t, 4); } else e.b[k * psize(f) + c] = (uint8_t)((v[c] / l + 1) * 127.5); } }
		if (!mc::ok(alike(g, e, 1, 1e-4), "renormalize:levels", "%s: level %d is %s, expected %s", what.c_str(), i, show(g).c_str(), show(e).c_str())) return;
		q = g;
	}
}

// ---- files ----
static string g_dir;
static void files(int f, int w, int h) {
	static const char *ext[] = { "png", "bmp", "tga", "jpg" };
	Pic p = mkpic(f, w, h, 12);
	for (int k = 0; k < 4; k++) {
		string path = fmt("%s/i%d_%d_%d.%s", g_dir.c_str(), f, w, h, ext[k]); String gp = String::utf8(path.c_str());
		Ref<Image> im = mk(p); Error e = k == 0 ? im->save_png(gp) : k == 1 ? im->save_bmp(gp) : k == 2 ? im->save_tga(gp) : im->save_jpg(gp, 100);
		string what = fmt("%s saved as %s", show(p).c_str(), ext[k]); mc::transition(); content("save:source", im, p, 0, what); usable("save", im, what);
		if (f >= 8) { mc::ok(e != OK, "save:refuse", "%s: accepted", what.c_str()); unlink(path.c_str()); continue; }
		if (!mc::ok(e == OK, "save:error", "%s: error %d", what.c_str(), e)) continue;
		if (f != 0 && f != 1 && f != 4 && f != 5) { unlink(path.c_str()); continue; }
		Pic q = m_convert(p, 5); if (k == 3 || (k == 1 && 0)) for (int i = 0; i < w * h; i++) q.b[4 * i + 3] = 255;
		for (int old = 0; old < 2; old++) { Ref<Image> l; l.instance(); if (old) l->create(3, 4, true, Image::FORMAT_RGBF); l->load_from_file(gp);
			Pic g = dump(l);
			if (k == 1) { // without alpha in every viewer; 32-bit files keep it
				bool ok = g.f == 5 && g.w == w && g.h == h; for (int i = 0; ok && i < w * h; i++) ok = !memcmp(&g.b[4 * i], &q.b[4 * i], 3) && (f == 5 ? g.b[4 * i + 3] == q.b[4 * i + 3] : true); mc::ok(ok, "load:bmp", "%s, loaded: %s", what.c_str(), show(g).c_str()); }
			else if (k == 3) mc::ok(g.f == 5 && g.w == w && g.h == h, "load:jpg", "%s, loaded: %s", what.c_str(), show(g).c_str());
			else content(fmt("load:%s", ext[k]).c_str(), l, q, 0, what + ", loaded");
			if (old) { l->load_from_file(gp, Image::FORMAT_L8); mc::ok(l->get_format() == Image::FORMAT_L8 && l->get_width() == w, "load:format", "%s, loaded as L8: %s", what.c_str(), show(dump(l)).c_str()); } }
		unlink(path.c_str());
	}
	Ref<Image> im = mk(p); string path = g_dir + "/x.hdr"; Error e = im->save_hdr(String::utf8(path.c_str())); mc::ok((e == OK) == (f >= 8), "save_hdr", "%s saved as hdr: error %d", show(p).c_str(), e); unlink(path.c_str());
}
static void broken_files() {
	Ref<Image> im = mk(mkpic(5, 4, 3, 1)); string path = g_dir + "/t.png"; String gp = String::utf8(path.c_str()); im->save_png(gp);
	vector<uint8_t> whole; { FILE *fp = fopen(path.c_str(), "rb"); if (!mc::ok(fp != nullptr, "save_png:file", "no file")) return; int c; while ((c = fgetc(fp)) != EOF) whole.push_back(c); fclose(fp); }
	for (size_t n = 0; n < whole.size(); n++) for (int flip = 0; flip < 2; flip++) { // every truncation, every damaged byte: loading fails or gives some image, and the object stays usable
		FILE *fp = fopen(path.c_str(), "wb"); vector<uint8_t> b = whole; if (flip) b[n] ^= 0x41; fwrite(b.data(), 1, flip ? b.size() : n, fp); fclose(fp);
		Pic old = mkpic(4, 2, 2, 3); Ref<Image> l = mk(old); mc::step(fmt("file of %zu bytes, %s at %zu", whole.size(), flip ? "damaged" : "cut", n)); l->load_from_file(gp); Pic g = dump(l); mc::transition();
		if (!flip && n < 33) mc::ok(same(g, old), "load:broken", "cut at %zu: %s", n, show(g).c_str());
		mc::ok(same(g, old) || (g.f == 5 && l->get_data_size() == g.w * g.h * 4), "load:broken:consistent", "%s at %zu: %s with %d bytes", flip ? "damaged" : "cut", n, show(g).c_str(), l->get_data_size()); usable("load:broken", l, "load"); }
	unlink(path.c_str()); Pic old = mkpic(4, 2, 2, 3); Ref<Image> l = mk(old); l->load_from_file(gp); content("load:missing", l, old, 0, "loading a missing file");
}
static void xpm() {
	for (int w = 1; w <= 3; w++) for (int h = 1; h <= 3; h++) for (int cpp = 1; cpp <= 2; cpp++) for (int nc = 1; nc <= 4; nc++) for (int mag = 0; mag < 2; mag++) {
		vector<string> L; L.push_back(fmt("%d %d %d %d", w, h, nc, cpp)); vector<Col> cols; auto sym = [&](int i) { return cpp == 1 ? string(1, 'a' + i) : string(1, 'x') + string(1, 'A' + i); };
		for (int i = 0; i < nc; i++) { int r = (i * 67 + 13) & 255, g = (i * 101 + 200) & 255, b = (i * 29 + 255) & 255; if (mag && i == nc - 1) { r = 255; g = 0; b = 255; } L.push_back(sym(i) + fmt(i % 2 ? " c #%02x%02x%02x" : "\tc\t#%02X%02X%02X", r, g, b)); cols.push_back(mag && i == nc - 1 ? Col{ 0, 0, 0, 0 } : Col{ r / 255., g / 255., b / 255., 1 }); }
		for (int y = 0; y < h; y++) { string s; for (int x = 0; x < w; x++) s += sym((x + 2 * y) % nc); L.push_back(s); }
		vector<const char *> P; for (auto &s : L) P.push_back(s.c_str()); P.push_back(nullptr);
		for (int how = 0; how < 2; how++) { Ref<Image> im; if (how) im = Ref<Image>(memnew(Image(P.data()))); else { im.instance(); im->create(P.data()); }
			Pic g = dump(im); mc::transition(); bool ok = g.w == w && g.h == h && g.f == (mag ? 5 : 4); string why; for (int y = 0; ok && y < h; y++) for (int x = 0; ok && x < w; x++) if (!colnear(g.at(x, y), cols[(x + 2 * y) % nc], 1e-4)) { ok = false; why = fmt("(%d,%d) is %s instead of %s", x, y, cstr(g.at(x, y)).c_str(), cstr(cols[(x + 2 * y) % nc]).c_str()); } mc::ok(ok, "xpm", "%dx%d, %d colours, %d characters: %s %s", w, h, nc, cpp, show(g).c_str(), why.c_str()); }
	}
}
// ---- histories ----
struct Op { string name; std::function<void(Ref<Image>)> run; std::function<void(Pic &, bool &)> spec; };
static vector<Op> ops(int f) {
	vector<Op> o; Pic s = mkpic(f, 2, 3, 31);
	o.push_back({ "crop(2,2)", [](Ref<Image> i) { i->crop(2, 2); }, [](Pic &p, bool &) { p = m_crop(p, 0, 0, 2, 2); } });
	o.push_back({ "crop_from_point(1,0,3,2)", [](Ref<Image> i) { i->crop_from_point(1, 0, 3, 2); }, [](Pic &p, bool &) { p = m_crop(p, 1, 0, 3, 2); } });
	o.push_back({ "flip_x", [](Ref<Image> i) { i->flip_x(); }, [](Pic &p, bool &) { p = m_flip(p, 1, 0); } });
	o.push_back({ "flip_y", [](Ref<Image> i) { i->flip_y(); }, [](Pic &p, bool &) { p = m_flip(p, 0, 1); } });
	o.push_back({ "resize(3,1)", [](Ref<Image> i) { i->resize(3, 1, Image::INTERPOLATE_NEAREST); }, [](Pic &p, bool &) { p = m_near(p, 3, 1); } });
	o.push_back({ "resize(4,3)", [](Ref<Image> i) { i->resize(4, 3, Image::INTERPOLATE_NEAREST); }, [](Pic &p, bool &) { p = m_near(p, 4, 3); } });
	o.push_back({ "blit", [s](Ref<Image> i) { i->blit_rect(mk(s), Rect2(0, 1, 2, 2), Vector2(1, -1)); if (i->has_mipmaps()) i->generate_mipmaps(); }, [s](Pic &p, bool &) { if (p.f != s.f) return; m_blit(p, s, { 0, 1, 2, 2 }, 1, -1, [&](uint8_t *d, const uint8_t *q, int, int, int, int) { memcpy(d, q, psize(s.f)); }); } });
	o.push_back({ "self blit", [](Ref<Image> i) { Ref<Image> c = i->duplicate(); i->blit_rect(c, Rect2(0, 0, 2, 1), Vector2(0, 1)); if (i->has_mipmaps()) i->generate_mipmaps(); }, [](Pic &p, bool &) { Pic q = p; m_blit(p, q, { 0, 0, 2, 1 }, 0, 1, [&](uint8_t *d, const uint8_t *s, int, int, int, int) { memcpy(d, s, psize(q.f)); }); } });
	if (f < 6) for (int t : { 0, 1, 4, 5 }) o.push_back({ fmt("convert(%s)", fname(t)), [t](Ref<Image> i) { i->convert((Image::Format)t); }, [t](Pic &p, bool &) { if (p.f != t) p = m_convert(p, t); } });
	if (!custom(f)) { o.push_back({ "generate_mipmaps", [](Ref<Image> i) { i->generate_mipmaps(); }, [](Pic &, bool &m) { m = true; } }); o.push_back({ "clear_mipmaps", [](Ref<Image> i) { i->clear_mipmaps(); }, [](Pic &, bool &m) { m = false; } });
		o.push_back({ "shrink_x2", [](Ref<Image> i) { i->shrink_x2(); }, [](Pic &p, bool &m) { if (m ? p.w * p.h > 1 : p.w > 1 && p.h > 1) p = half(p); } }); }
	return o;
}
static void run(const vector<Op> &o, int depth, const Ref<Image> &im, const Pic &p, bool m, const string &h) {
	if (!depth) return;
	for (auto &x : o) { Ref<Image> d = im->duplicate(); Pic q = p; bool n = m; x.run(d); x.spec(q, n); string what = h + "; " + x.name; mc::state(what);
		if (!content("history", d, q, n, what)) continue;
		run(o, depth - 1, d, q, n, what); }
	content("history:original", im, p, m, h + " (its duplicate was changed)");
}

void explore() {
	bool th = mc::thorough(); int M = th ? 4 : 3; char tmp[] = "/dev/shm/mcimgXXXXXX"; if (!mkdtemp(tmp)) abort(); g_dir = tmp;
	MC_CASE("every level of every channel survives reading and writing back") { identity_levels(); all_levels_srgb(); }
	MC_CASE("xpm") xpm();
	MC_CASE("damaged files") broken_files();
	for (int f = 0; f < NF; f++) {
		for (int w = 1; w <= M; w++) for (int h = 1; h <= M; h++) {
			MC_CASE("%s %dx%d: single pixels", fname(f), w, h) pixels(f, w, h);
			MC_CASE("%s %dx%d: conversions", fname(f), w, h) conversions(f, w, h);
			MC_CASE("%s %dx%d: crop, flip, rectangles, mipmaps, refusals", fname(f), w, h) geometry(f, w, h);
			MC_CASE("%s %dx%d: resize", fname(f), w, h) scaling(f, w, h, th);
			MC_CASE("%s %dx%d: fill", fname(f), w, h) fills(f, w, h);
			MC_CASE("%s %dx%d: transparency and channels", fname(f), w, h) analysis(f, w, h);
			MC_CASE("%s %dx%d: normal maps", fname(f), w, h) normals(f, w, h);
			MC_CASE("%s %dx%d: files", fname(f), w, h) files(f, w, h);
		}
		bool full = th || f == 0 || f == 4 || f == 5 || f == 6 || f == 11;
		for (auto &d : full ? vector<R4>{ { 1, 1, 1, 1 }, { 2, 2, 1, 3 }, { 3, 2, 2, 1 }, { 2, 3, 3, 2 } } : vector<R4>{ { 1, 1, 1, 1 }, { 2, 2, 1, 3 } }) MC_CASE("%s %dx%d: blit and blend of %dx%d", fname(f), d[0], d[1], d[2], d[3]) blits(f, d[0], d[1], d[2], d[3], th);
		for (auto &d : vector<std::array<int, 2>>{ { 5, 3 }, { 8, 8 }, { 7, 1 }, { 1, 6 } }) { MC_CASE("%s %dx%d: larger, resize", fname(f), d[0], d[1]) scaling(f, d[0], d[1], th); MC_CASE("%s %dx%d: larger, conversions, files, fill", fname(f), d[0], d[1]) { conversions(f, d[0], d[1]); files(f, d[0], d[1]); fills(f, d[0], d[1]); } }
		vector<Op> o = ops(f); Pic p = mkpic(f, 3, 3, 41);
		for (auto &x : o) MC_CASE("%s history %s; every continuation", fname(f), x.name.c_str()) { Ref<Image> im = mk(p); Pic q = p; bool m = false; x.run(im); x.spec(q, m); if (content("history", im, q, m, x.name)) run(o, th ? 3 : 2, im, q, m, x.name); }
	}
	rmdir(tmp);
}
