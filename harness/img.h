// Images: a plain model of their content, shared by the image harnesses.
#ifndef IMG_H
#define IMG_H
#include "mc.h"
#include "image.h"
#include <array>
using std::string; using std::vector; using mc::fmt;
typedef std::array<double, 4> Col;
static const int NF = 12;
static int psize(int f) { static const int t[NF] = { 1, 2, 1, 2, 3, 4, 2, 2, 4, 8, 12, 16 }; return t[f]; }
static const char *fname(int f) { static const char *t[NF] = { "L8", "LA8", "R8", "RG8", "RGB8", "RGBA8", "RGBA4444", "RGBA5551", "RF", "RGF", "RGBF", "RGBAF" }; return t[f]; }

struct Pic { // the content of an image: format, size and bytes of the top level
	int f = 0, w = 0, h = 0;
	vector<uint8_t> b;
	Col at(int x, int y) const {
		const uint8_t *p = &b[(size_t)(y * w + x) * psize(f)];
		const float *q = (const float *)p;
		auto u = [&](int i) { return p[i] / 255.0; };
		uint16_t s = 0; if (f == 6 || f == 7) memcpy(&s, p, 2);
		switch (f) {
			case 0: return { u(0), u(0), u(0), 1 };
			case 1: return { u(0), u(0), u(0), u(1) };
			case 2: return { u(0), 0, 0, 1 };
			case 3: return { u(0), u(1), 0, 1 };
			case 4: return { u(0), u(1), u(2), 1 };
			case 5: return { u(0), u(1), u(2), u(3) };
			case 6: return { (s >> 12 & 15) / 15.0, (s >> 8 & 15) / 15.0, (s >> 4 & 15) / 15.0, (s & 15) / 15.0 };
			case 7: return { (s >> 11 & 31) / 31.0, (s >> 6 & 31) / 31.0, (s >> 1 & 31) / 31.0, (double)(s & 1) };
			case 8: return { q[0], 0, 0, 1 };
			case 9: return { q[0], q[1], 0, 1 };
			case 10: return { q[0], q[1], q[2], 1 };
			default: return { q[0], q[1], q[2], q[3] };
		}
	}
	string s() const { return fmt("%s %dx%d", fname(f), w, h); }
};
static Pic mkpic(int f, int w, int h, int seed) {
	Pic p; p.f = f; p.w = w; p.h = h;
	int n = w * h * psize(f);
	p.b.resize(n);
	uint32_t s = seed * 2654435761u + 12345;
	if (f >= 8) { for (int i = 0; i < n / 4; i++) { s = s * 1664525u + 1013904223u; float v = (int)(s >> 20 & 1023) / 512.0f - 0.75f; memcpy(&p.b[4 * i], &v, 4); } }
	else for (int i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; p.b[i] = s >> 24; }
	return p;
}
static Ref<Image> mk(const Pic &p, bool mip = false) {
	Ref<Image> im; im.instance();
	if (p.w == 0) return im;
	Vector<uint8_t> d; d.resize(p.b.size()); memcpy(d.ptrw(), p.b.data(), p.b.size());
	im->create(p.w, p.h, false, (Image::Format)p.f, d);
	if (mip) im->generate_mipmaps();
	return im;
}
static Pic dump(const Ref<Image> &im) {
	Pic p; p.f = im->get_format(); p.w = im->get_width(); p.h = im->get_height();
	Vector<uint8_t> d = im->get_data();
	int n = p.w * p.h * psize(p.f);
	p.b.resize(n);
	if (d.size() >= n && n) memcpy(p.b.data(), d.ptr(), n); else if (n) p.f = -1;
	return p;
}
static bool same(const Pic &a, const Pic &b) { return a.f == b.f && a.w == b.w && a.h == b.h && a.b == b.b; }
static bool unlocked(const Ref<Image> &im) { Ref<Image> d = im; d->create(1, 2, false, Image::FORMAT_L8); return d->get_width() == 1 && d->get_height() == 2; }

// What a pixel of format f shows after colour c was stored there.  tol: half a level of the format, exact when representable.
static bool shows(int f, const Col &got, const Col &c, string *why, bool exact = true) {
	double v = std::fmax(c[0], std::fmax(c[1], c[2]));
	Col e; double q[4] = { 255, 255, 255, 255 };
	switch (f) {
		case 0: e = { v, v, v, 1 }; break;
		case 1: e = { v, v, v, c[3] }; break;
		case 2: case 8: e = { c[0], 0, 0, 1 }; break;
		case 3: case 9: e = { c[0], c[1], 0, 1 }; break;
		case 4: case 10: e = { c[0], c[1], c[2], 1 }; break;
		default: e = c;
	}
	if (f == 6) for (double &t : q) t = 15;
	if (f == 7) { q[0] = q[1] = q[2] = 31; q[3] = 1; }
	for (int i = 0; i < 4; i++) {
		double x = e[i], g = got[i];
		bool ok;
		if (f >= 8) ok = mc::close(x, g, 1e-6, 1e-7);
		else {
			double l = std::fmin(std::fmax(x, 0), 1) * q[i], gl = g * q[i];
			if (exact && std::fabs(l - std::round(l)) < 1e-3) ok = std::fabs(gl - std::round(l)) < 1e-3; // representable: exact
			else ok = std::fabs(gl - l) < (exact ? 1 : 1.001); // otherwise one of the two neighbouring levels
			if (f == 7 && i == 3 && !ok) ok = std::fabs(gl - (x > 0.5)) < 1e-3;
		}
		if (!ok) { *why = fmt("channel %d: %g instead of %g", i, g, x); return false; }
	}
	return true;
}

#endif
