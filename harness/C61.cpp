// MC: variant=asan
// C61: byte order and hashing. Every value of a grid (all 16-bit values) written and read byte by byte; every hash function against its published
// definition; every pair of keys: keys which compare equal hash equal and find each other in maps and sets; the remainder trick of the hash tables.
#include "mc.h"
#include <math.h>
#include <algorithm>
using mc::fmt; using mc::ok;
#define CK(c, ...) do { mc::transition(0); ok(c, __VA_ARGS__); } while (0)
typedef unsigned __int128 u128;
static std::vector<uint64_t> grid(int bits) { std::vector<uint64_t> v; for (int b = 0; b < bits; b++) for (int64_t d = -2; d <= 2; d++) { v.push_back((1ull << b) + d); v.push_back(-(1ull << b) + d); } for (uint64_t x : { 0x0102030405060708ull, 0xf1e2d3c4b5a69788ull, 0x8081828384858687ull, 0x00ff00ff00ff00ffull, 0x5555555555555555ull }) v.push_back(x); if (bits < 64) for (auto &x : v) x &= (1ull << bits) - 1; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
// ---- bytes
static void bytes() {
	struct Buf { uint8_t b[24]; Buf() { memset(b, 0xA5, sizeof b); } bool framed(int at, int n) const { for (int i = 0; i < 24; i++) if ((i < at || i >= at + n) && b[i] != 0xA5) return false; return true; } bool le(int at, int n, uint64_t v) const { for (int i = 0; i < n; i++) if (b[at + i] != (uint8_t)(v >> (8 * i))) return false; return true; } };
	for (int hi = 0; hi < 256; hi += 16) MC_CASE("16 bit values from %02x00", hi) for (int v = hi << 8; v < (hi + 16) << 8; v++) for (int at = 5; at < 7; at++) { mc::transition(); Buf b; int n = encode_uint16(v, b.b + at); CK(n == 2 && b.le(at, 2, v) && b.framed(at, 2), "encode_uint16", "%d at %d", v, at); CK(decode_uint16(b.b + at) == v, "decode_uint16", "%d at %d reads %d", v, at, decode_uint16(b.b + at)); }
	MC_CASE("32 bit values") for (uint64_t v : grid(32)) for (int at = 5; at < 9; at++) { mc::transition(); Buf b; CK(encode_uint32(v, b.b + at) == 4 && b.le(at, 4, v) && b.framed(at, 4), "encode_uint32", "%08llx at %d", (long long)v, at); CK(decode_uint32(b.b + at) == v, "decode_uint32", "%08llx at %d reads %08x", (long long)v, at, decode_uint32(b.b + at)); float f; uint32_t u = v, back; memcpy(&f, &u, 4); Buf c; CK(encode_float(f, c.b + at) == 4 && c.le(at, 4, v) && c.framed(at, 4), "encode_float", "%08llx at %d", (long long)v, at); f = decode_float(c.b + at); memcpy(&back, &f, 4); CK(back == u, "decode_float", "%08x reads %08x", u, back); }
	MC_CASE("64 bit values") for (uint64_t v : grid(64)) for (int at = 5; at < 13; at++) { mc::transition(); Buf b; CK(encode_uint64(v, b.b + at) == 8 && b.le(at, 8, v) && b.framed(at, 8), "encode_uint64", "%016llx at %d", (long long)v, at); CK(decode_uint64(b.b + at) == v, "decode_uint64", "%016llx at %d", (long long)v, at); double f; memcpy(&f, &v, 8); Buf c; CK(encode_double(f, c.b + at) == 8 && c.le(at, 8, v) && c.framed(at, 8), "encode_double", "%016llx at %d", (long long)v, at); f = decode_double(c.b + at); uint64_t back; memcpy(&back, &f, 8); CK(back == v, "decode_double", "%016llx", (long long)v); }
	MC_CASE("every byte in every place") for (int n = 0; n < 8; n++) for (int x = 0; x < 256; x++) for (int rest : { 0, 0xff, 0x80 }) { mc::transition(); uint8_t b[8]; memset(b, rest, 8); b[n] = x; uint64_t w = 0; for (int i = 7; i >= 0; i--) w = w << 8 | b[i]; CK(decode_uint64(b) == w && decode_uint32(b) == (uint32_t)w && decode_uint16(b) == (uint16_t)w, "decode", "byte %d = %02x", n, x); }
	MC_CASE("C texts") for (int n = 0; n < 20; n++) for (int fill = 1; fill < 256; fill++) { std::string s(n, (char)fill); Buf b; CK(encode_cstring(s.c_str(), nullptr) == n + 1, "encode_cstring:length", "%d characters", n); CK(encode_cstring(s.c_str(), b.b + 2) == n + 1 && memcmp(b.b + 2, s.c_str(), n + 1) == 0 && b.framed(2, n + 1), "encode_cstring", "%d characters %02x", n, fill); }
	MC_CASE("byte swaps") for (uint64_t v : grid(64)) { uint64_t r = 0; for (int i = 0; i < 8; i++) r |= (v >> (8 * i) & 255) << (56 - 8 * i); CK(BSWAP64(v) == r && BSWAP32((uint32_t)v) == (uint32_t)(r >> 32) && BSWAP16((uint16_t)v) == (uint16_t)(r >> 48), "BSWAP", "%016llx", (long long)v); }
}
// ---- hash functions
static uint32_t djb2(const uint8_t *p, size_t n, uint32_t h = 5381) { for (size_t i = 0; i < n; i++) h = h * 33 ^ p[i]; return h; }
static uint32_t rotl(uint32_t x, int r) { return x << r | x >> (32 - r); }
static uint32_t fmix(uint32_t h) { h = (h ^ h >> 16) * 0x85ebca6bu; h = (h ^ h >> 13) * 0xc2b2ae35u; return h ^ h >> 16; }
static uint32_t mround(uint32_t h, uint32_t k) { h ^= rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u; return rotl(h, 13) * 5 + 0xe6546b64u; }
static uint32_t murmur(const uint8_t *p, size_t n, uint32_t h) { size_t i = 0; for (; i + 4 <= n; i += 4) h = mround(h, p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24); uint32_t k = 0; for (size_t j = n; j > i; j--) k = k << 8 | p[j - 1]; if (n & 3) h ^= rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u; return fmix(h ^ (uint32_t)n); }
static uint32_t wang(uint64_t v) { v = ~v + (v << 18); v ^= v >> 31; v *= 21; v ^= v >> 11; v += v << 6; v ^= v >> 22; return (uint32_t)v; }
static uint64_t canon(double d) { uint64_t u; if (d == 0) d = 0.0; if (d != d) d = NAN; memcpy(&u, &d, 8); return u; }
static uint32_t canonf(float d) { uint32_t u; if (d == 0) d = 0.0f; if (d != d) d = NAN; memcpy(&u, &d, 4); return u; }
static std::vector<double> reals() { std::vector<double> v = { 0.0, -0.0, 1, -1, 0.5, 1.5, 1e-30, -1e30, 3.4e38, 1e-45, INFINITY, -INFINITY, 0.1f, 123456.789, -2, 65536, 1e15 }; for (uint64_t u : { 0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7ff8000000000001ull, 0x7ff4000000000000ull, 0xffffffffffffffffull }) { double d; memcpy(&d, &u, 8); v.push_back(d); } return v; }
static void functions() {
	for (int n = 0; n < 40; n++) MC_CASE("hashes of %d bytes", n) for (int pat = 0; pat < (mc::thorough() ? 1280 : 256); pat++) for (int off = 0; off < 2; off++) {
		mc::transition(); std::vector<uint8_t> x(n + 2, 0); for (int i = 0; i < n; i++) x[i + off] = (uint8_t)(pat < 256 ? pat : (pat * 37 + i * (pat >> 3)) * 2654435761u >> 24); std::vector<uint8_t> exact(x.begin() + off, x.begin() + off + n); const uint8_t *p = exact.data();
		CK(hash_djb2_buffer(p, n) == djb2(p, n) && hash_djb2_buffer(p, n, 77u + pat) == djb2(p, n, 77u + pat), "hash_djb2_buffer", "%d bytes, pattern %d", n, pat); for (uint32_t seed : { (uint32_t)HASH_MURMUR3_SEED, 0u, 0xffffffffu, (uint32_t)pat }) CK(hash_murmur3_buffer(p, n, seed) == murmur(p, n, seed), "hash_murmur3_buffer", "%d bytes, pattern %d, seed %x", n, pat, seed); CK(hash_murmur3_buffer(p, n) == murmur(p, n, 0x7F07C65), "hash_murmur3_buffer", "%d bytes, pattern %d", n, pat);
		std::string s((const char *)p, n); s = s.c_str(); CK(hash_djb2(s.c_str()) == djb2((const uint8_t *)s.data(), s.size()), "hash_djb2", "%d bytes, pattern %d", n, pat); CK(HashMapHasherDefault::hash(s.c_str()) == djb2((const uint8_t *)s.data(), s.size()), "hasher:C text", "%d bytes, pattern %d", n, pat); }
	MC_CASE("published values") { const char *t = "Hello, world!"; CK(hash_murmur3_buffer(t, 13, 1234) == 0xfaf6cdb3 && hash_murmur3_buffer("", 0, 1) == 0x514e28b7 && hash_murmur3_buffer("The quick brown fox jumps over the lazy dog", 43, 0x9747b28c) == 0x2fa826cd, "hash_murmur3_buffer", "published test vectors"); }
	MC_CASE("hashes of integers") for (uint64_t v : grid(64)) { mc::transition(); uint32_t w = (uint32_t)v; CK(hash_one_uint64(v) == wang(v) && HashMapHasherDefault::hash(v) == wang(v) && HashMapHasherDefault::hash((int64_t)v) == wang(v) && HashMapHasherDefault::hash((const int *)v) == wang(v), "hash_one_uint64", "%016llx", (long long)v); CK(hash_fmix32(w) == fmix(w) && HashMapHasherDefault::hash(w) == fmix(w) && HashMapHasherDefault::hash((int32_t)w) == fmix(w) && HashMapHasherDefault::hash((uint16_t)v) == fmix((uint16_t)v) && HashMapHasherDefault::hash((int16_t)v) == fmix((int16_t)v) && HashMapHasherDefault::hash((uint8_t)v) == fmix((uint8_t)v) && HashMapHasherDefault::hash((int8_t)v) == fmix((int8_t)v) && HashMapHasherDefault::hash((char16_t)v) == fmix((char16_t)v) && HashMapHasherDefault::hash((char32_t)v) == fmix((char32_t)v) && HashMapHasherDefault::hash((wchar_t)v) == fmix((uint32_t)(wchar_t)v), "hash_fmix32", "%016llx", (long long)v);
		for (uint64_t s : { 5381ull, 0ull, 0xffffffffull, 0x123456789abcdefull }) { uint32_t t = s; CK(hash_djb2_one_32(w, t) == (t * 33 ^ w) && hash_djb2_one_64(v, s) == (s * 33 ^ v) && hash_murmur3_one_32(w, t) == mround(t, w) && hash_murmur3_one_64(v, t) == mround(mround(t, w), v >> 32), "hash_one", "%016llx seed %llx", (long long)v, (long long)s); } CK(hash_djb2_one_32(w) == (5381u * 33 ^ w) && hash_djb2_one_64(v) == (5381ull * 33 ^ v) && hash_murmur3_one_32(w) == mround(0x7F07C65, w), "hash_one", "%016llx", (long long)v); for (int r = 1; r < 32; r++) CK(hash_rotl32(w, r) == rotl(w, r), "hash_rotl32", "%08x by %d", w, r);
		CK(make_uint32_t((uint8_t)v) == (uint8_t)v && make_uint32_t((uint16_t)v) == (uint16_t)v && make_uint32_t(w) == w && make_uint64_t((uint8_t)v) == (uint8_t)v && make_uint64_t(w) == w && make_uint64_t(v) == v && hash_make_uint64_t((uint16_t)v) == (uint16_t)v && hash_make_uint64_t(v) == v, "make_uint", "%016llx", (long long)v); }
	MC_CASE("hashes of reals") for (double d : reals()) { mc::transition(); float f = d; uint64_t c = canon(d); uint32_t cf = canonf(f); for (uint64_t s : { 5381ull, 0ull, 0xfedcba9876543210ull }) { uint32_t t = s; CK(hash_murmur3_one_float(f, t) == mround(t, cf) && hash_murmur3_one_real(f, t) == mround(t, cf) && hash_murmur3_one_double(d, t) == mround(mround(t, (uint32_t)c), c >> 32), "hash_murmur3_one", "%g", d); CK(hash_djb2_one_float(d, t) == t * 33 + wang(c) && hash_djb2_one_float_64(d, s) == s * 33 + c, "hash_djb2_one_float", "%g", d); } CK(HashMapHasherDefault::hash(f) == mround(0x7F07C65, cf) && HashMapHasherDefault::hash(d) == mround(mround(0x7F07C65, (uint32_t)c), c >> 32), "hasher:real", "%g", d); }
}
// ---- the remainder trick
static void primes() { for (int i = 0; i < (int)HASH_TABLE_SIZE_MAX; i++) MC_CASE("table size %d", i) {
	uint32_t d = hash_table_size_primes[i]; bool prime = d > 1; for (uint32_t k = 2; (uint64_t)k * k <= d; k++) if (d % k == 0) prime = false; CK(prime && (!i || d > hash_table_size_primes[i - 1]), "table sizes", "%u is no larger prime", d); CK(hash_table_size_primes_inv[i] == 0xffffffffffffffffull / d + 1, "inverse", "inverse of %u", d);
	std::vector<uint32_t> ns; for (uint64_t v : grid(32)) ns.push_back(v); for (uint64_t q = 0; q < 300; q++) for (int e = -1; e <= 1; e++) { ns.push_back((uint32_t)(q * d + e)); ns.push_back((uint32_t)((0xffffffffull / d - q) * d + e)); } uint32_t step = mc::thorough() ? 1009 : 65521; for (uint64_t n = 0; n <= 0xffffffffull; n += step) ns.push_back(n); for (uint32_t n : ns) { if (fastmod(n, hash_table_size_primes_inv[i], d) != n % d) { CK(false, "fastmod", "%u mod %u = %u", n, d, fastmod(n, hash_table_size_primes_inv[i], d)); break; } mc::transition(); } CK(true, "fastmod", "-"); } }
// ---- keys
template <class T> static void keys(const char *tn, const std::vector<T> &k, bool (*same)(const T &, const T &), std::string (*name)(const T &)) {
	for (size_t i = 0; i < k.size(); i++) MC_CASE("keys of type %s, #%zu", tn, i) { HashMap<T, int> m; HashSet<T> hs; OGHashMap<T, int> om; m[k[i]] = 5; hs.insert(k[i]); om.set(k[i], 5);
		for (size_t j = 0; j < k.size(); j++) { mc::transition(); bool eq = same(k[i], k[j]); mc::state(fmt("%s%zu.%zu", tn, i, j)); std::string in = fmt("%s %s and %s", tn, name(k[i]).c_str(), name(k[j]).c_str()); bool c = HashMapComparatorDefault<T>::compare(k[i], k[j]); CK(c == eq, fmt("compare:%s", tn), "%s compare %d", in.c_str(), c); if (eq) CK(HashMapHasherDefault::hash(k[i]) == HashMapHasherDefault::hash(k[j]), fmt("hash:%s", tn), "%s are equal and hash differently", in.c_str());
			CK(m.has(k[j]) == eq && hs.has(k[j]) == eq && om.has(k[j]) == eq, fmt("found:%s", tn), "%s: found %d %d %d", in.c_str(), m.has(k[j]), hs.has(k[j]), om.has(k[j])); if (eq) { m[k[j]] = 6; om.set(k[j], 6); hs.insert(k[j]); CK(m.size() == 1 && hs.size() == 1 && om.size() == 1 && m[k[i]] == 6 && om[k[i]] == 6, fmt("one entry:%s", tn), "%s: two entries for one key", in.c_str()); } } }
}
static bool sf(float a, float b) { return a == b || (a != a && b != b); }
template <class T> static bool plain(const T &a, const T &b) { return a == b; }
template <class T> static std::string bits(const T &v) { std::string s; const uint8_t *p = (const uint8_t *)&v; for (size_t i = 0; i < sizeof(T); i++) s += fmt("%02x", p[i]); return s; }
static std::string text(const String &s) { return std::string(s.utf8().get_data()); }
static void all_keys() {
	std::vector<double> r = reals(); std::vector<float> f; for (double d : r) f.push_back(d); f.push_back(nextafterf(1, 2)); f.push_back(0.99999994f); std::vector<float> c = { 0.0f, -0.0f, 1, nextafterf(1, 2), NAN, -NAN, 1e-7f };
	keys<float>("float", f, [](const float &a, const float &b) { return sf(a, b); }, bits<float>); keys<double>("double", r, [](const double &a, const double &b) { return a == b || (a != a && b != b); }, bits<double>);
	std::vector<Vector2> v2; std::vector<Vector3> v3; for (float x : c) for (float y : c) { v2.push_back(Vector2(x, y)); for (float z : c) if (mc::thorough() || z == x || z == y || z != z) v3.push_back(Vector3(x, y, z)); }
	keys<Vector2>("Vector2", v2, [](const Vector2 &a, const Vector2 &b) { return sf(a.x, b.x) && sf(a.y, b.y); }, bits<Vector2>); keys<Vector3>("Vector3", v3, [](const Vector3 &a, const Vector3 &b) { return sf(a.x, b.x) && sf(a.y, b.y) && sf(a.z, b.z); }, bits<Vector3>);
	std::vector<float> g = { 0.0f, -0.0f, 1, nextafterf(1, 2), 1e-7f }; std::vector<Vector4> v4; std::vector<Rect2> r2; std::vector<AABB> bb; for (float x : g) for (float y : g) for (float z : { 0.0f, -0.0f, 2.0f }) for (float w : { 0.0f, -0.0f, 2.0f, 2.0000002f }) { v4.push_back(Vector4(x, y, z, w)); r2.push_back(Rect2(x, y, z, w)); bb.push_back(AABB(Vector3(x, y, 0), Vector3(z, w, x))); }
	keys<Vector4>("Vector4", v4, [](const Vector4 &a, const Vector4 &b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }, bits<Vector4>); keys<Rect2>("Rect2", r2, [](const Rect2 &a, const Rect2 &b) { return a.position.x == b.position.x && a.position.y == b.position.y && a.size.x == b.size.x && a.size.y == b.size.y; }, bits<Rect2>);
	keys<AABB>("AABB", bb, [](const AABB &a, const AABB &b) { for (int i = 0; i < 3; i++) if (a.position[i] != b.position[i] || a.size[i] != b.size[i]) return false; return true; }, bits<AABB>);
	std::vector<int> is = { 0, 1, -1, 2, 65536, INT32_MAX, INT32_MIN }; std::vector<Vector2i> i2; std::vector<Vector3i> i3; std::vector<Vector4i> i4; std::vector<Rect2i> ir; for (int x : is) for (int y : is) { i2.push_back(Vector2i(x, y)); for (int z : { 0, 1, -1 }) { i3.push_back(Vector3i(x, y, z)); for (int w : { 0, 1 }) { i4.push_back(Vector4i(x, y, z, w)); ir.push_back(Rect2i(x, y, z, w)); } } }
	keys<Vector2i>("Vector2i", i2, [](const Vector2i &a, const Vector2i &b) { return a.x == b.x && a.y == b.y; }, bits<Vector2i>); keys<Vector3i>("Vector3i", i3, [](const Vector3i &a, const Vector3i &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }, bits<Vector3i>); keys<Vector4i>("Vector4i", i4, [](const Vector4i &a, const Vector4i &b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }, bits<Vector4i>); keys<Rect2i>("Rect2i", ir, [](const Rect2i &a, const Rect2i &b) { return a.position.x == b.position.x && a.position.y == b.position.y && a.size.x == b.size.x && a.size.y == b.size.y; }, bits<Rect2i>);
	std::vector<uint64_t> u; for (uint64_t v : grid(64)) if (v % 7 < 3) u.push_back(v); keys<uint64_t>("uint64_t", u, plain<uint64_t>, bits<uint64_t>); std::vector<int> i32; for (uint64_t v : grid(32)) i32.push_back((int)v); keys<int>("int", i32, plain<int>, bits<int>);
	std::vector<String> s; std::vector<StringName> sn; std::vector<std::string> t; for (int n = 0; n < 4; n++) for (int m = 0; m < (n == 0 ? 1 : n == 1 ? 3 : n == 2 ? 9 : 27); m++) { std::string x; int q = m; for (int i = 0; i < n; i++) { x += "aA1"[q % 3]; q /= 3; } t.push_back(x); } for (auto &x : t) { s.push_back(String(x.c_str())); s.push_back(String(x.c_str()) + ""); sn.push_back(StringName(x.c_str())); sn.push_back(StringName(String(x.c_str()))); }
	keys<String>("String", s, [](const String &a, const String &b) { return text(a) == text(b); }, [](const String &x) { return "\"" + text(x) + "\""; }); keys<StringName>("StringName", sn, [](const StringName &a, const StringName &b) { return text(String(a)) == text(String(b)); }, [](const StringName &x) { return "\"" + text(String(x)) + "\""; });
	MC_CASE("distinct hashes of pointers and references") { int a[64]; for (int i = 0; i < 64; i++) CK(HashMapHasherDefault::hash(&a[i]) == wang((uint64_t)&a[i]), "hasher:pointer", "pointer %d", i); Ref<Resource> q; CK(HashMapHasherDefault::hash(q) == wang(0), "hasher:Ref", "empty reference"); q.instance(); Ref<Resource> z = q; CK(HashMapHasherDefault::hash(q) == HashMapHasherDefault::hash(z) && HashMapHasherDefault::hash(q) == wang((uint64_t)q.ptr()), "hasher:Ref", "shared reference"); }
}
void explore() { static bool once; if (!once) { once = true; SFWCore::setup(); } bytes(); functions(); primes(); all_keys(); }
