// MC: variant=asan
// C42: files. Every history of byte operations against a byte vector with a cursor, every short text / record list / typed value sequence round trip, every crash point of a backed-up save.
#include "mc.h"
#include <sys/stat.h>
#include <sys/resource.h>
typedef FileAccess FA; typedef std::string Str; typedef std::vector<int> I;
static Str hex(const Str &s) { Str r; for (unsigned char c : s) r += mc::fmt("%02x ", c); return r; }
static bool raw(const char *p, Str &o) { o.clear(); int fd = ::open(p, O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); ::close(fd); return true; }
static void put(const char *p, const Str &s) { int fd = ::open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, s.data(), s.size()) < 0) abort(); ::close(fd); }
static Str u8(const String &s) { CharString c = s.utf8(); return c.get_data() ? Str(c.get_data(), c.length()) : Str(); }
static String S_(const Str &s) { String r; r.parse_utf8(s.data(), s.size()); return r; }
static bool there(const char *p) { struct stat st; return stat(p, &st) == 0; }
// ---- byte histories
enum { ST8, STB, ST16, GT8, GTB, GT16, SK0, SK1, SKF, SE0, SEM, LEN, FLU, RO_SAME, RO_READ, RO_RW, N_OP };
static const char *ON[] = { "store_8", "store_buffer(3)", "store_16", "get_8", "get_buffer(2)", "get_16", "seek(0)", "seek(1)", "seek(len+2)", "seek_end()", "seek_end(-1)", "get_len", "flush", "close, open again", "reopen READ", "reopen READ_WRITE" };
struct Model { Str d; size_t pos = 0; int eof = 0; int mode; // eof: 2 = not claimed
	bool rd() const { return mode & 1; } bool wr() const { return mode & 2; }
	void open(int m) { mode = m; pos = 0; eof = 0; if (m == FA::WRITE || m == FA::WRITE_READ) d.clear(); }
	void store(const Str &s) { if (!wr()) return; if (d.size() < pos + s.size()) d.resize(pos + s.size(), 0); d.replace(pos, s.size(), s); pos += s.size(); if (eof) eof = 2; }
	Str get(size_t n) { Str r; if (!rd()) return r; if (pos < d.size()) r = d.substr(pos, n); if (r.size() < n) eof = 1; pos += r.size(); return r; } };
static void history(int mode, int len0, const I &h) {
	Str in = mc::fmt("file of %d bytes, mode %d:", len0, mode); for (int o : h) in += Str(" ") + ON[o] + ";"; mc::state(in);
	Str init; for (int i = 0; i < len0; i++) init += char(0xf0 + i); put("f", init); Model m; m.d = init; FA *f = FA::create(); bool good = f->open("f", mode) == OK; m.open(mode); mc::ok(good && f->is_open(), "open", "%s open failed", in.c_str()); int tick = 1; bool fine = good;
	for (size_t i = 0; i < h.size() && fine; i++) {
		int o = h[i]; mc::transition(); Str want, got; bool noread = false;
		switch (o) {
			case ST8: f->store_8(tick); m.store(Str(1, tick)); break;
			case STB: { uint8_t b[3] = { uint8_t(tick), uint8_t(tick + 64), 0 }; f->store_buffer(b, 3); m.store(Str((char *)b, 3)); break; }
			case ST16: f->store_16(0x8100 + tick); m.store(Str(1, tick) + Str(1, 0x81)); break;
			case GT8: { got = Str(1, f->get_8()); want = m.get(1); want.resize(1, 0); break; }
			case GTB: { uint8_t b[2] = { 7, 7 }; uint64_t n = f->get_buffer(b, 2); want = m.get(2); got = Str((char *)b, n <= 2 ? n : 2); noread = n > 2; break; }
			case GT16: { uint16_t v = f->get_16(); got = Str(1, v & 255) + Str(1, v >> 8); want = m.get(2); want.resize(2, 0); break; }
			case SK0: f->seek(0); m.pos = 0; m.eof = 0; break; case SK1: f->seek(1); m.pos = 1; m.eof = 0; break; case SKF: f->seek(m.d.size() + 2); m.pos = m.d.size() + 2; m.eof = 0; break;
			case SE0: f->seek_end(); m.pos = m.d.size(); m.eof = 0; break; case SEM: f->seek_end(-1); if (m.d.size()) m.pos = m.d.size() - 1, m.eof = 0; else m.eof = 2; break;
			case LEN: { uint64_t n = f->get_len(); fine = mc::ok(n == m.d.size(), "get_len", "%s step %zu: length %llu, expected %zu", in.c_str(), i, (unsigned long long)n, m.d.size()); break; }
			case FLU: { f->flush(); Str disk; raw("f", disk); fine = mc::ok(disk == m.d, "flush", "%s step %zu: on disk %s, expected %s", in.c_str(), i, hex(disk).c_str(), hex(m.d).c_str()); break; }
			case RO_SAME: { f->close(); fine = mc::ok(!f->is_open(), "close", "%s: open after close", in.c_str()); Str disk; raw("f", disk); fine = fine && mc::ok(disk == m.d, "close", "%s step %zu: on disk %s, expected %s", in.c_str(), i, hex(disk).c_str(), hex(m.d).c_str()); f->open("f", m.mode); m.open(m.mode); break; }
			case RO_READ: f->reopen("f", FA::READ); m.open(FA::READ); break; case RO_RW: f->reopen("f", FA::READ_WRITE); m.open(FA::READ_WRITE); break;
		}
		tick = tick % 50 + 1;
		fine = fine && mc::ok(!noread && got == want, Str("read:") + ON[o], "%s step %zu read %s, expected %s", in.c_str(), i, hex(got).c_str(), hex(want).c_str()) && mc::ok(f->get_position() == m.pos, Str("position:") + ON[o], "%s step %zu: position %llu, expected %zu", in.c_str(), i, (unsigned long long)f->get_position(), m.pos) && mc::ok(m.eof == 2 || f->eof_reached() == (m.eof == 1), Str("eof:") + ON[o], "%s step %zu: end of file %d, expected %d", in.c_str(), i, (int)f->eof_reached(), m.eof);
	}
	uint64_t n = f->get_len(); if (fine) mc::ok(n == m.d.size(), "get_len", "%s: length %llu at the end, expected %zu", in.c_str(), (unsigned long long)n, m.d.size());
	f->close(); memdelete(f); Str disk; raw("f", disk); if (fine) mc::ok(disk == m.d, "bytes", "%s: on disk %s, expected %s", in.c_str(), hex(disk).c_str(), hex(m.d).c_str()); mc::outcome(hex(disk));
}
static void histories(int mode, int len0, int depth, const I &ops, I h) { history(mode, len0, h); if ((int)h.size() == depth) return; for (int o : ops) { I g = h; g.push_back(o); histories(mode, len0, depth, ops, g); } }
// ---- typed values
struct Item { int t; uint64_t v; Str s; };
static const char *TN[] = { "8", "16", "32", "64", "float", "double", "real", "pascal_string", "buffer", "string" };
static Str bytes(uint64_t v, int n, bool big) { Str r; for (int i = 0; i < n; i++) r += char(v >> 8 * (big ? n - 1 - i : i)); return r; }
static void typed(const std::vector<Item> &its, int swap) {
	Str in = mc::fmt("%s-endian:", swap ? "big" : "little"), want; for (auto &t : its) in += mc::fmt(" %s %llx %s;", TN[t.t], (unsigned long long)t.v, hex(t.s).c_str()); mc::state(in);
	FA *f = FA::create_and_open("t", FA::WRITE_READ); f->set_endian_swap(swap); std::vector<uint64_t> at;
	for (auto &t : its) { mc::transition(); at.push_back(want.size()); uint32_t lo = t.v; float fl; memcpy(&fl, &lo, 4); double db; memcpy(&db, &t.v, 8);
		switch (t.t) { case 0: f->store_8(t.v); want += bytes(t.v, 1, 0); break; case 1: f->store_16(t.v); want += bytes(t.v, 2, swap); break; case 2: f->store_32(t.v); want += bytes(t.v, 4, swap); break; case 3: f->store_64(t.v); want += bytes(t.v, 8, swap); break; case 4: f->store_float(fl); want += bytes(lo, 4, swap); break; case 5: f->store_double(db); want += bytes(t.v, 8, swap); break; case 6: f->store_real(fl); want += bytes(lo, 4, swap); break; case 7: f->store_pascal_string(S_(t.s)); want += bytes(t.s.size(), 4, swap) + t.s; break; case 8: { Vector<uint8_t> b; for (char c : t.s) b.push_back(c); f->store_buffer_vec(b); want += t.s; break; } default: f->store_string(S_(t.s)); want += t.s; }
		mc::ok(f->get_position() == want.size(), Str("store:") + TN[t.t], "%s: position %llu after storing, expected %zu", in.c_str(), (unsigned long long)f->get_position(), want.size()); }
	f->flush(); Str disk; raw("t", disk); mc::ok(disk == want, Str("encoding:") + TN[its.back().t], "%s stored as %s, expected %s", in.c_str(), hex(disk).c_str(), hex(want).c_str());
	if (disk == want) for (int pass = 0; pass < 2; pass++) { f->seek(0); for (size_t q = 0; q < its.size(); q++) { size_t i = pass ? its.size() - 1 - q : q; auto &t = its[i]; if (pass) f->seek(at[i]); uint64_t v = 0; Str s; uint32_t lo; mc::transition();
		switch (t.t) { case 0: v = f->get_8(); break; case 1: v = f->get_16(); break; case 2: v = f->get_32(); break; case 3: v = f->get_64(); break; case 4: case 6: { float x = t.t == 4 ? f->get_float() : f->get_real(); memcpy(&lo, &x, 4); v = lo; break; } case 5: { double x = f->get_double(); memcpy(&v, &x, 8); break; } case 7: s = u8(f->get_pascal_string()); v = t.v; break; default: { Vector<uint8_t> b; b.resize(t.s.size()); f->get_buffer(b.ptrw(), t.s.size()); s = Str((const char *)b.ptr(), t.s.size()); v = t.v; } }
		mc::ok(v == t.v && s == t.s && !f->eof_reached(), Str("round-trip:") + TN[t.t], "%s: item %zu read back as %llx %s", in.c_str(), i, (unsigned long long)v, hex(s).c_str()); } }
	memdelete(f);
	if (its.size() == 1 && its[0].t == 7) for (size_t cut = 0; cut < want.size(); cut++) { put("t", want.substr(0, cut)); f = FA::create_and_open("t", FA::READ); f->set_endian_swap(swap); String g = f->get_pascal_string(); Str s = u8(g); mc::ok(s.size() <= its[0].s.size() && its[0].s.compare(0, s.size(), s) == 0, "pascal_string:truncated", "%s cut to %zu bytes reads %s", in.c_str(), cut, hex(s).c_str()); memdelete(f); }
}
// ---- text
static void text(const Str &t) {
	mc::state(t); put("x", t); Str in = "text " + hex(t); bool ends = false;
	std::vector<Str> lines(1), tok; Str cur; for (char c : t) { if (c == '\n') lines.push_back(""); else if (c != '\r') lines.back() += c; } for (unsigned char c : t) { if (c <= ' ') { if (cur.size()) tok.push_back(cur); cur.clear(); } else cur += c; } if (cur.size()) tok.push_back(cur);
	FA *f = FA::create_and_open("x", FA::READ); mc::transition();
	for (size_t i = 0; i < lines.size(); i++) { Str g = u8(f->get_line()); if (!mc::ok(g == lines[i], "get_line", "%s: line %zu is %s, expected %s", in.c_str(), i, hex(g).c_str(), hex(lines[i]).c_str())) break; ends = f->eof_reached(); if (!mc::ok(ends == (i + 1 == lines.size()), "get_line:eof", "%s: end of file %d after line %zu of %zu", in.c_str(), (int)ends, i, lines.size())) break; }
	f->seek(0); for (size_t i = 0; i < tok.size(); i++) { Str g = u8(f->get_token()); if (!mc::ok(g == tok[i], "get_token", "%s: token %zu is %s, expected %s", in.c_str(), i, hex(g).c_str(), hex(tok[i]).c_str())) break; } if (!f->eof_reached()) { Str g = u8(f->get_token()); mc::ok(g.empty() && f->eof_reached(), "get_token:end", "%s: extra token %s", in.c_str(), hex(g).c_str()); }
	Str nocr; for (char c : t) if (c != '\r') nocr += c;
	f->seek(0); Str a = u8(f->get_as_utf8_string(true)), b; f->seek(0); b = u8(f->get_as_utf8_string(false)); memdelete(f);
	mc::ok(a == nocr, "get_as_utf8_string:skip_cr", "%s read as %s", in.c_str(), hex(a).c_str()); mc::ok(b == t, "get_as_utf8_string", "%s read as %s", in.c_str(), hex(b).c_str());
	Error e = FAILED; Str c = u8(FA::get_file_as_string("x", &e)); mc::ok(c == t && e == OK, "get_file_as_string", "%s read as %s", in.c_str(), hex(c).c_str());
	e = FAILED; Vector<uint8_t> v = FA::get_file_as_array("x", &e); mc::ok(Str((const char *)v.ptr(), v.size()) == t && e == OK, "get_file_as_array", "%s read as %d bytes", in.c_str(), v.size());
	put("y", "stale content that is longer"); FA::write_file("y", S_(t), &e); Str d; raw("y", d); mc::ok(d == t && e == OK, "write_file", "%s written as %s", in.c_str(), hex(d).c_str());
	put("y", "stale content that is longer"); FA::write_file_buffer("y", v, &e); raw("y", d); mc::ok(d == t && e == OK, "write_file_buffer", "%s written as %s", in.c_str(), hex(d).c_str());
}
// ---- lines and delimited records
static void written_lines(const std::vector<Str> &l) { Str in = "lines", want; for (auto &s : l) in += " [" + hex(s) + "]", want += s + "\n"; mc::state(in); mc::transition(); FA *f = FA::create_and_open("l", FA::WRITE_READ); for (auto &s : l) f->store_line(S_(s)); f->flush(); Str d; raw("l", d); mc::ok(d == want, "store_line", "%s stored as %s", in.c_str(), hex(d).c_str()); f->seek(0); for (auto &s : l) { Str g = u8(f->get_line()); mc::ok(g == s && !f->eof_reached(), "store_line:round-trip", "%s read back as %s", in.c_str(), hex(g).c_str()); } memdelete(f); }
static void csv(const std::vector<std::vector<Str>> &rec, char del) {
	Str in = mc::fmt("records (delimiter %02x)", del); for (auto &r : rec) { in += " {"; for (auto &s : r) in += "[" + hex(s) + "]"; in += "}"; } mc::state(in); mc::transition(); String D = String::chr(del);
	FA *f = FA::create_and_open("c", FA::WRITE_READ); for (auto &r : rec) { Vector<String> v; for (auto &s : r) v.push_back(S_(s)); f->store_csv_line(v, D); } f->seek(0);
	for (size_t i = 0; i < rec.size(); i++) { Vector<String> v = f->get_csv_line(D); bool ok = v.size() == (int)rec[i].size(); Str g; for (int j = 0; j < v.size(); j++) { g += "[" + hex(u8(v[j])) + "]"; ok = ok && u8(v[j]) == rec[i][j]; } if (!mc::ok(ok && !f->eof_reached(), "csv", "%s: record %zu read back as %s", in.c_str(), i, g.c_str())) break; } memdelete(f);
}
static void csv_text(const Str &t, char del) { // reading alone, against the grammar: quoted fields may hold delimiters, line breaks and doubled quotes
	put("c", t); mc::state(t); mc::transition(); size_t p = 0; std::vector<std::vector<Str>> recs; bool eof = false;
	while (!eof) { Str line; int q = 0; do { if (eof) break; Str part; while (p < t.size() && t[p] != '\n') { if (t[p] != '\r') part += t[p]; p++; } if (p < t.size()) p++; else eof = true; line += part + "\n"; q = 0; for (char c : line) q += c == '"'; } while (q % 2); line.resize(line.size() - 1);
		std::vector<Str> r(1); bool in = false; for (size_t i = 0; i < line.size(); i++) { if (!in && line[i] == del) r.push_back(""); else if (line[i] == '"') { if (in && i + 1 < line.size() && line[i + 1] == '"') r.back() += '"', i++; else in = !in; } else r.back() += line[i]; } recs.push_back(r); }
	FA *f = FA::create_and_open("c", FA::READ); for (auto &r : recs) { Vector<String> v = f->get_csv_line(String::chr(del)); bool ok = v.size() == (int)r.size(); Str g; for (int j = 0; j < v.size(); j++) { g += "[" + hex(u8(v[j])) + "]"; ok = ok && u8(v[j]) == r[j]; } if (!mc::ok(ok, "get_csv_line", "text %s: a record read as %s", hex(t).c_str(), g.c_str())) break; } mc::ok(f->eof_reached(), "get_csv_line:eof", "text %s: no end of file after %zu records", hex(t).c_str(), recs.size()); memdelete(f);
}
// ---- one object over several files, failures to open
static int g_closed; static void on_close(const String &, int) { g_closed++; }
static void handles(const I &h, bool backup) { // op: 0-1 open file a/b for WRITE, 2-3 READ, 4 open a missing file, 5 open a directory, 6 store a byte, 7 read a byte, 8 close, 9 destroy and create again
	static const char *hn[] = { "open a WRITE", "open b WRITE", "open a READ", "open b READ", "open missing", "open directory", "store", "get", "close", "delete" };
	Str in = backup ? "backup saves:" : "plain:"; for (int o : h) in += Str(" ") + hn[o] + ";"; mc::state(in); FA::set_backup_save(backup); Str file[2] = { "A", "B" }; put("a", "A"); put("b", "B"); unlink("a.tmp"); unlink("b.tmp");
	FA *f = FA::create(); int cur = -1, mode = 0; size_t pos = 0; Str pend; auto finish = [&] { if (cur >= 0 && mode == FA::WRITE) file[cur] = pend; cur = -1; mode = 0; }; int tick = 0; bool fine = true;
	for (size_t i = 0; i < h.size() && fine; i++) { int o = h[i]; mc::transition(); tick++;
		if (o <= 3) { finish(); Error e = f->open(o & 1 ? "b" : "a", o < 2 ? FA::WRITE : FA::READ); fine = mc::ok(e == OK && f->is_open() && f->get_error() == OK && u8(f->get_path()) == (o & 1 ? "b" : "a"), "handle:open", "%s step %zu: open gives %d", in.c_str(), i, (int)e); cur = o & 1; mode = o < 2 ? FA::WRITE : FA::READ; pos = 0; pend.clear(); }
		else if (o <= 5) { finish(); Error e = f->open(o == 4 ? "missing" : "dir", FA::READ); fine = mc::ok(e != OK && !f->is_open() && (o == 5 || e == ERR_FILE_NOT_FOUND), "handle:open-failure", "%s step %zu: open gives %d, is_open %d", in.c_str(), i, (int)e, (int)f->is_open()); }
		else if (o == 6) { f->store_8('p' + tick % 8); if (cur >= 0 && mode == FA::WRITE) pend += char('p' + tick % 8); }
		else if (o == 7) { uint8_t g = f->get_8(); uint8_t w = 0; if (cur >= 0 && mode == FA::READ && pos < file[cur].size()) w = file[cur][pos++]; fine = mc::ok(g == w, "handle:get_8", "%s step %zu: read %02x, expected %02x", in.c_str(), i, g, w); }
		else if (o == 8) { finish(); f->close(); fine = mc::ok(!f->is_open(), "handle:close", "%s: still open", in.c_str()); }
		else { finish(); memdelete(f); f = FA::create(); }
		for (int q = 0; q < 2 && fine; q++) if (!(cur == q && mode == FA::WRITE)) { Str d; raw(q ? "b" : "a", d); fine = mc::ok(d == file[q], "handle:bytes", "%s step %zu: file %c holds %s, expected %s", in.c_str(), i, "ab"[q], hex(d).c_str(), hex(file[q]).c_str()) && mc::ok(!backup || !there(q ? "b.tmp" : "a.tmp"), "handle:leftover", "%s step %zu: temporary file of %c left behind", in.c_str(), i, "ab"[q]); } }
	memdelete(f); FA::set_backup_save(false);
}
// ---- crash points of a backed-up save: the process dies after every operation, and inside close before and after the rename
static int g_renames = 0; static std::function<void(bool)> *g_hook = nullptr;
extern "C" int renameat(int, const char *, int, const char *);
extern "C" int rename(const char *a, const char *b) noexcept { g_renames++; if (g_hook) (*g_hook)(false); int r = renameat(AT_FDCWD, a, AT_FDCWD, b); if (g_hook) (*g_hook)(true); return r; }
static void crashes(const I &h) { // 0 store byte, 1 store 5000 bytes, 2 flush, 3 seek(0)
	Str in = "save:"; for (int o : h) in += mc::fmt(" %s;", o == 0 ? "store_8" : o == 1 ? "store_buffer(5000)" : o == 2 ? "flush" : "seek(0)"); mc::state(in); Str old = "previous contents", now; size_t pos = 0;
	for (int o : h) { Str s = o == 0 ? Str("z") : o == 1 ? Str(5000, 'w') : Str(); if (o == 3) pos = 0; if (now.size() < pos + s.size()) now.resize(pos + s.size()); now.replace(pos, s.size(), s); pos += s.size(); }
	for (size_t die = 0; die <= h.size() + 3; die++) { // after die operations; then in close before rename, after rename, after close
		put("s", old); unlink("s.tmp"); fflush(nullptr); mc::transition(); pid_t p = fork();
		if (p == 0) { signal(SIGPROF, SIG_DFL); FA::set_backup_save(true); FA *f = FA::create_and_open("s", FA::WRITE); if (!f) _exit(9); for (size_t i = 0; i < h.size(); i++) { if (i == die) _exit(0); int o = h[i]; if (o == 0) f->store_8('z'); else if (o == 1) { Str b(5000, 'w'); f->store_buffer((const uint8_t *)b.data(), 5000); } else if (o == 2) f->flush(); else f->seek(0); }
			if (die == h.size()) _exit(0); std::function<void(bool)> hook = [&](bool after) { if (die == h.size() + 1 + after) _exit(0); }; g_hook = &hook; f->close(); _exit(0); }
		int st = 0; waitpid(p, &st, 0); Str d; bool ex = raw("s", d); mc::ok(WIFEXITED(st) && WEXITSTATUS(st) == 0, "backup:died", "%s: status %d", in.c_str(), st);
		bool done = die >= h.size() + 2; mc::ok(ex && d == (done ? now : old), "backup:crash", "%s dying at point %zu of %zu leaves %s (%zu bytes), expected %s", in.c_str(), die, h.size() + 3, hex(d.substr(0, 20)).c_str(), d.size(), done ? "the new contents" : "the old contents"); }
}
// ---- the disk fills up: only the first `room` bytes of any file can be written; every amount of room around the bytes and buffers written
static void fulldisk(const I &h, bool backup) {
	Str in = backup ? "backed-up save" : "save"; for (int o : h) in += mc::fmt(" %s;", o == 0 ? "store_8" : o == 1 ? "store_buffer(5000)" : o == 2 ? "flush" : "store_buffer(3)"); mc::state(in); Str old = "previous contents", now;
	for (int o : h) now += o == 0 ? Str("z") : o == 1 ? Str(5000, 'w') : o == 3 ? Str("abc") : Str();
	std::set<size_t> rooms = { 0, 1, 2, 3, 4095, 4096, 4097, 5000, 8192, 10000 }; for (size_t d = 0; d < 5; d++) { rooms.insert(now.size() + d); if (now.size() >= d) rooms.insert(now.size() - d); }
	for (size_t room : rooms) { if (room > now.size() + 1) continue;
		put("s", old); unlink("s.tmp"); fflush(nullptr); mc::transition(); pid_t p = fork();
		if (p == 0) { signal(SIGPROF, SIG_DFL); signal(SIGXFSZ, SIG_IGN); FA::set_backup_save(backup); FA *f = FA::create_and_open("s", FA::WRITE); if (!f) _exit(9); struct rlimit rl = { room, room }; setrlimit(RLIMIT_FSIZE, &rl); bool early = false;
			for (int o : h) { if (o == 0) f->store_8('z'); else if (o == 1) { Str b(5000, 'w'); f->store_buffer((const uint8_t *)b.data(), 5000); } else if (o == 2) f->flush(); else f->store_buffer((const uint8_t *)"abc", 3); early = early || f->get_error() != OK; }
			f->close(); _exit(1 + (f->get_error() != OK) + 2 * early); }
		int st = 0; waitpid(p, &st, 0); Str d; raw("s", d); bool lost = room < now.size(); mc::ok(WIFEXITED(st) && WEXITSTATUS(st) >= 1 && WEXITSTATUS(st) <= 4, "full:died", "%s with room for %zu: status %d", in.c_str(), room, st); int e = WEXITSTATUS(st) - 1;
		mc::ok((e != 0) == lost, "full:error", "%s of %zu bytes with room for %zu: error reported %d", in.c_str(), now.size(), room, e);
		if (backup || !lost) mc::ok(d == (lost ? old : now), "full:contents", "%s of %zu bytes with room for %zu leaves %s (%zu bytes), expected %s", in.c_str(), now.size(), room, hex(d.substr(0, 20)).c_str(), d.size(), lost ? "what was saved before" : "the new contents");
		else mc::ok(d.size() <= room && now.compare(0, d.size(), d) == 0, "full:prefix", "%s with room for %zu leaves %s (%zu bytes)", in.c_str(), room, hex(d.substr(0, 20)).c_str(), d.size()); }
	unlink("s.tmp");
}
template <class T, class Fn> static void tup(const std::vector<T> &a, int n, Fn f, std::vector<T> cur = {}) { if ((int)cur.size() == n) { f(cur); return; } for (auto &x : a) { cur.push_back(x); tup(a, n, f, cur); cur.pop_back(); } }
// a private directory in memory; left and removed at the end
static Str g_dir;
static void scratch() { char t[] = "/dev/shm/c42-XXXXXX"; if (mkdtemp(t) && chdir(t) == 0) g_dir = t; }
static void unscratch() { if (g_dir.empty()) return; for (const char *n : { "f", "t", "x", "y", "l", "c", "a", "b", "a.tmp", "b.tmp", "s", "s.tmp", "e" }) unlink(n); rmdir("dir"); if (chdir("/") == 0) rmdir(g_dir.c_str()); }
void explore() {
	scratch(); bool T = mc::thorough(); mkdir("dir", 0755); int D = T ? 5 : 4;
	I rw; for (int i = 0; i < N_OP; i++) rw.push_back(i);
	for (int mode : { (int)FA::READ_WRITE, (int)FA::WRITE_READ, (int)FA::WRITE, (int)FA::READ }) for (int len0 : { 0, 1, 3 }) { if (len0 == 1 && (mode & 4 || mode == FA::WRITE)) continue; for (int a : rw) for (int b : rw) MC_CASE("mode %d, %d bytes: %s; %s; ...", mode, len0, ON[a], ON[b]) { if (b == rw[0]) history(mode, len0, { a }); histories(mode, len0, mode == FA::READ_WRITE || mode == FA::WRITE_READ ? D : D - 1, rw, { a, b }); } }
	for (int a : rw) for (int b : { ST8, STB, GT8, GTB, SK1 }) for (int c : { ST8, STB, GT8, GTB, SK1 }) MC_CASE("reads and writes, deep: %s; %s; %s; ...", ON[a], ON[b], ON[c]) histories(FA::READ_WRITE, 3, T ? 7 : 6, { ST8, STB, GT8, GTB, SK1 }, { a, b, c });
	// typed values
	std::vector<Item> base = { { 0, 0xa5, "" }, { 0, 0, "" }, { 1, 0x8001, "" }, { 1, 0x00ff, "" }, { 2, 0x80010203, "" }, { 2, 0xff, "" }, { 3, 0x8102030405060708ull, "" }, { 3, 0xff000000ull, "" }, { 3, 1ull << 32, "" }, { 4, 0x3f800000, "" }, { 4, 0x7f800000, "" }, { 4, 0x80000000, "" }, { 4, 1, "" }, { 4, 0xc2f6e979, "" }, { 5, 0x3ff0000000000000ull, "" }, { 5, 0xfff0000000000000ull, "" }, { 5, 0xc05edd2f1a9fbe77ull, "" }, { 5, 1, "" }, { 6, 0x40490fdb, "" }, { 6, 0xbf000000, "" }, { 7, 0, "" }, { 7, 0, "a" }, { 7, 0, "h\xc3\xa9llo\n" }, { 7, 0, "\xe2\x82\xac\r" }, { 7, 0, Str(300, 'q') }, { 8, 0, Str("\0\xff\n\0", 4) }, { 8, 0, "" }, { 9, 0, "w\xc3\xb6rld" }, { 9, 0, "" } };
	for (int swap = 0; swap < 2; swap++) { for (auto &a : base) MC_CASE("typed: %s, swap %d", TN[a.t], swap) { typed({ a }, swap); for (auto &b : base) { typed({ a, b }, swap); for (auto &c : base) if (T || (&c - &base[0]) % 3 == 0) typed({ a, b, c }, swap); } }
		for (int t = 0; t <= 3; t++) MC_CASE("typed: every byte position, %s, swap %d", TN[t], swap) for (int pos = 0; pos < 1 << t; pos++) for (uint64_t v = 0; v < 256; v++) typed({ { t, v << 8 * pos, "" } }, swap); }
	// text
	for (int n = 0; n <= (T ? 7 : 5); n++) for (int k = 0; k < (n ? 8 : 1); k++) MC_CASE("texts of %d characters, part %d", n, k) { int i = 0; tup<Str>({ "a", "\n", "\r", " ", "\xc3\xa9", "\xe2\x82\xac", "\"" }, n, [&](const std::vector<Str> &v) { if (i++ % 8 != k) return; Str t; for (auto &s : v) t += s; text(t); }); }
	for (int n : { 254, 255, 256, 257, 258, 510, 511, 512, 513, 514, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 }) MC_CASE("line of %d bytes", n) { Str l; for (int i = 0; i < n; i++) l += char('a' + i % 23); text(l); text(l + "\n"); text(l + "\nb\n" + l); written_lines({ l, "x", l }); csv({ { l, "x" }, { "y\"", l } }, ','); }
	std::vector<Str> words = { "", "a", " b", "\xc3\xa9", "c\td", "x,\"y" }; for (int n = 1; n <= 4; n++) MC_CASE("%d lines written", n) tup<Str>(words, n, written_lines);
	std::vector<Str> fields = { "", "a", "\"", ",", "\n", "\"\"", "a,b", "x\ny", "\"q\"", "a\"b", "\xc3\xa9;", " \t" };
	for (char del : { ',', ';', '\t' }) { for (auto &a : fields) MC_CASE("records beginning %s, delimiter %02x", hex(a).c_str(), del) { csv({ { a } }, del); for (auto &b : fields) { csv({ { a, b } }, del); csv({ { a }, { b } }, del); for (auto &c : fields) { csv({ { a, b, c } }, del); csv({ { a, b }, { c } }, del); if (T) for (auto &d : fields) csv({ { a, b }, { c, d } }, del), csv({ { a, b, c, d } }, del); } } }
		for (int n = 0; n <= (T ? 7 : 6); n++) for (int k = 0; k < (n > 4 ? 4 : 1); k++) MC_CASE("record texts of %d characters, part %d, delimiter %02x", n, k, del) { int i = 0; tup<Str>({ "a", "\"", Str(1, del), "\n", "\r" }, n, [&](const std::vector<Str> &v) { if (n > 4 && i++ % 4 != k) return; Str t; for (auto &s : v) t += s; csv_text(t, del); }); } }
	// handles
	FA::close_notification_func = on_close; for (int backup = 0; backup < 2; backup++) for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) MC_CASE("handle: %d %d ..., backup %d", a, b, backup) { tup<int>({ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, T ? 3 : 2, [&](const I &v) { I h = { a, b }; h.insert(h.end(), v.begin(), v.end()); handles(h, backup); }); }
	MC_CASE("existence, paths and permissions") {
		put("e", "1"); mc::ok(FA::exists("e") && !FA::exists("nope") && !FA::exists("dir"), "exists", "exists: %d %d %d", FA::exists("e"), FA::exists("nope"), FA::exists("dir")); FA *f = FA::create(); mc::ok(f->file_exists("e") && !f->file_exists("nope") && !f->file_exists("dir") && f->file_exists(".\\e"), "file_exists", "file_exists disagrees"); memdelete(f);
		Error e = OK; f = FA::create_and_open("nope", FA::READ, &e); mc::ok(!f && e == ERR_FILE_NOT_FOUND, "create_and_open:missing", "opening a missing file gives %d", (int)e); e = OK; f = FA::create_and_open("nope", FA::READ_WRITE, &e); mc::ok(!f && e == ERR_FILE_NOT_FOUND && !there("nope"), "create_and_open:missing", "opening a missing file for update gives %d", (int)e); e = OK; f = FA::create_and_open("dir", FA::WRITE, &e); mc::ok(!f && e != OK, "create_and_open:directory", "opening a directory gives %d", (int)e); e = OK; f = FA::create_and_open("nodir/x", FA::WRITE, &e); mc::ok(!f && e != OK, "create_and_open:nodir", "opening below a missing directory gives %d", (int)e); e = OK; f = FA::create_and_open("e", 0, &e); mc::ok(!f && e != OK, "create_and_open:mode", "mode 0 gives %d", (int)e);
		e = OK; mc::ok(FA::get_file_as_array("nope", &e).size() == 0 && e == ERR_FILE_NOT_FOUND, "get_file_as_array:missing", "error %d", (int)e); e = OK; mc::ok(FA::get_file_as_string("nope", &e) == "" && e == ERR_FILE_NOT_FOUND, "get_file_as_string:missing", "error %d", (int)e);
		for (int m : { 0600, 0644, 0640, 0755, 0400, 0777 }) { mc::ok(FA::set_unix_permissions("e", m) == OK && (int)FA::get_unix_permissions("e") == m, "permissions", "%o becomes %o", m, FA::get_unix_permissions("e")); } chmod("e", 0644); mc::ok(FA::set_unix_permissions("nope", 0644) != OK, "permissions:missing", "permissions of a missing file set");
		g_closed = 0; f = FA::create_and_open("e", FA::READ); f->close(); f->close(); memdelete(f); mc::ok(g_closed == 1, "close:notify", "closing reported %d times", g_closed);
		struct stat st; stat("e", &st); mc::ok(FA::get_modified_time("e") == (uint64_t)st.st_mtime && FA::get_modified_time("nope") == 0, "modified_time", "modification time wrong");
	}
	FA::close_notification_func = nullptr;
	for (int n = 0; n <= (T ? 5 : 4); n++) for (int k = 0; k < (n < 3 ? 1 : 24); k++) MC_CASE("backed-up saves of %d operations, part %d", n, k) { int i = 0; tup<int>({ 0, 1, 2, 3 }, n, [&](const I &h) { if (n < 3 || i++ % 24 == k) crashes(h); }); }
	for (int n = 0; n <= (T ? 4 : 3); n++) for (int b = 0; b < 2; b++) for (int k = 0; k < (n < 2 ? 1 : 16); k++) MC_CASE("full disk after %d operations, part %d, backup %d", n, k, b) { int i = 0; tup<int>({ 0, 1, 2, 3 }, n, [&](const I &h) { if (i++ % (n < 2 ? 1 : 16) == k) fulldisk(h, b); }); }
	mc::arm(0); unscratch();
}
