// C17: visualizer_png.h on the simulated disk: canvas against a reference canvas, files against an independent PNG decoder.
#include "../sim/core.h"
#include <cstdint>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include REPO_VISUALIZER_PNG
#include <array>
#include <cinttypes>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <set>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
typedef std::uint8_t u8;
typedef std::uint32_t u32;

namespace {
string D;
#define BAD(cls, ...) do { if (!sim::W->violated) sim::violate(cls, "%s: %s", D.c_str(), fmt(__VA_ARGS__).c_str()); return; } while (0)

// ---- independent decoder (8-bit RGBA, any legal deflate stream and chunk layout) -------------------
u32 crcOf(const u8* p, size_t n) { u32 c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
struct Inflate {
	const u8* p; size_t n, pos = 0; u32 bits = 0; int cnt = 0; string out; const char* err = nullptr;
	u32 bit() { if (!cnt) { if (pos >= n) { err = "deflate stream is cut short"; return 0; } bits = p[pos++]; cnt = 8; } u32 b = bits & 1; bits >>= 1; cnt--; return b; }
	u32 get(int k) { u32 r = 0; for (int i = 0; i < k; i++) r |= bit() << i; return r; }
	struct Huff { u32 count[16]{}; vector<u32> sym; void build(const vector<u8>& len) { for (auto l : len) count[l]++; count[0] = 0; u32 off[17]{}; for (int i = 1; i < 16; i++) off[i + 1] = off[i] + count[i]; sym.resize(len.size()); for (u32 i = 0; i < len.size(); i++) if (len[i]) sym[off[len[i]]++] = i; } };
	int decode(const Huff& h) { int code = 0, first = 0, idx = 0; for (int l = 1; l < 16; l++) { code |= (int)bit(); if (err) return -1; int c = (int)h.count[l]; if (code - first < c) return (int)h.sym[(size_t)(idx + code - first)]; idx += c; first = (first + c) << 1; code <<= 1; } err = "bad huffman code"; return -1; }
	bool run() {
		for (bool last = false; !last && !err;) {
			last = bit(); u32 type = get(2);
			if (err) break;
			if (type == 0) {
				cnt = 0;
				if (pos + 4 > n) { err = "stored block is cut short"; break; }
				u32 len = p[pos] | p[pos + 1] << 8, nlen = p[pos + 2] | p[pos + 3] << 8; pos += 4;
				if ((len ^ nlen) != 0xFFFF) { err = "LEN and NLEN of a stored block disagree"; break; }
				if (pos + len > n) { err = "stored block is cut short"; break; }
				out.append((const char*)p + pos, len); pos += len;
				continue;
			}
			if (type == 3) { err = "reserved block type"; break; }
			Huff L, Dh;
			if (type == 1) { vector<u8> l(288); for (int i = 0; i < 288; i++) l[(size_t)i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; L.build(l); Dh.build(vector<u8>(30, 5)); }
			else {
				u32 nl = get(5) + 257, nd = get(5) + 1, nc = get(4) + 4; static const int ord[] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
				vector<u8> cl(19), l; for (u32 i = 0; i < nc; i++) cl[(size_t)ord[i]] = (u8)get(3);
				Huff C; C.build(cl);
				while (l.size() < nl + nd && !err) { int s = decode(C); if (err) break; if (s < 16) l.push_back((u8)s); else { u8 v = 0; u32 r; if (s == 16) { if (l.empty()) { err = "bad code lengths"; break; } v = l.back(); r = 3 + get(2); } else r = s == 17 ? 3 + get(3) : 11 + get(7); while (r--) l.push_back(v); } }
				if (err) break;
				l.resize(nl + nd);
				L.build(vector<u8>(l.begin(), l.begin() + nl)); Dh.build(vector<u8>(l.begin() + nl, l.end()));
			}
			static const int lb[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}, le[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
			static const int db[] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}, de[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
			while (!err) {
				int s = decode(L); if (err) break;
				if (s == 256) break;
				if (s < 256) { out += (char)s; continue; }
				s -= 257; if (s >= 29) { err = "bad length symbol"; break; }
				u32 len = (u32)lb[s] + get(le[s]); int d = decode(Dh); if (err || d >= 30) { err = "bad distance symbol"; break; }
				u32 dist = (u32)db[d] + get(de[d]); if (dist > out.size()) { err = "distance too far back"; break; }
				while (len--) out += out[out.size() - dist];
			}
		}
		return !err;
	}
};
struct Image { u32 w = 0, h = 0; vector<std::array<u8, 4>> px; bool operator==(const Image& o) const { return w == o.w && h == o.h && px == o.px; } };
// empty: complete and valid; otherwise the reason why it does not decode
string decode(const string& f, Image& im) {
	const u8* p = (const u8*)f.data(); size_t n = f.size(), i = 8;
	auto be = [&](size_t k) { return (u32)p[k] << 24 | (u32)p[k + 1] << 16 | (u32)p[k + 2] << 8 | p[k + 3]; };
	if (n < 8 || std::memcmp(p, "\x89PNG\r\n\x1a\n", 8)) return "bad signature";
	string z; bool ihdr = false, idat = false, idatEnd = false, iend = false;
	while (i < n) {
		if (iend) return "data after IEND";
		if (i + 12 > n) return "chunk is cut short";
		u32 len = be(i); if (len > 0x7FFFFFFF || i + 12 + (size_t)len > n) return fmt("chunk at %zu of length %u exceeds the file", i, len);
		string ty((const char*)p + i + 4, 4);
		if (crcOf(p + i + 4, len + 4) != be(i + 8 + len)) return "CRC of chunk " + sim::quote(ty) + " is wrong";
		const u8* d = p + i + 8;
		if (!ihdr && ty != "IHDR") return "first chunk is not IHDR";
		if (ty == "IHDR") { if (ihdr || len != 13) return "bad IHDR"; ihdr = true; im.w = be(i + 8); im.h = be(i + 12); if (!im.w || !im.h || im.w >> 31 || im.h >> 31) return "bad size"; if (d[8] != 8 || d[9] != 6) return fmt("bit depth %d colour type %d", d[8], d[9]); if (d[10] || d[11] || d[12]) return "bad compression, filter or interlace method"; }
		else if (ty == "IDAT") { if (idatEnd) return "IDAT chunks are not consecutive"; idat = true; z.append((const char*)d, len); }
		else if (ty == "IEND") { if (len) return "IEND with data"; iend = true; }
		else if (!(ty[0] & 32)) return "unknown critical chunk " + sim::quote(ty);
		if (idat && ty != "IDAT") idatEnd = true;
		i += 12 + (size_t)len;
	}
	if (!iend) return "IEND is missing";
	if (!idat) return "IDAT is missing";
	const u8* q = (const u8*)z.data();
	if (z.size() < 6) return "zlib stream is cut short";
	if ((q[0] & 15) != 8 || q[0] >> 4 > 7 || (q[0] * 256 + q[1]) % 31 || q[1] & 32) return "bad zlib header";
	Inflate inf{q + 2, z.size() - 2};
	if (!inf.run()) return inf.err;
	if (inf.pos + 4 != inf.n) return fmt("zlib stream has %zu bytes after the compressed data instead of 4", inf.n - inf.pos);
	u32 a = 1, b = 0; for (unsigned char c : inf.out) { a = (a + c) % 65521; b = (b + a) % 65521; }
	const u8* t = q + 2 + inf.pos;
	if (((u32)t[0] << 24 | (u32)t[1] << 16 | (u32)t[2] << 8 | t[3]) != (b << 16 | a)) return "Adler-32 checksum is wrong";
	size_t row = 4 * (size_t)im.w + 1;
	if (inf.out.size() != row * im.h) return fmt("%zu bytes of image data instead of %zu", inf.out.size(), row * im.h);
	im.px.resize((size_t)im.w * im.h);
	string& o = inf.out;
	for (size_t y = 0; y < im.h; y++) {
		u8 ft = (u8)o[y * row]; if (ft > 4) return "bad filter type";
		for (size_t x = 0; x + 1 < row; x++) {
			int A = x >= 4 ? (u8)o[y * row + 1 + x - 4] : 0, B = y ? (u8)o[(y - 1) * row + 1 + x] : 0, C = x >= 4 && y ? (u8)o[(y - 1) * row + 1 + x - 4] : 0, P = A + B - C, pa = std::abs(P - A), pb = std::abs(P - B), pc = std::abs(P - C);
			int add = ft == 0 ? 0 : ft == 1 ? A : ft == 2 ? B : ft == 3 ? (A + B) / 2 : pa <= pb && pa <= pc ? A : pb <= pc ? B : C;
			o[y * row + 1 + x] = (char)((u8)o[y * row + 1 + x] + add);
			im.px[y * im.w + x / 4][x % 4] = (u8)o[y * row + 1 + x];
		}
	}
	return "";
}

// ---- reference canvas -------------------------------------------------------------------------------
struct Canvas {
	std::int64_t w = 0, h = 0; vector<Color> px;
	Color& at(std::int64_t x, std::int64_t y) { return px[(size_t)(y * w + x)]; }
	Image image() const { Image r; r.w = (u32)w; r.h = (u32)h; r.px.resize(px.size()); for (std::int64_t y = 0; y < h; y++) for (std::int64_t x = 0; x < w; x++) { auto& c = px[(size_t)((h - 1 - y) * w + x)]; r.px[(size_t)(y * w + x)] = {c.r, c.g, c.b, c.a}; } return r; }
};
string show(const Color& c) { return fmt("%02x%02x%02x%02x", c.r, c.g, c.b, c.a); }
vector<Color> palette;
Color anyColor() {
	if (!palette.empty() && choose(2)) return palette[choose((u32)palette.size())];
	auto ch = [] { static const u8 e[] = {0, 255, 1, 254, 127, 128}; return choose(2) ? e[choose(6)] : (u8)choose(256); };
	u8 r = ch(), g = ch(), b = ch(), a = choose(3) ? 255 : ch();
	Color c(r, g, b, a);
	if (palette.size() < 4) palette.push_back(c);
	return c;
}
Color sat(const Color& a, const Color& b, int s) { auto f = [&](int x, int y) { int v = x + s * y; return (u8)(v < 0 ? 0 : v > 255 ? 255 : v); }; return Color(f(a.r, b.r), f(a.g, b.g), f(a.b, b.b), f(a.a, b.a)); }
Color mixc(int m, const Color& lo, const Color& up) { return m == 0 ? up : m == 1 ? blend(lo, up) : sat(lo, up, m == 2 ? 1 : -1); }
const char* const modeName[] = {"ASSIGN", "BLEND", "ADD", "SUBTRACT"};

void sameCanvas(const PNG& p, Canvas& c) {
	if (p.width() != (c.h ? c.w : 0) || p.height() != c.h) BAD("size", "%" PRId64 "x%" PRId64 ", expected %" PRId64 "x%" PRId64, p.width(), p.height(), c.w, c.h);
	for (std::int64_t y = 0; y < c.h; y++) for (std::int64_t x = 0; x < c.w; x++) { Color g = p(x, y); if (!(g == c.at(x, y))) BAD("canvas", "pixel (%" PRId64 ",%" PRId64 ") is %s, expected %s", x, y, show(g).c_str(), show(c.at(x, y)).c_str()); }
}
std::int64_t cx(const Canvas& c) { return c.w <= 1 ? 0 : choose(4) == 0 ? (choose(2) ? c.w - 1 : 0) : (std::int64_t)choose((u32)c.w); }
std::int64_t cy(const Canvas& c) { return c.h <= 1 ? 0 : choose(4) == 0 ? (choose(2) ? c.h - 1 : 0) : (std::int64_t)choose((u32)c.h); }
template<BlendMode M> void drawOp(PNG& p, Canvas& c, int m, int o) {
	Color f = anyColor(), g = anyColor();
	Point a(cx(c), cy(c)), b(cx(c), cy(c));
	if (choose(8) == 0) b = a;
	// a colour is often taken from the image itself: the pixel is passed as it is
	bool own = chance(1, 6), ownG = chance(1, 10);
	Point src(cx(c), cy(c));
	if (own && choose(2)) src = choose(2) ? a : b;
	if (own) f = c.at(src.x, src.y);
	if (ownG) g = c.at(src.x, src.y);
	const Color& pf = own ? p(src.x, src.y) : f; const Color& pg = ownG ? p(src.x, src.y) : g;
	string where = fmt("(%" PRId64 ",%" PRId64 "),(%" PRId64 ",%" PRId64 ")%s", a.x, a.y, b.x, b.y, own || ownG ? fmt(" colour of pixel (%" PRId64 ",%" PRId64 ")", src.x, src.y).c_str() : "");
	if (o <= 1) {
		bool border = o == 1;
		D = fmt("fillRectangle<%s>(%s,%s%s%s) on %" PRId64 "x%" PRId64, modeName[m], where.c_str(), border ? show(g).c_str() : "", border ? "," : "", show(f).c_str(), c.w, c.h);
		sim::ev("%s", D.c_str()); sim::probe(border ? "rectangle with border" : "rectangle");
		if (border) p.fillRectangle<M>(a, b, pg, pf); else p.fillRectangle<M>(a, b, pf);
		auto x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
		for (auto y = y0; y <= y1; y++) for (auto x = x0; x <= x1; x++) { bool rim = x == x0 || x == x1 || y == y0 || y == y1; c.at(x, y) = mixc(m, c.at(x, y), rim && border ? g : f); }
		sameCanvas(p, c);
	} else if (o == 2) {
		D = fmt("floodFill<%s>((%" PRId64 ",%" PRId64 "),%s) on %" PRId64 "x%" PRId64, modeName[m], a.x, a.y, show(f).c_str(), c.w, c.h);
		sim::ev("%s", D.c_str()); sim::probe("flood fill");
		p.floodFill<M>(a, pf);
		Color old = c.at(a.x, a.y), neu = mixc(m, old, f);
		vector<char> seen((size_t)(c.w * c.h)); std::deque<Point> q{a}; seen[(size_t)(a.y * c.w + a.x)] = 1;
		while (!q.empty()) { Point t = q.front(); q.pop_front(); for (int k = 0; k < 4; k++) { auto x = t.x + (k == 0) - (k == 1), y = t.y + (k == 2) - (k == 3); if (x < 0 || y < 0 || x >= c.w || y >= c.h || seen[(size_t)(y * c.w + x)] || !(c.at(x, y) == old)) continue; seen[(size_t)(y * c.w + x)] = 1; q.push_back(Point(x, y)); } }
		for (size_t i = 0; i < seen.size(); i++) if (seen[i]) c.px[i] = neu;
		sameCanvas(p, c);
	} else {
		D = fmt("drawLine<%s>(%s,%s) on %" PRId64 "x%" PRId64, modeName[m], where.c_str(), show(f).c_str(), c.w, c.h);
		sim::ev("%s", D.c_str()); sim::probe("line");
		// which pixels the line covers: shown by a line of a fresh colour on a copy
		auto dx = std::abs(b.x - a.x), dy = std::abs(b.y - a.y), len = std::max(dx, dy);
		vector<std::pair<std::int64_t, std::int64_t>> cover;
		{ PNG q; q.clear(c.w, c.h, Color(0, 0, 0, 255)); q.drawLine<ADD>(a, b, Color(1, 1, 1, 0)); for (std::int64_t y = 0; y < c.h; y++) for (std::int64_t x = 0; x < c.w; x++) { Color v = q(x, y); if (v.r > 1) BAD("line", "pixel (%" PRId64 ",%" PRId64 ") is drawn %d times", x, y, v.r); if (v.r) cover.emplace_back(x, y); } }
		auto has = [&](std::int64_t x, std::int64_t y) { return std::find(cover.begin(), cover.end(), std::make_pair(x, y)) != cover.end(); };
		if (!has(a.x, a.y) || !has(b.x, b.y)) BAD("line", "an end point is not drawn");
		// connected in the sense of 8-neighbourhood, and nowhere a pixel farther than a half from the ideal line (Bresenham)
		std::set<std::pair<std::int64_t, std::int64_t>> todo(cover.begin(), cover.end()); vector<std::pair<std::int64_t, std::int64_t>> st{{a.x, a.y}}; todo.erase({a.x, a.y});
		while (!st.empty()) { auto t = st.back(); st.pop_back(); for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) { auto it = todo.find({t.first + i, t.second + j}); if (it != todo.end()) { st.push_back(*it); todo.erase(it); } } }
		if (!todo.empty()) BAD("line", "pixel (%" PRId64 ",%" PRId64 ") is not connected to the start", todo.begin()->first, todo.begin()->second);
		for (auto& t : cover) { auto cr = (t.first - a.x) * (b.y - a.y) - (t.second - a.y) * (b.x - a.x); if (2 * std::abs(cr) > len) BAD("line", "pixel (%" PRId64 ",%" PRId64 ") is farther than half a pixel from the line", t.first, t.second); if (t.first < std::min(a.x, b.x) || t.first > std::max(a.x, b.x) || t.second < std::min(a.y, b.y) || t.second > std::max(a.y, b.y)) BAD("line", "pixel (%" PRId64 ",%" PRId64 ") is beyond the end points", t.first, t.second); }
		p.drawLine<M>(a, b, pf);
		for (auto& t : cover) c.at(t.first, t.second) = mixc(m, c.at(t.first, t.second), f);
		sameCanvas(p, c);
	}
}
void colours() {
	Color a = anyColor(), b = anyColor();
	{ Point p(sim::range(-3, 3), sim::range(-3, 3)), q(sim::range(-3, 3), sim::range(-3, 3)); bool e = p.x == q.x && p.y == q.y; if ((p == q) != e || (p != q) == e) { D = "points"; BAD("point", "(%d,%d) and (%d,%d) compare wrongly", (int)p.x, (int)p.y, (int)q.x, (int)q.y); } }
	D = fmt("colours %s, %s", show(a).c_str(), show(b).c_str());
	sim::probe("colour arithmetic");
	auto eq = [&](const Color& g, const Color& w, const char* w2) { if (!(g == w) || g != w) BAD("colour", "%s gives %s, expected %s", w2, show(g).c_str(), show(w).c_str()); };
	eq(a + b, sat(a, b, 1), "+"); eq(a - b, sat(a, b, -1), "-");
	Color t = a; eq(t += b, sat(a, b, 1), "+="); t = a; eq(t -= b, sat(a, b, -1), "-="); eq(t, sat(a, b, -1), "-=");
	long double f;
	switch (choose(7)) { case 0: f = 1; break; case 1: f = 0; break; case 2: f = -(long double)choose(1000) / 16; break; case 3: f = (long double)choose(64) / 64; break; case 4: f = ldexpl(1, (int)choose(200)); break; case 5: f = -ldexpl(1, (int)choose(200)); break; default: f = (long double)choose(100000) / 7; }
	auto near = [&](int ch, long double x, u8 g, const char* w2) { long double v = x * f; v = v < 0 ? 0 : v > 255 ? 255 : v; if (fabsl((long double)g - v) > 0.5000001L) BAD("colour", "%s by %Lg: channel %d gives %d, expected about %Lg", w2, f, ch, g, v); };
	Color s1 = a * f, s2 = f * a; t = a; t *= f;
	for (size_t i = 0; i < 4; i++) { near((int)i, a[i], s1[i], "scaling"); near((int)i, a[i], s2[i], "scaling"); near((int)i, a[i], t[i], "scaling"); }
	long double q = (long double)choose(65) / 64;
	Color l = lerp(a, b, q);
	for (size_t i = 0; i < 4; i++) { long double v = a[i] * q + b[i] * (1 - q); if (fabsl(l[i] - v) > 1.01L) BAD("colour", "lerp by %Lg: channel %zu gives %d, expected about %Lg", q, i, l[i], v); }
	// blending upper over lower
	Color r = blend(a, b);
	if (b.a == 255) eq(r, b, "blend with an opaque colour");
	else if (b.a == 0) eq(r, a, "blend with a transparent colour");
	else {
		long double al = a.a * (255.0L - b.a) / 255, ar = b.a + al;
		if (fabsl(r.a - ar) > 1.01L) BAD("colour", "blend gives alpha %d, expected about %Lg", r.a, ar);
		for (size_t i = 0; i < 3; i++) {
			int lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]);
			if (r[i] + 1 < lo || r[i] > hi + 1) BAD("colour", "blend: channel %zu gives %d outside of [%d,%d]", i, r[i], lo, hi);
			if (ar >= 128) { long double v = (b[i] * (long double)b.a + a[i] * al) / ar; if (fabsl(r[i] - v) > 4) BAD("colour", "blend: channel %zu gives %d, expected about %Lg", i, r[i], v); }
		}
	}
	std::uint32_t rgb = (u32)sim::word() & 0xFFFFFF; Color k(rgb); if (k.r != rgb >> 16 || k.g != (rgb >> 8 & 255) || k.b != (rgb & 255) || k.a != 255) BAD("colour", "Color(0x%06x) is %s", rgb, show(k).c_str());
	u8 al = (u8)choose(256);
	if (show(Color(rgb, al)) != fmt("%06x%02x", rgb, al)) BAD("colour", "Color(0x%06x, %d) is %s", rgb, al, show(Color(rgb, al)).c_str());
	if (show(Color()) != "000000ff") BAD("colour", "the default colour is %s", show(Color()).c_str());
	static const std::pair<Color, const char*> named[] = {{BLACK, "000000ff"}, {DARKGRAY, "404040ff"}, {GRAY, "808080ff"}, {LIGHTGRAY, "c0c0c0ff"}, {WHITE, "ffffffff"}, {TRANSPARENT, "00000000"}, {RED, "ff0000ff"}, {GREEN, "00ff00ff"}, {BLUE, "0000ffff"}, {YELLOW, "ffff00ff"}, {MAGENTA, "ff00ffff"}, {CYAN, "00ffffff"}};
	for (auto& [c, h] : named) if (show(c) != h) BAD("colour", "the colour named %s is %s", h, show(c).c_str());
	const Color ck(rgb, al); const u8 want[] = {(u8)(rgb >> 16), (u8)(rgb >> 8), (u8)rgb, al};
	for (size_t i = 0; i < 4; i++) {
		Color m = ck; u8 w[4]; std::copy(want, want + 4, w); w[i]++; m[i]++;
		if (ck[i] != want[i] || Color(rgb, al)[i] != want[i] || m[i] != w[i] || show(m) != fmt("%02x%02x%02x%02x", w[0], w[1], w[2], w[3])) BAD("colour", "channel %zu of %s reads %d, %d and writes %s", i, show(ck).c_str(), ck[i], Color(rgb, al)[i], show(m).c_str());
	}
	{ size_t i = 4 + choose(5); Color m = ck; int refused = 0; try { (void)m[i]; } catch (const std::out_of_range&) { refused++; } try { (void)ck[i]; } catch (const std::out_of_range&) { refused++; } try { (void)Color(rgb)[i]; } catch (const std::out_of_range&) { refused++; } if (refused != 3) BAD("colour", "channel %zu is not refused", i); }
}

void record(const Canvas& c) {          // every canvas that was written, for the judge
	string s; u32 w = (u32)c.w, h = (u32)c.h; s.append((char*)&w, 4); s.append((char*)&h, 4);
	auto im = c.image(); for (auto& p : im.px) s.append((const char*)p.data(), 4);
	sim::put(fmt("/model/%zu", (size_t)sim::W->histLen), s);
	sim::W->histLen++;
}
Image load(const string& s) { Image r; std::memcpy(&r.w, s.data(), 4); std::memcpy(&r.h, s.data() + 4, 4); r.px.resize((s.size() - 8) / 4); for (size_t i = 0; i < r.px.size(); i++) std::memcpy(r.px[i].data(), s.data() + 8 + 4 * i, 4); return r; }

void newSize(std::int64_t& w, std::int64_t& h, bool big) {
	switch (choose(big ? 8 : 5)) { case 0: w = 1 + choose(3); h = 1 + choose(3); break; case 1: case 2: w = 1 + choose(12); h = 1 + choose(12); break; case 3: w = choose(3) ? 1 + choose(40) : 0; h = choose(3) ? 1 + choose(40) : 0; break; case 4: w = 1 + choose(5); h = 1 + choose(120); break; case 5: w = 16383 - choose(3); h = 1 + choose(3); break; case 7: w = choose(3) ? 1 : 2; h = w == 1 && choose(2) ? 32760 + choose(1500) : 250 + choose(5000); break; default: w = 5000 + choose(11383); h = 1 + choose(3); }
}
void body(int style, bool big, unsigned nops, bool oversize, int kind) {
	palette.clear();
	static char a0[] = "/sim/vis", a1[] = "/sim/img";
	char* av[] = {a0, a1, nullptr};
	Canvas c;
	PNG* p;
	if (style == 0) {
		Visualizer::init(2, av); p = &Visualizer::image;
		D = "Visualizer::init"; string a, b; Visualizer::testIn >> a; Visualizer::testAns >> b;
		if (kind) a = "input", b = "answer";
		if (a != "input") BAD("test-input", "testIn delivers %s, expected \"input\"", sim::quote(a).c_str());
		if (b != "answer") BAD("test-input", "testAns delivers %s, expected \"answer\"", sim::quote(b).c_str());
	}
	else if (style == 1) p = new PNG("/sim/img.png");
	else { PNG tmp("/sim/img.png"); p = new PNG(std::move(tmp)); }
	bool cleared = false;
	for (unsigned k = 0; k < nops && !sim::W->violated; k++) {
		int o = cleared ? (int)choose(9) : choose(8) ? 0 : 8;
		if (cleared && o == 0 && choose(2)) o = 3;
		if (o == 0 || ((o >= 1 && o <= 6) && (!c.w || !c.h))) {
			std::int64_t w, h; newSize(w, h, big);
			if (oversize && choose(3) == 0) { w = 16384 + choose(3) * 20000; h = 1; }
			bool def = choose(3) == 0; Color f = def ? TRANSPARENT : anyColor();
			D = fmt("clear(%" PRId64 ",%" PRId64 ",%s)", w, h, def ? "" : show(f).c_str());
			sim::ev("%s", D.c_str());
			if (def) p->clear(w, h); else p->clear(w, h, f);
			c.w = w; c.h = h; c.px.assign((size_t)(w * h), f);
			cleared = true; sim::probe(w > 16383 ? "oversized image" : w > 5000 ? "clear wide" : h > 32000 ? "clear tall" : w && h ? "clear" : "clear empty");
			sameCanvas(*p, c);
		} else if (o >= 1 && o <= 5) {
			int m = (int)choose(4), op = (int)choose(4);
			sim::sig((unsigned)(m * 4 + op));
			switch (m) { case 0: drawOp<ASSIGN>(*p, c, m, op); break; case 1: drawOp<BLEND>(*p, c, m, op); break; case 2: drawOp<ADD>(*p, c, m, op); break; default: drawOp<SUBTRACT>(*p, c, m, op); }
		} else if (o == 6) {
			Point a(cx(c), cy(c)); Color f = anyColor();
			D = fmt("pixel (%" PRId64 ",%" PRId64 ") = %s", a.x, a.y, show(f).c_str());
			(*p)(a.x, a.y) = f; c.at(a.x, a.y) = f; sameCanvas(*p, c);
		} else if (o == 7) {
			D = "write()"; sim::probe("explicit write"); sim::ev("write()");
			if (c.w && c.h) record(c);
			p->write();
		} else if (o == 8) colours();
	}
	D = "destructor";
	if (c.w && c.h) record(c);
	if (style) delete p;
	if (style == 1) { PNG a, b; a.clear(3, 3, RED); b = a; PNG d(b); (void)d; }       // images without a name write nothing
}
void run(bool faults) {
	int style = (int)choose(3);
	bool big = choose(30) == 0, oversize = choose(40) == 0, stale = choose(3) == 0;
	unsigned nops = 1 + choose(14);
	sim::W->nontrivial = true;
	sim::W->histLen = 0;
	if (choose(3) == 0) { sim::plan.shortWrite = 2; sim::plan.eintr = 3; }
	static const u8 fills[] = {0xA5, 0, 0xFF}; sim::plan.fill = fills[choose(3)];
	string old;
	if (stale) { old.assign(500 + choose(2000), 'O'); sim::put("/sim/img.png", old); sim::fired(sim::F_STALE); }
	sim::put("/sim/img.in", "input 1\n"); sim::put("/sim/img.ans", "answer 2\n");
	int kind = 0;
	if (faults) {
		long at = (long)choose(choose(2) ? 4 : 40);
		switch (kind = 1 + (int)choose(5)) {
			case 1: sim::plan.enospc = at; sim::plan.enospcSticky = choose(2); sim::plan.enospcPartial = choose(5000); break;
			case 2: sim::plan.eioWrite = at; break;
			case 3: sim::plan.openFail = (long)choose(3); break;
			case 4: sim::plan.closeFail = (long)choose(3); break;
			default: sim::plan.kill = (long)choose(60);
		}
		sim::plan.onlyPath = "img.png";
	}
	sim::sig((unsigned)(kind * 8 + style));
	auto st = sim::spawn([&] { body(style, big, nops, oversize, kind); }, sim::EXIT_REAL);
	sim::plan = sim::Plan{};
	D = fmt("%s image%s", style == 0 ? "global" : style == 1 ? "named" : "moved", faults ? " with fault" : "");
	if (sim::W->violated) return;
	if (st.hang) BAD("hang", "the program does not end");
	bool refused = !st.exited && st.signal == SIGABRT && oversize;
	if (kind == 5 && st.killed) sim::probe("killed");
	else if (!refused && !(st.exited && st.code == 0)) BAD("crash", "the program ended with %d; stderr %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str());
	size_t n = sim::W->histLen;
	bool clean = !faults && !refused;
	if (!sim::exists("/sim/img.png")) { if (clean && n) BAD("no-file", "nothing was written"); return; }
	string f = sim::get("/sim/img.png");
	if (stale && f == old) { if (clean && n) BAD("no-file", "the old file is still there"); return; }
	Image im; string why = decode(f, im);
	sim::probe(why.empty() ? "file decoded" : "file incomplete");
	if (!why.empty()) { if (clean && n) BAD("invalid-png", "%s (file of %zu bytes)", why.c_str(), f.size()); return; }
	if (!n) BAD("unexpected-file", "a file of %zu bytes was written for an empty image", f.size());
	for (size_t k = n; k-- > 0;) {
		Image w = load(sim::get(fmt("/model/%zu", k)));
		if (im == w) { sim::probe(k + 1 == n ? "file shows the last canvas" : "file shows an earlier explicit write"); if (clean && k + 1 != n) BAD("stale-image", "the file shows the canvas of write %zu of %zu", k + 1, n); return; }
	}
	Image w = load(sim::get(fmt("/model/%zu", n - 1)));
	string diff = fmt("%ux%u", im.w, im.h);
	if (im.w == w.w && im.h == w.h) for (size_t i = 0; i < im.px.size(); i++) if (im.px[i] != w.px[i]) { diff = fmt("first at column %zu, row %zu from the top: %02x%02x%02x%02x instead of %02x%02x%02x%02x", i % im.w, i / im.w, im.px[i][0], im.px[i][1], im.px[i][2], im.px[i][3], w.px[i][0], w.px[i][1], w.px[i][2], w.px[i][3]); break; }
	BAD("wrong-image", "the file decodes to an image that was never on the canvas when it was written (expected %ux%u): %s", w.w, w.h, diff.c_str());
}
sim::Register r1("png", [] { run(false); }), r2("png-faults", [] { run(true); });
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
