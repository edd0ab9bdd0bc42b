// C18: visualizer_svg.h on the simulated disk; files are parsed by an independent XML parser and compared with what was drawn.
#include "../sim/core.h"
#include <cstdint>
#include <iomanip>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include REPO_VISUALIZER_SVG
#include <cinttypes>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>

using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
typedef std::uint8_t u8;
typedef std::uint32_t u32;

namespace {
string D;
#define BAD(cls, ...) do { if (!sim::W->violated) sim::violate(cls, "%s: %s", D.c_str(), fmt(__VA_ARGS__).c_str()); return; } while (0)

// ---- independent parser: a strict subset of XML 1.0 (no DTD, no entities other than the predefined) --------------
struct Node { char kind; string name; vector<std::pair<string, string>> attr; };      // '<' open, '>' close, '!' comment, 't' text
struct Xml {
	string s; size_t i = 0; string err; string encoding; vector<Node> out;
	bool fail(const string& e) { if (err.empty()) err = fmt("%s at byte %zu", e.c_str(), i); return false; }
	bool at(const char* t) { return s.compare(i, strlen(t), t) == 0; }
	static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
	static bool nameChar(char c, bool first) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || (u8)c >= 128 || (!first && ((c >= '0' && c <= '9') || c == '-' || c == '.')); }
	void skip() { while (i < s.size() && ws(s[i])) i++; }
	string name() { size_t b = i; if (i < s.size() && nameChar(s[i], true)) { i++; while (i < s.size() && nameChar(s[i], false)) i++; } else fail("name expected"); return s.substr(b, i - b); }
	bool refs(const string& raw, string& o) { o.clear(); for (size_t k = 0; k < raw.size(); k++) { if (raw[k] != '&') { o += raw[k]; continue; } size_t e = raw.find(';', k); if (e == string::npos) return fail("bare ampersand"); string n = raw.substr(k + 1, e - k - 1); static const std::map<string, char> m{{"amp", '&'}, {"lt", '<'}, {"gt", '>'}, {"quot", '"'}, {"apos", '\''}}; if (m.count(n)) o += m.at(n); else if (n.size() > 1 && n[0] == '#') o += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : atol(n.c_str() + 1)); else return fail("unknown entity"); k = e; } return true; }
	bool attrs(vector<std::pair<string, string>>& a) {
		for (;;) {
			bool gap = i < s.size() && ws(s[i]); skip();
			if (i >= s.size()) return fail("tag is cut short");
			if (!nameChar(s[i], true)) return true;
			if (!gap) return fail("white space expected before the attribute");
			string n = name(); skip(); if (i >= s.size() || s[i] != '=') return fail("attribute without value"); i++; skip();
			if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) return fail("attribute value without quotes");
			char q = s[i++]; size_t e = s.find(q, i); if (e == string::npos) return fail("attribute value is cut short");
			string v, raw = s.substr(i, e - i); if (raw.find('<') != string::npos) return fail("< in an attribute value"); if (!refs(raw, v)) return false; i = e + 1;
			for (auto& x : a) if (x.first == n) return fail("attribute " + n + " is given twice");
			a.emplace_back(n, v);
		}
	}
	bool chars() {          // encoding: UTF-8 and only characters XML allows
		for (size_t k = 0; k < s.size();) {
			u8 c = (u8)s[k]; int n = c < 128 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
			if (!n || k + (size_t)n > s.size()) { i = k; return fail("not UTF-8"); }
			for (int j = 1; j < n; j++) if (((u8)s[k + (size_t)j] & 0xC0) != 0x80) { i = k; return fail("not UTF-8"); }
			if (c < 32 && !ws((char)c)) { i = k; return fail("control character"); }
			k += (size_t)n;
		}
		return true;
	}
	bool parse(bool prolog = true) {
		if (!chars()) return false;
		if (prolog && at("<?xml")) {
			i += 5; vector<std::pair<string, string>> a; if (!attrs(a)) return false; if (!at("?>")) return fail("XML declaration does not end"); i += 2;
			if (a.empty() || a[0].first != "version" || (a[0].second != "1.0" && a[0].second != "1.1")) return fail("XML declaration without version");
			for (auto& x : a) if (x.first == "encoding") encoding = x.second;
			string e; for (char c : encoding) e += (char)toupper(c);
			bool ascii = true; for (char c : s) ascii = ascii && (u8)c < 128;
			bool known = e.empty() || e == "UTF-8" || (ascii && (e == "US-ASCII" || e.compare(0, 9, "ISO-8859-") == 0));
			if (!known) return fail("encoding " + encoding + " is not a known encoding of these bytes");
		}
		vector<string> open; bool root = false;
		while (i < s.size()) {
			if (at("<!--")) { size_t e = s.find("--", i + 4); if (e == string::npos) return fail("comment does not end"); if (s.compare(e, 3, "-->") != 0) { i = e; return fail("-- inside of a comment"); } out.push_back({'!', s.substr(i + 4, e - i - 4), {}}); i = e + 3; }
			else if (at("</")) { i += 2; string n = name(); skip(); if (!err.empty()) return false; if (!at(">")) return fail("end tag does not end"); i++; if (open.empty() || open.back() != n) return fail("end tag " + n + " does not match"); open.pop_back(); out.push_back({'>', n, {}}); }
			else if (s[i] == '<') {
				i++; Node e{'<', name(), {}}; if (!err.empty()) return false;
				if (open.empty() && root) return fail("second root element");
				root = true;
				if (!attrs(e.attr)) return false;
				string n = e.name; out.push_back(e);
				if (at("/>")) { i += 2; out.push_back({'>', n, {}}); } else if (at(">")) { i++; open.push_back(n); } else return fail("tag does not end");
			} else {
				size_t e = s.find('<', i); if (e == string::npos) e = s.size();
				string raw = s.substr(i, e - i), t; if (raw.find("]]>") != string::npos) return fail("]]> in text"); if (!refs(raw, t)) return false;
				size_t b = 0, z = t.size(); while (b < z && ws(t[b])) b++; while (z > b && ws(t[z - 1])) z--;
				if (z > b) { if (open.empty()) return fail("text outside of the root element"); out.push_back({'t', t.substr(b, z - b), {}}); }
				i = e;
			}
		}
		if (!open.empty()) return fail("element " + open.back() + " is not closed");
		if (!root) return fail("no root element");
		return true;
	}
};

// ---- what was drawn -------------------------------------------------------------------------------------------------
struct Want { string key; char type; string text; vector<long double> nums; };         // 's' string, 'n' number, 'p' points
struct WNode { char kind; string name; vector<Want> attr; };
struct Doc { vector<WNode> nodes; long double x0 = 0, y0 = 0, x1 = 0, y1 = 0, mag = 0; bool any = false; };
void grow(Doc& d, long double x, long double y) { d.x0 = std::min(d.x0, x); d.x1 = std::max(d.x1, x); d.y0 = std::min(d.y0, y); d.y1 = std::max(d.y1, y); d.mag = std::max({d.mag, fabsl(x), fabsl(y)}); }

bool number(const string& t, long double& v) {          // SVG number
	size_t i = 0; auto dig = [&] { size_t b = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++; return i - b; };
	if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++;
	size_t a = dig(), f = 0; if (i < t.size() && t[i] == '.') { i++; f = dig(); if (!f) return false; }
	if (!a && !f) return false;
	if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; if (!dig()) return false; }
	if (i != t.size()) return false;
	v = strtold(t.c_str(), nullptr); return true;
}
bool numbers(const string& t, vector<long double>& v) { string cur; bool ok = true; auto flush = [&] { if (cur.empty()) return; long double x; if (number(cur, x)) v.push_back(x); else ok = false; cur.clear(); }; for (char c : t) if (Xml::ws(c) || c == ',') flush(); else cur += c; flush(); return ok; }
bool sixDigits(long double got, long double want) { return fabsl(got - want) <= 5.0001e-6L * fabsl(want) + 1e-4000L; }
string squeeze(const string& s) { string r; for (char c : s) if (!Xml::ws(c)) r += c; return r; }

string differ(const vector<Node>& g, size_t b, size_t e, const Doc& d) {
	if (e - b != d.nodes.size()) return fmt("%zu parts instead of %zu", e - b, d.nodes.size());
	for (size_t k = 0; k < d.nodes.size(); k++) {
		auto& n = g[b + k]; auto& w = d.nodes[k];
		if (n.kind != w.kind) return fmt("part %zu (%s) is of kind %c instead of %c (%s)", k, n.name.c_str(), n.kind, w.kind, w.name.c_str());
		if (w.kind == '!' || w.kind == 't') { if (squeeze(n.name) != squeeze(w.name)) return fmt("part %zu says %s instead of %s", k, sim::quote(n.name).c_str(), sim::quote(w.name).c_str()); continue; }
		if (n.name != w.name) return fmt("part %zu is %s instead of %s", k, n.name.c_str(), w.name.c_str());
		if (w.kind == '>') continue;
		for (auto& x : n.attr) { bool f = false; for (auto& y : w.attr) f = f || y.key == x.first; if (!f) return fmt("part %zu (%s) has the unexpected attribute %s", k, n.name.c_str(), x.first.c_str()); }
		for (auto& y : w.attr) {
			const string* v = nullptr; for (auto& x : n.attr) if (x.first == y.key) v = &x.second;
			if (!v) return fmt("part %zu (%s) lacks the attribute %s", k, n.name.c_str(), y.key.c_str());
			if (y.type == 's') { if (*v != y.text) return fmt("attribute %s of part %zu (%s) is %s instead of %s", y.key.c_str(), k, n.name.c_str(), v->c_str(), y.text.c_str()); continue; }
			vector<long double> u; if (!numbers(*v, u)) return fmt("attribute %s of part %zu (%s) is not numeric: %s", y.key.c_str(), k, n.name.c_str(), sim::quote(*v).c_str());
			bool ok = u.size() == y.nums.size(); for (size_t j = 0; ok && j < u.size(); j++) ok = sixDigits(u[j], y.nums[j]);
			if (!ok) { string ws; for (auto x : y.nums) ws += fmt("%.8Lg ", x); return fmt("attribute %s of part %zu (%s) is %s instead of %s", y.key.c_str(), k, n.name.c_str(), v->c_str(), ws.c_str()); }
		}
	}
	return "";
}
// "" if the text is exactly the document; mal: whether it is malformed
string judge(const string& text, const Doc& d, bool& mal) {
	Xml x; x.s = text; mal = false;
	if (!x.parse()) { mal = true; return x.err; }
	if (x.out.size() < 2 || x.out[0].kind != '<' || x.out[0].name != "svg" || x.out.back().name != "svg") return "the document is not one svg element";
	string vb, ns; for (auto& a : x.out[0].attr) { if (a.first == "viewBox") vb = a.second; if (a.first == "xmlns") ns = a.second; }
	if (ns != "http://www.w3.org/2000/svg") return "the svg element is not in the SVG name space";
	vector<long double> v; if (!numbers(vb, v) || v.size() != 4) return "viewBox is " + sim::quote(vb);
	string e = differ(x.out, 1, x.out.size() - 1, d);
	if (!e.empty()) return e;
	long double tol = 2.1e-6L + d.mag * 1e-15L, fy = true ? -d.y1 : d.y0;
	if (fabsl(v[0] - d.x0) > tol || fabsl(v[1] - fy) > tol || fabsl(v[2] - (d.x1 - d.x0)) > tol || fabsl(v[3] - (d.y1 - d.y0)) > tol)
		return fmt("viewBox is \"%s\" instead of \"%Lf %Lf %Lf %Lf\"", vb.c_str(), d.x0, fy, d.x1 - d.x0, d.y1 - d.y0);
	return "";
}
// model across the process boundary
void ser(string& s, const void* p, size_t n) { s.append((const char*)p, n); }
void serS(string& s, const string& t) { u32 n = (u32)t.size(); ser(s, &n, 4); s += t; }
string save(const Doc& d) { string s; long double b[5] = {d.x0, d.y0, d.x1, d.y1, d.mag}; ser(s, b, sizeof b); u32 n = (u32)d.nodes.size(); ser(s, &n, 4); for (auto& w : d.nodes) { s += w.kind; serS(s, w.name); u32 k = (u32)w.attr.size(); ser(s, &k, 4); for (auto& a : w.attr) { serS(s, a.key); s += a.type; serS(s, a.text); u32 c = (u32)a.nums.size(); ser(s, &c, 4); ser(s, a.nums.data(), c * sizeof(long double)); } } return s; }
Doc load(const string& s) { Doc d; size_t i = 0; auto get = [&](void* p, size_t n) { std::memcpy(p, s.data() + i, n); i += n; }; auto str = [&] { u32 n; get(&n, 4); string t = s.substr(i, n); i += n; return t; }; long double b[5]; get(b, sizeof b); d.x0 = b[0]; d.y0 = b[1]; d.x1 = b[2]; d.y1 = b[3]; d.mag = b[4]; u32 n; get(&n, 4); while (n--) { WNode w; w.kind = s[i++]; w.name = str(); u32 k; get(&k, 4); while (k--) { Want a; a.key = str(); a.type = s[i++]; a.text = str(); u32 c; get(&c, 4); a.nums.resize(c); get(a.nums.data(), c * sizeof(long double)); w.attr.push_back(a); } d.nodes.push_back(w); } return d; }

// ---- drawing ----------------------------------------------------------------------------------------------------------
long double coord() {
	switch (choose(8)) {
		case 0: return 0;
		case 1: case 2: return (long double)choose(41) - 20;
		case 3: return ((long double)choose(20001) - 10000) / 100;
		case 4: return ((long double)choose(2000001) - 1000000);
		case 5: return (choose(2) ? -1 : 1) * (1 + (long double)choose(1000) / 1000) * powl(10, (int)choose(20) - 8);
		case 6: return (long double)sim::range(-1000000000000000000, 1000000000000000000);
		default: return (choose(2) ? -1 : 1) * ldexpl(1 + (long double)choose(1000) / 1000, (int)choose(400) - 60);
	}
}
long double len() { return fabsl(coord()); }
Color colour() { switch (choose(3)) { case 0: { static const Color k[] = {BLACK, DARKGRAY, GRAY, LIGHTGRAY, WHITE, RED, GREEN, BLUE, YELLOW, MAGENTA, CYAN}; return k[choose(11)]; } case 1: return Color((std::uint8_t)choose(256)); default: return Color((u32)sim::word() & 0xFFFFFF); } }
string hex(const Color& c) { return fmt("#%02x%02x%02x", c.r, c.g, c.b); }
Stroke stroke(vector<Want>& w) {
	Color c = colour(); long double wd = len(); bool scale = choose(3) != 0;
	Stroke s = scale && choose(2) ? Stroke(c, wd) : Stroke(c, wd, scale);
	w.push_back({"stroke", 's', hex(c), {}}); w.push_back({"stroke-width", 'n', "", {wd}});
	if (int k = (int)choose(4)) { static const Linecap lc[] = {Linecap::BUTT, Linecap::ROUND, Linecap::SQUARE}; static const char* n[] = {"butt", "round", "square"}; s.linecap = lc[k - 1]; w.push_back({"stroke-linecap", 's', n[k - 1], {}}); }
	if (int k = (int)choose(4)) { static const Linejoin lj[] = {Linejoin::ROUND, Linejoin::BEVEL, Linejoin::MITER}; static const char* n[] = {"round", "bevel", "miter"}; s.linejoin = lj[k - 1]; w.push_back({"stroke-linejoin", 's', n[k - 1], {}}); }
	if (!scale) w.push_back({"vector-effect", 's', "non-scaling-stroke", {}});
	return s;
}
void style(std::optional<Stroke>& st, std::optional<Fill>& fi, vector<Want>& w) {
	if (choose(3)) st = stroke(w); else w.push_back({"stroke", 's', "none", {}});
	if (choose(2)) { Color c = colour(); if (choose(2)) fi = c; else fi = Fill(c); w.push_back({"fill", 's', hex(c), {}}); } else w.push_back({"fill", 's', "none", {}});
}
long double up(long double y) { return -y; }
string comment() {
	static const char* const part[] = {"a", "point", " ", "-", "--", "--->", "<", ">", "&", "\"", "\n", "\xC3\xA4", "1", "x", "- ", "\xE2\x82\xAC", "]]>", "<!--"};
	string s; for (unsigned k = choose(7); k--;) s += part[choose(18)];
	return s;
}

struct Pen {                       // writes the same thing to the image (chained or not) and to another stream
	SVG* p; Doc d, copyDoc; std::ostringstream copy; vector<string> groups; bool big = false;
	std::ostream* chain = nullptr;
};
// how one object is written: on its own, or behind something else in one expression
template<typename T> void put(Pen& q, const T& t, const WNode& a, bool close) {
	SVG& im = *q.p;
	int how = (int)choose(7);
	sim::sig((unsigned)(how * 16 + a.name.size() % 16));
	WNode c{'!', "note", {}};
	switch (how) {
		case 0: im << t; break;
		case 1: im << t << std::endl; break;
		case 2: im << "\n" << t; sim::probe("chained behind text"); break;
		case 3: im << std::endl << t << "\n"; sim::probe("chained behind a manipulator"); break;
		case 4: im << Comment("note") << t; q.d.nodes.push_back(c); sim::probe("chained behind a comment"); break;
		case 5: im << t << Comment("note"); break;
		default: im << string(" ") << t << std::flush; sim::probe("chained behind text"); break;
	}
	if (choose(3) == 0) {
		std::ostringstream o; o << t; Xml x; x.s = "<svg>" + o.str() + "</svg>"; Doc e; e.nodes.push_back(a); if (close) e.nodes.push_back({'>', a.name, {}});
		sim::probe("copy on another stream");
		if (!x.parse(false)) BAD("copy", "the copy on another stream is malformed: %s", x.err.c_str());
		string w = differ(x.out, 1, x.out.size() - 1, e); if (!w.empty()) BAD("copy", "the copy on another stream differs: %s", w.c_str());
	}
	q.d.nodes.push_back(a); if (close) q.d.nodes.push_back({'>', a.name, {}});
	if (how == 5) q.d.nodes.push_back(c);
	q.d.any = true;
}
void draw(Pen& q) {
	int k = (int)choose(7);
	vector<Want> w;
	static const char* const names[] = {"rectangle", "circle", "ellipse", "line", "polygon", "polyline", "comment"};
	sim::probe(names[k]);
	D = names[k];
	switch (k) {
		case 0: {
			long double x = coord(), y = coord(), a = len(), b = len();
			Rectangle r = choose(2) ? Rectangle(Point(x, y), Dimension(a, b)) : choose(2) ? Rectangle(Point(x, y), a, b) : choose(2) ? Rectangle(x, y, Dimension(a, b)) : Rectangle(x, y, a, b);
			sim::ev("rectangle %Lg %Lg %Lg %Lg", x, y, a, b);
			w = {{"x", 'n', "", {x}}, {"y", 'n', "", {-(y + b)}}, {"width", 'n', "", {a}}, {"height", 'n', "", {b}}};
			style(r.stroke, r.fill, w); put(q, r, {'<', "rect", w}, true); grow(q.d, x, y); grow(q.d, x + a, y + b); break;
		}
		case 1: {
			long double x = coord(), y = coord(), a = len(); Circle c = choose(2) ? Circle(Point(x, y), a) : Circle(x, y, a);
			sim::ev("circle %Lg %Lg %Lg", x, y, a);
			w = {{"cx", 'n', "", {x}}, {"cy", 'n', "", {up(y)}}, {"r", 'n', "", {a}}};
			style(c.stroke, c.fill, w); put(q, c, {'<', "circle", w}, true); grow(q.d, x - a, y - a); grow(q.d, x + a, y + a); break;
		}
		case 2: {
			long double x = coord(), y = coord(), a = len(), b = len(); Ellipse e = choose(2) ? Ellipse(Point(x, y), a, b) : Ellipse(x, y, a, b);
			sim::ev("ellipse %Lg %Lg %Lg %Lg", x, y, a, b);
			w = {{"cx", 'n', "", {x}}, {"cy", 'n', "", {up(y)}}, {"rx", 'n', "", {a}}, {"ry", 'n', "", {b}}};
			style(e.stroke, e.fill, w); put(q, e, {'<', "ellipse", w}, true); grow(q.d, x - a, y - b); grow(q.d, x + a, y + b); break;
		}
		case 3: {
			long double x = coord(), y = coord(), a = coord(), b = coord(); Line l = choose(2) ? Line(Point(x, y), Point(a, b)) : Line(x, y, a, b);
			sim::ev("line %Lg %Lg %Lg %Lg", x, y, a, b);
			w = {{"x1", 'n', "", {x}}, {"y1", 'n', "", {up(y)}}, {"x2", 'n', "", {a}}, {"y2", 'n', "", {up(b)}}};
			style(l.stroke, l.fill, w); put(q, l, {'<', "line", w}, true); grow(q.d, x, y); grow(q.d, a, b); break;
		}
		case 4: case 5: {
			vector<Point> ps; Want pw{"points", 'p', "", {}};
			unsigned most = choose(10) ? 6 : choose(20) || q.big ? 40 : 3000; if (most > 40) q.big = true;
			for (unsigned n = choose(most); n--;) { long double x = coord(), y = coord(); ps.emplace_back(x, y); pw.nums.push_back(x); pw.nums.push_back(up(y)); }
			sim::ev("%s of %zu points", names[k], ps.size());
			w = {pw};
			if (k == 4) { Polygon p = choose(2) ? Polygon(ps) : Polygon(); p.points = ps; style(p.stroke, p.fill, w); put(q, p, {'<', "polygon", w}, true); }
			else { Polyline p = choose(2) ? Polyline(ps) : Polyline(); p.points = ps; style(p.stroke, p.fill, w); put(q, p, {'<', "polyline", w}, true); }
			for (auto& p : ps) grow(q.d, p.x, p.y);
			break;
		}
		default: { string c = comment(); D = "comment " + sim::quote(c); sim::evData("comment", c.data(), c.size()); put(q, Comment(c), {'!', c, {}}, false); }
	}
}
void group(Pen& q) {
	SVG& im = *q.p;
	if (!q.groups.empty() && choose(2)) { sim::ev("close group"); if (choose(2)) im << "</" << q.groups.back() << ">" << std::endl; else im << "</" + q.groups.back() + ">"; q.d.nodes.push_back({'>', q.groups.back(), {}}); q.groups.pop_back(); return; }
	sim::ev("group"); sim::probe("group");
	vector<Want> w;
	if (choose(4) == 0) { int x = (int)choose(100); im << "<text " << attribute("x", x) << attribute("y", string("7")) << ">" << x << " apples</text>\n"; q.d.nodes.push_back({'<', "text", {{"x", 'n', "", {(long double)x}}, {"y", 'n', "", {7}}}}); q.d.nodes.push_back({'t', fmt("%d apples", x), {}}); q.d.nodes.push_back({'>', "text", {}}); q.d.any = true; return; }
	if (choose(2)) { Stroke s = stroke(w); Fill f(colour()); w.push_back({"fill", 's', hex(f.color), {}}); im << "<g " << s << f << ">"; }
	else { std::optional<Color> c; if (choose(2)) { c = colour(); w.push_back({"fill", 's', hex(*c), {}}); } w.push_back({"id", 's', "g", {}}); im << "<g " << attribute("fill", c) << attribute("id", "g") << ">" << std::endl; }
	q.d.nodes.push_back({'<', "g", w}); q.groups.push_back("g"); q.d.any = true;
}
void colours() {
	Color a = colour(), b = colour();
	D = fmt("colours and sizes %s, %s", hex(a).c_str(), hex(b).c_str()); sim::probe("colour arithmetic");
	auto lim = [](int v) { return (u8)(v < 0 ? 0 : v > 255 ? 255 : v); };
	auto eq = [&](const Color& g, int r, int gg, int bb, const char* what) { if (g.r != lim(r) || g.g != lim(gg) || g.b != lim(bb)) BAD("colour", "%s gives %s", what, hex(g).c_str()); };
	eq(a + b, a.r + b.r, a.g + b.g, a.b + b.b, "+"); eq(a - b, a.r - b.r, a.g - b.g, a.b - b.b, "-");
	Color t = a; t += b; eq(t, a.r + b.r, a.g + b.g, a.b + b.b, "+="); t = a; t -= b; eq(t, a.r - b.r, a.g - b.g, a.b - b.b, "-=");
	long double f; switch (choose(6)) { case 0: f = 1; break; case 1: f = 0; break; case 2: f = -(long double)choose(1000) / 16; break; case 3: f = (long double)choose(64) / 64; break; case 4: f = ldexpl(1, (int)choose(200)) * (choose(2) ? -1 : 1); break; default: f = (long double)choose(100000) / 7; }
	Color s1 = a * f, s2 = f * a; t = a; t *= f; long double q = (long double)choose(65) / 64; Color l = lerp(a, b, q);
	for (size_t i = 0; i < 3; i++) {
		long double v = a[i] * f; v = v < 0 ? 0 : v > 255 ? 255 : v;
		if (fabsl(s1[i] - v) > 0.5000001L || s2[i] != s1[i] || t[i] != s1[i]) BAD("colour", "scaling by %Lg: channel %zu gives %d, %d, %d, expected about %Lg", f, i, s1[i], s2[i], t[i], v);
		v = a[i] * q + b[i] * (1 - q); if (fabsl(l[i] - v) > 1.01L) BAD("colour", "lerp by %Lg: channel %zu gives %d, expected about %Lg", q, i, l[i], v);
	}
	std::ostringstream o; o << a << ' ' << 255; if (o.str() != hex(a) + " 255") BAD("colour", "printing a colour and a number gives %s", sim::quote(o.str()).c_str());
	u32 rgb = (u32)sim::word() & (choose(2) ? 0xFFFFFFFF : 0xFFFFFF); Color k(rgb);
	if (hex(k) != fmt("#%06x", rgb & 0xFFFFFF)) BAD("colour", "Color(0x%06x) is %s", rgb, hex(k).c_str());
	u8 gr = (u8)choose(256); if (hex(Color(gr)) != fmt("#%02x%02x%02x", gr, gr, gr)) BAD("colour", "grey %d is %s", gr, hex(Color(gr)).c_str());
	if (hex(Color()) != "#000000") BAD("colour", "the default colour is %s", hex(Color()).c_str());
	static const std::pair<Color, const char*> named[] = {{BLACK, "#000000"}, {DARKGRAY, "#404040"}, {GRAY, "#808080"}, {LIGHTGRAY, "#c0c0c0"}, {WHITE, "#ffffff"}, {RED, "#ff0000"}, {GREEN, "#00ff00"}, {BLUE, "#0000ff"}, {YELLOW, "#ffff00"}, {MAGENTA, "#ff00ff"}, {CYAN, "#00ffff"}};
	for (auto& [c, h] : named) if (hex(c) != h) BAD("colour", "the colour named %s is %s", h, hex(c).c_str());
	const Color ck = k;
	for (size_t i = 0; i < 3; i++) {
		u8 v = (u8)(rgb >> (16 - 8 * i));
		if (k[i] != v || ck[i] != v || Color(rgb)[i] != v) BAD("colour", "channel %zu of Color(0x%06x) reads %d, %d, %d", i, rgb, k[i], ck[i], Color(rgb)[i]);
		Color m = k; m[i] = (u8)(v + 1); u32 nv = rgb & 0xFFFFFF; nv = (nv & ~(255u << (16 - 8 * i))) | ((u32)(u8)(v + 1) << (16 - 8 * i));
		if (hex(m) != fmt("#%06x", nv)) BAD("colour", "writing channel %zu of %s gives %s", i, hex(k).c_str(), hex(m).c_str());
	}
	{ size_t i = 3 + choose(5); int refused = 0; try { (void)k[i]; } catch (const std::out_of_range&) { refused++; } try { (void)ck[i]; } catch (const std::out_of_range&) { refused++; } try { (void)Color(rgb)[i]; } catch (const std::out_of_range&) { refused++; } if (refused != 3) BAD("colour", "channel %zu is not refused", i); }
	{
		auto num = [] { return (long double)sim::range(-4000, 4000) / 8; };
		Point p0(num(), num()); Dimension d0(num(), num()), d1(num(), num());
		auto ck = [&](const char* what, long double x, long double y, long double wx, long double wy) { if (x != wx || y != wy) BAD("arithmetic", "%s gives (%Lg,%Lg), expected (%Lg,%Lg)", what, x, y, wx, wy); };
		Point pp = p0 + d0, pm = p0 - d0, pa = p0, ps = p0; Point& ra = pa += d0; Point& rs = ps -= d0; ra += d1; rs -= d1;
		ck("point + dimension", pp.x, pp.y, p0.x + d0.width, p0.y + d0.height); ck("point - dimension", pm.x, pm.y, p0.x - d0.width, p0.y - d0.height);
		ck("point += dimension", pa.x, pa.y, p0.x + d0.width + d1.width, p0.y + d0.height + d1.height); ck("point -= dimension", ps.x, ps.y, p0.x - d0.width - d1.width, p0.y - d0.height - d1.height);
		Dimension dp = d0 + d1, dm = d0 - d1, da = d0, ds = d0; Dimension& qa = da += d1; Dimension& qs = ds -= d1; qa += d1; qs -= d1;
		ck("dimension + dimension", dp.width, dp.height, d0.width + d1.width, d0.height + d1.height); ck("dimension - dimension", dm.width, dm.height, d0.width - d1.width, d0.height - d1.height);
		ck("dimension += dimension", da.width, da.height, d0.width + d1.width + d1.width, d0.height + d1.height + d1.height); ck("dimension -= dimension", ds.width, ds.height, d0.width - d1.width - d1.width, d0.height - d1.height - d1.height);
	}
	if ((a == b) != (hex(a) == hex(b)) || (a != b) == (a == b)) BAD("colour", "comparison is wrong");
}
void record(const Doc& d) { sim::put(fmt("/model/%zu", (size_t)sim::W->histLen), save(d)); sim::W->histLen++; }
bool empty(const Pen& q) { return !q.d.any; }

void body(int kind, unsigned nops, int fault) {
	static char a0[] = "/sim/vis", a1[] = "/sim/img"; char* av[] = {a0, a1, nullptr};
	Pen q;
	if (kind == 0) {
		Visualizer::init(2, av); q.p = &Visualizer::image;
		string a, b; Visualizer::testIn >> a; Visualizer::testAns >> b; D = "Visualizer::init";
		if (!fault && (a != "input" || b != "answer")) BAD("test-input", "testIn and testAns deliver %s and %s", sim::quote(a).c_str(), sim::quote(b).c_str());
	} else if (kind == 4) q.p = new SVG();
	else q.p = new SVG("/sim/img.svg");
	for (unsigned k = 0; k < nops && !sim::W->violated; k++) {
		switch (choose(12)) {
			default: draw(q); break;
			case 6: case 7: group(q); break;
			case 8: { long double x = coord(), y = coord(); sim::ev("includeInBB %Lg %Lg", x, y); sim::probe("includeInBB"); q.p->includeInBB(Point(x, y)); grow(q.d, x, y); break; }
			case 9: {
				long double m = choose(2) ? (long double)choose(10) : len(); sim::ev("margin %Lg", m); sim::probe("margin");
				Dimension e(m, m); q.p->origin -= e; q.p->dimension += e + e;
				q.d.x0 -= m; q.d.y0 -= m; q.d.x1 += m; q.d.y1 += m; q.d.mag = std::max(q.d.mag * 2, 4 * m); break;
			}
			case 10:
				if (kind == 2 || kind == 3) { SVG* n = new SVG(choose(2) ? SVG() : SVG("/sim/other.svg")); *n = std::move(*q.p); delete q.p; q.p = n; sim::ev("move assignment"); sim::probe("move assignment"); }
				else colours();
				break;
			case 11: {
				if (!q.groups.empty()) break;
				sim::ev("write()"); sim::probe("explicit write"); D = "explicit write";
				if (!empty(q) && kind != 4) record(q.d);
				q.p->write();
				if (!fault && !empty(q) && kind != 4) { bool mal; string e = judge(sim::get("/sim/img.svg"), q.d, mal); if (!e.empty()) BAD(mal ? "malformed" : "explicit-write", "%s", e.c_str()); }
			}
		}
	}
	while (!q.groups.empty() && !sim::W->violated) { *q.p << "</" << q.groups.back() << ">"; q.d.nodes.push_back({'>', q.groups.back(), {}}); q.groups.pop_back(); }
	D = "destructor";
	if (!empty(q) && kind != 4) record(q.d);
	if (kind) delete q.p;
}
void run(bool faults) {
	int kind = (int)choose(5); unsigned nops = sim::chance(1, 120) ? 200 + choose(300) : 1 + choose(choose(6) ? 10 : 40); bool stale = choose(3) == 0;
	sim::W->nontrivial = true; sim::W->histLen = 0;
	if (choose(3) == 0) { sim::plan.shortWrite = 2; sim::plan.eintr = 3; sim::plan.shortRead = 2; }
	static const u8 fills[] = {0xA5, 0, 0xFF}; sim::plan.fill = fills[choose(3)];
	string old; if (stale) { old.assign(500 + choose(2000), 'O'); sim::put("/sim/img.svg", old); sim::fired(sim::F_STALE); }
	sim::put("/sim/img.in", "input 1\n"); sim::put("/sim/img.ans", "answer 2\n");
	int fault = 0;
	if (faults) {
		long at = (long)choose(choose(2) ? 3 : 12);
		switch (fault = 1 + (int)choose(5)) {
			case 1: sim::plan.enospc = at; sim::plan.enospcSticky = choose(2); sim::plan.enospcPartial = choose(3000); break;
			case 2: sim::plan.eioWrite = at; break;
			case 3: sim::plan.openFail = (long)choose(4); break;
			case 4: sim::plan.closeFail = (long)choose(3); break;
			default: sim::plan.kill = (long)choose(40);
		}
		sim::plan.onlyPath = "img.svg";
	}
	sim::sig((unsigned)(fault * 8 + kind));
	auto st = sim::spawn([&] { body(kind, nops, fault); }, sim::EXIT_REAL);
	sim::plan = sim::Plan{};
	static const char* const kinds[] = {"global", "named", "move-assigned", "move-assigned", "unnamed"};
	D = fmt("%s image%s", kinds[kind], faults ? " with fault" : "");
	if (sim::W->violated) return;
	if (st.hang) BAD("hang", "the program does not end");
	if (fault == 5 && st.killed) sim::probe("killed");
	else if (!(st.exited && st.code == 0)) BAD("crash", "the program ended with %d; stderr %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str());
	if (sim::exists("/sim/other.svg")) BAD("unexpected-file", "the file of the replaced image was written");
	size_t n = sim::W->histLen;
	if (!sim::exists("/sim/img.svg")) { if (!faults && n) BAD("no-file", "nothing was written"); sim::probe("nothing drawn"); return; }
	string f = sim::get("/sim/img.svg");
	if (stale && f == old) { if (!faults && n) BAD("no-file", "the old file is still there"); return; }
	string last; bool mal = false;
	for (size_t k = n; k-- > 0;) {
		string e = judge(f, load(sim::get(fmt("/model/%zu", k))), mal);
		if (mal) { if (!faults) BAD("malformed", "%s", e.c_str()); sim::probe("file incomplete"); return; }
		if (e.empty()) { sim::probe(k + 1 == n ? "file parsed" : "file shows an earlier write"); if (!faults && k + 1 != n) BAD("stale-image", "the file shows write %zu of %zu", k + 1, n); return; }
		if (last.empty()) last = e;
	}
	if (!n) { Xml x; x.s = f; if (!x.parse()) { sim::probe("file incomplete"); if (faults) return; } BAD("unexpected-file", "a file was written for an empty image"); }
	BAD("wrong-image", "%s", last.c_str());
}
sim::Register r1("svg", [] { run(false); }), r2("svg-faults", [] { run(true); });
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
