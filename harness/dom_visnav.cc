// Polygon maps, visibility graphs and navigation in them against exact
// visibility on lattice polygons and bitmaps.
#define VH_MAIN
#include "solver.hpp"
#include "visnav/visnav.hpp"
#include "search/search.hpp"
#include "search/astar.hpp"
using namespace vh;
typedef geom2d::Pt Pt;

struct P2 { double x, y; bool operator==(const P2 &o) const { return x == o.x && y == o.y; } bool operator<(const P2 &o) const { return x < o.x || (x == o.x && y < o.y); } };
typedef std::vector<P2> Pol;
static double cross(P2 o, P2 a, P2 b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
static double dist(P2 a, P2 b) { return hypot(a.x - b.x, a.y - b.y); }
static double ptseg(P2 p, P2 a, P2 b) {
	double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
	double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
	t = t < 0 ? 0 : t > 1 ? 1 : t;
	return dist(p, P2{a.x + t * dx, a.y + t * dy});
}
static bool crosses(P2 a, P2 b, P2 c, P2 d) {
	double p = cross(a, b, c), q = cross(a, b, d), r = cross(c, d, a), s = cross(c, d, b);
	return ((p > 0 && q < 0) || (p < 0 && q > 0)) && ((r > 0 && s < 0) || (r < 0 && s > 0));
}
static double segseg(P2 a, P2 b, P2 c, P2 d) {
	if (crosses(a, b, c, d)) return 0;
	return std::min(std::min(ptseg(a, c, d), ptseg(b, c, d)), std::min(ptseg(c, a, b), ptseg(d, a, b)));
}
static bool inside(const Pol &p, P2 q) {	// not for points on the boundary
	bool in = false;
	for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
		if ((p[i].y > q.y) != (p[j].y > q.y) && q.x < (p[j].x - p[i].x) * (q.y - p[i].y) / (p[j].y - p[i].y) + p[i].x) in = !in;
	return in;
}
static double area2(const Pol &p) { double a = 0; for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) a += p[j].x * p[i].y - p[i].x * p[j].y; return a; }
static const double Margin = 4e-5;

// A world: obstacle polygons, and possibly a boundary.
struct World {
	std::vector<Pol> obs;		// clockwise
	Pol bound;			// counter-clockwise, may be empty
	std::string text;
	double bdist(P2 q) const {
		double m = INFINITY;
		auto f = [&](const Pol &p) { for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) m = std::min(m, ptseg(q, p[i], p[j])); };
		for (auto &p : obs) f(p);
		if (!bound.empty()) f(bound);
		return m;
	}
	bool solid(P2 q) const {
		if (!bound.empty() && !inside(bound, q)) return true;
		for (auto &p : obs) if (inside(p, q)) return true;
		return false;
	}
	// 1 free, -1 blocked, 0 too close to call: the line from a to b.
	int line(P2 a, P2 b) const {
		bool close = false, hit = false;
		auto f = [&](const Pol &p) {
			for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
				if (crosses(a, b, p[j], p[i])) {
					double m = std::min(std::min(ptseg(a, p[j], p[i]), ptseg(b, p[j], p[i])), std::min(ptseg(p[i], a, b), ptseg(p[j], a, b)));
					if (m > Margin) hit = true; else close = true;
				} else if (segseg(a, b, p[j], p[i]) < Margin) close = true;
			}
		};
		for (auto &p : obs) f(p);
		if (!bound.empty()) f(bound);
		if (hit) return -1;
		// Both ends are as good as each other if nothing is near the line.
		if (bdist(a) > Margin && solid(a)) return -1;
		if (bdist(b) > Margin && solid(b)) return -1;
		return close ? 0 : 1;
	}
	// Visibility of vertices, whose lines are considered without their ends.
	int vertices(P2 a, P2 b) const {
		const double e = 1e-3;
		return line(P2{a.x + (b.x - a.x) * e, a.y + (b.y - a.y) * e}, P2{a.x + (b.x - a.x) * (1 - e), a.y + (b.y - a.y) * (1 - e)});
	}
	PolyMap map() const {
		std::vector<geom2d::Poly> ps;
		for (auto &p : obs) { std::vector<Pt> v; for (auto &q : p) v.push_back(Pt(q.x, q.y)); ps.push_back(geom2d::Poly(v)); }
		PolyMap m(ps);
		if (!bound.empty()) { std::vector<Pt> v; for (auto &q : bound) v.push_back(Pt(q.x, q.y)); m.bound = PolyMap::Bound(geom2d::Poly(v)); }
		return m;
	}
};
static std::string show(const Pol &p) { std::string s = fmt("%zu", p.size()); for (auto &q : p) s += fmt(" %g %g", q.x, q.y); return s; }
static std::string show(const World &w) {
	std::string s;
	if (!w.bound.empty()) s += "bound: " + show(w.bound) + "/";
	for (auto &p : w.obs) s += show(p) + "/";
	return s;
}
static Pol pol(const geom2d::Poly &p) { Pol r; for (auto &v : p.verts) r.push_back(P2{v.x, v.y}); return r; }

// Removes vertices on straight lines.
static Pol straighten(Pol p) {
	for (size_t i = 0; i < p.size() && p.size() > 2; ) {
		P2 a = p[(i + p.size() - 1) % p.size()], b = p[i], c = p[(i + 1) % p.size()];
		if (cross(a, b, c) == 0) { p.erase(p.begin() + i); i = i ? i - 1 : 0; } else i++;
	}
	return p;
}
// A simple lattice polygon in the box with corner (x0,y0), or an empty one.
static Pol latticepoly(Rng &r, int x0, int y0, int sz) {
	int n = r.in(3, 8);
	std::set<std::pair<int,int> > pts;
	bool rect = r.in(0, 4) == 0;
	Pol p;
	if (rect) {
		int a = r.in(0, sz - 1), b = r.in(0, sz - 1), c = r.in(a + 1, sz), d = r.in(b + 1, sz);
		p = { P2{(double) a, (double) b}, P2{(double) a, (double) d}, P2{(double) c, (double) d}, P2{(double) c, (double) b} };
	} else {
		while ((int) pts.size() < n) pts.insert(std::make_pair((int) r.in(0, sz), (int) r.in(0, sz)));
		// Sorted around a point that isn't a vertex: a star.
		double cx = sz / 2.0 + 0.25, cy = sz / 2.0 + 0.125;
		for (auto &q : pts) p.push_back(P2{(double) q.first, (double) q.second});
		std::sort(p.begin(), p.end(), [&](P2 a, P2 b) { return atan2(a.y - cy, a.x - cx) > atan2(b.y - cy, b.x - cx); });
		p = straighten(p);
	}
	if (p.size() < 3) return Pol();
	for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) {
		P2 a = p[i], b = p[(i + 1) % p.size()], c = p[j], d = p[(j + 1) % p.size()];
		bool adj = j == i + 1 || (i == 0 && j == p.size() - 1);
		if (!adj && segseg(a, b, c, d) < 1e-9) return Pol();
	}
	if (area2(p) >= 0) return Pol();
	for (size_t i = 0; i < p.size(); i++) if (cross(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) == 0) return Pol();
	std::rotate(p.begin(), p.begin() + r.in(0, p.size() - 1), p.end());
	for (auto &q : p) { q.x += x0; q.y += y0; }
	return p;
}
static World polys(Rng &r) {
	World w;
	int nx = r.in(1, 4), ny = r.in(1, 4), sz = r.in(2, 9), step = sz + r.in(1, 3);
	for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
		if (r.in(0, 3) == 0) continue;
		Pol p = latticepoly(r, i * step, j * step, sz);
		if (!p.empty()) w.obs.push_back(p);
	}
	r.shuffle(w.obs);
	if (r.in(0, 1)) {
		double x1 = nx * step, y1 = ny * step, m = r.in(1, 4);
		w.bound = { P2{-m, -m}, P2{x1 + m, -m - r.in(0, 3)}, P2{x1 + m, y1 + m}, P2{-m - r.in(0, 2), y1 + m} };
		if (r.in(0, 1)) {	// a dent, which is a corner to walk around
			int i = r.in(0, nx - 1);
			w.bound.insert(w.bound.begin() + 1, P2{i * step + sz / 2.0, -0.5});
			// Only if it doesn't reach into an obstacle.
			for (auto &p : w.obs) for (size_t k = 0; k < p.size(); k++) for (size_t l = 0; l < w.bound.size(); l++)
				if (segseg(p[k], p[(k + 1) % p.size()], w.bound[l], w.bound[(l + 1) % w.bound.size()]) < 0.25) { w.bound.erase(w.bound.begin() + 1); k = p.size(); break; }
			if (w.bound.size() == 5 && cross(w.bound[0], w.bound[1], w.bound[2]) == 0) w.bound.erase(w.bound.begin() + 1);
		}
	}
	return w;
}

// Bitmaps whose border is blocked and whose free cells are connected.
struct Bits { int w, h; std::vector<char> b; bool at(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h || b[x * h + y]; } };
static Bits bits(Rng &r) {
	Bits m; m.w = r.in(3, 12); m.h = r.in(3, 12);
	m.b.assign(m.w * m.h, 1);
	int dens = r.in(0, 60);
	for (int x = 1; x < m.w - 1; x++) for (int y = 1; y < m.h - 1; y++) m.b[x * m.h + y] = r.in(0, 99) < dens;
	// Keep the region of one free cell.
	std::vector<int> fr; for (size_t i = 0; i < m.b.size(); i++) if (!m.b[i]) fr.push_back(i);
	if (fr.empty()) { int i = r.in(1, m.w - 2) * m.h + r.in(1, m.h - 2); m.b[i] = 0; fr.push_back(i); }
	std::vector<char> seen(m.b.size(), 0);
	std::vector<int> todo(1, r.pick(fr)); seen[todo[0]] = 1;
	while (!todo.empty()) {
		int i = todo.back(); todo.pop_back();
		int x = i / m.h, y = i % m.h, dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
		for (int k = 0; k < 4; k++) { int j = (x + dx[k]) * m.h + y + dy[k]; if (!m.at(x + dx[k], y + dy[k]) && !seen[j]) { seen[j] = 1; todo.push_back(j); } }
	}
	for (size_t i = 0; i < m.b.size(); i++) if (!seen[i]) m.b[i] = 1;
	return m;
}
static std::string show(const Bits &m) { std::string s; for (int y = 0; y < m.h; y++) { for (int x = 0; x < m.w; x++) s += m.at(x, y) ? '1' : '0'; s += '/'; } return s; }

// The polygons extracted cover the blocked cells, and nothing else.
static World extract(Rng &r, const Bits &m, PolyMap &pm) {
	std::string at = show(m);
	bool p18 = ctx.prop == "P18";
	for (int x = 0; p18 && x < m.w; x++) for (int y = 0; y < m.h; y++) for (int k = 0; k < 2; k++) {
		Pt q(x + (k ? r.real(0.01, 0.99) : 0.5), y + (k ? r.real(0.01, 0.99) : 0.5));
		stat("cells compared");
		if (pm.obstructed(q) != m.at(x, y)) fail("visnav: bitmap outline", "point %g,%g obstructed: %d, cell is %d: [%s]", q.x, q.y, (int) pm.obstructed(q), (int) m.at(x, y), at.c_str());
	}
	World w;
	if (!pm.bound) fail("visnav: bitmap outline", "no boundary: [%s]", at.c_str());
	w.bound = pol(*pm.bound);
	for (auto &p : pm.polys) w.obs.push_back(pol(p));
	if (p18) {
		// Each side follows a line between a blocked and a free cell, with the blocked one on its right.
		std::set<std::pair<P2,P2> > want, got;
		for (int x = 0; x < m.w; x++) for (int y = 0; y < m.h; y++) if (m.at(x, y)) {
			double X = x, Y = y;
			if (!m.at(x - 1, y)) want.insert(std::make_pair(P2{X, Y}, P2{X, Y + 1}));
			if (!m.at(x + 1, y)) want.insert(std::make_pair(P2{X + 1, Y + 1}, P2{X + 1, Y}));
			if (!m.at(x, y + 1)) want.insert(std::make_pair(P2{X, Y + 1}, P2{X + 1, Y + 1}));
			if (!m.at(x, y - 1)) want.insert(std::make_pair(P2{X + 1, Y}, P2{X, Y}));
		}
		std::vector<Pol> all = w.obs; all.push_back(w.bound);
		for (auto &p : all) for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
			P2 a = p[j], b = p[i];
			if (a.x != b.x && a.y != b.y) fail("visnav: bitmap outline", "slanted side: [%s]", at.c_str());
			int n = lround(fabs(b.x - a.x) + fabs(b.y - a.y));
			double dx = (b.x - a.x) / n, dy = (b.y - a.y) / n;
			for (int k = 0; k < n; k++) got.insert(std::make_pair(P2{a.x + k * dx, a.y + k * dy}, P2{a.x + (k + 1) * dx, a.y + (k + 1) * dy}));
		}
		if (want != got) fail("visnav: bitmap outline", "%zu unit sides, should be %zu: [%s]", got.size(), want.size(), at.c_str());
		stat("outlines compared");
	}
	return w;
}

static void comparemaps(const PolyMap &a, const PolyMap &b, const std::string &at) {
	bool same = a.polys.size() == b.polys.size() && (bool) a.bound == (bool) b.bound;
	for (size_t i = 0; same && i < a.polys.size(); i++) same = pol(a.polys[i]) == pol(b.polys[i]);
	if (same && a.bound) same = pol(*a.bound) == pol(*b.bound);
	if (!same) fail("visnav: a saved map reads back differently", "%s", at.c_str());
}
static std::set<std::pair<unsigned,unsigned> > edges(const VisGraph &g) {
	std::set<std::pair<unsigned,unsigned> > s;
	for (auto &v : g.verts) for (auto &e : v.edges) s.insert(std::make_pair(e.src, e.dst));
	return s;
}

// Checks the edges of the graph; verts beyond nobst were added.
static void checkgraph(const VisGraph &g, const World &w, const std::string &at) {
	for (size_t i = 0; i < g.verts.size(); i++) {
		auto &v = g.verts[i];
		if (v.id != i) fail("visnav: vertex number", "%u at %zu: %s", v.id, i, at.c_str());
		for (auto &e : v.edges) {
			if (e.src != i || e.dst >= g.verts.size()) fail("visnav: edge ends", "%u-%u at vertex %zu: %s", e.src, e.dst, i, at.c_str());
			double l = hypot(v.pt.x - g.verts[e.dst].pt.x, v.pt.y - g.verts[e.dst].pt.y);
			if (fabs(l - e.dist) > 1e-9 * (1 + l)) fail("visnav: edge cost is not its length", "%u-%u: %.12g, length %.12g: %s", e.src, e.dst, e.dist, l, at.c_str());
		}
	}
	auto es = edges(g);
	// Sides of obstacles
	std::set<std::pair<P2,P2> > sides;
	std::vector<Pol> all = w.obs; if (!w.bound.empty()) all.push_back(w.bound);
	for (auto &p : all) for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) { sides.insert(std::make_pair(p[i], p[j])); sides.insert(std::make_pair(p[j], p[i])); }
	for (unsigned i = 0; i < g.verts.size(); i++) for (unsigned j = i + 1; j < g.verts.size(); j++) {
		P2 a{g.verts[i].pt.x, g.verts[i].pt.y}, b{g.verts[j].pt.x, g.verts[j].pt.y};
		bool e = es.count(std::make_pair(i, j)), f = es.count(std::make_pair(j, i));
		if (e != f) fail("visnav: one-way edge", "%u-%u: %s", i, j, at.c_str());
		if (a == b) continue;
		int want = w.vertices(a, b);
		bool side = sides.count(std::make_pair(a, b));
		if (side) { want = 1; stat("sides"); }
		stat(want > 0 ? "visible pairs" : want < 0 ? "hidden pairs" : "undecided pairs");
		if (want && e != (want > 0)) fail(want > 0 ? "visnav: visible vertices not connected" : "visnav: edge through an obstacle",
			"%g,%g and %g,%g (%u, %u)%s: %s", a.x, a.y, b.x, b.y, i, j, side ? ", a side" : "", at.c_str());
	}
}
// The vertices of the graph are the corners that paths can bend around.
static void checkverts(const VisGraph &g, const World &w, const std::string &at) {
	std::multiset<P2> want, got;
	std::vector<Pol> all = w.obs; if (!w.bound.empty()) all.push_back(w.bound);
	for (auto &p : all) for (size_t i = 0; i < p.size(); i++) if (cross(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) < 0) want.insert(p[i]);
	for (auto &v : g.verts) got.insert(P2{v.pt.x, v.pt.y});
	for (auto &q : want) if (got.count(q) < want.count(q)) fail("visnav: corner missing in the graph", "%g,%g: %s", q.x, q.y, at.c_str());
}
// The length of the shortest path from a to b, over all corners, by edges
// that are certainly free, or by those that are not certainly blocked.
static double shortest(const World &w, P2 a, P2 b, bool sure) {
	std::vector<P2> v = { a, b };
	std::vector<Pol> all = w.obs; if (!w.bound.empty()) all.push_back(w.bound);
	std::set<std::pair<P2,P2> > sides;
	// Where two blocked cells touch at a corner there's no way between them.
	std::map<P2,int> times;
	for (auto &p : all) for (auto &q : p) times[q]++;
	for (auto &p : all) for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) { if (times[p[i]] == 1) v.push_back(p[i]); sides.insert(std::make_pair(p[i], p[j])); sides.insert(std::make_pair(p[j], p[i])); }
	std::vector<double> d(v.size(), INFINITY); std::vector<char> done(v.size(), 0);
	d[0] = 0;
	for (;;) {
		int k = -1;
		for (size_t i = 0; i < v.size(); i++) if (!done[i] && d[i] < INFINITY && (k < 0 || d[i] < d[k])) k = i;
		if (k < 0) return INFINITY;
		if (k == 1) return d[1];
		done[k] = 1;
		for (size_t i = 0; i < v.size(); i++) {
			if (done[i]) continue;
			double l = dist(v[k], v[i]);
			if (d[k] + l >= d[i]) continue;
			int s = sides.count(std::make_pair(v[k], v[i])) ? 1 : w.vertices(v[k], v[i]);
			if (sure ? s > 0 : s >= 0) d[i] = d[k] + l;
		}
	}
}

struct VRef : dt::Ref {
	const VisGraph *g; int start, finish;
	std::string key(int i) { return fmt("%d\n", i); }
	std::string init() { return key(start); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) { for (auto &e : g->verts[atoi(k.c_str())].edges) out.push_back(dt::Succ{key(e.dst), e.dist}); }
	bool goal(const std::string &k) { return atoi(k.c_str()) == finish; }
};

template<class F> static std::string tostr(F f) { char *b = NULL; size_t n = 0; FILE *o = open_memstream(&b, &n); f(o); fclose(o); std::string s(b, n); free(b); return s; }

static void world(Rng &r, bool bitmap) {
	World w; std::string at;
	std::unique_ptr<PolyMap> pm;
	if (bitmap) {
		Bits m = bits(r);
		at = show(m);
		note("bitmap [%s]", at.c_str());
		std::unique_ptr<bool[]> b(new bool[m.w * m.h]);
		for (int i = 0; i < m.w * m.h; i++) b[i] = m.b[i];
		pm.reset(new PolyMap(b.get(), m.w, m.h));
		w = extract(r, m, *pm);
		if (ctx.prop == "P18" && getenv("PROG_pbm2poly") && r.in(0, 29) == 0) {
			std::string t = fmt("P1\n%s%d %d\n", r.in(0, 1) ? "# a comment\n" : "", m.w, m.h);
			for (int y = 0; y < m.h; y++) { for (int x = 0; x < m.w; x++) t += m.at(x, y) ? (x ? " 1" : "1") : (x ? " 0" : "0"); t += '\n'; }
			Child c = run({ getenv("PROG_pbm2poly") }, t, 20, scratch());
			if (!c.sane() || c.code) fail("visnav: pbm2poly", "%s: [%s]", c.describe().c_str(), at.c_str());
			FILE *f = dt::memfile(c.out); PolyMap q(f); fclose(f);
			comparemaps(*pm, q, at + " by pbm2poly");
			stat("maps of pbm2poly");
		}
		if (ctx.prop == "P18" && getenv("PROG_grid2poly") && r.in(0, 14) == 0) {
			// Grids are surrounded by blocked cells already; the first line is the top.
			bool oct = r.in(0, 1), lvl = r.in(0, 1);
			std::string t = lvl ? fmt(" 1 %d %d 0\n", m.w, m.h) : oct ? fmt("type octile\nheight %d\nwidth %d\nmap\n", m.h - 2, m.w - 2) : fmt("%d %d\nBoard:\n", m.h - 2, m.w - 2);
			for (int k = !lvl; k < m.h - !lvl; k++) {
				int y = lvl || !oct ? m.h - k - 1 : k;
				for (int x = !lvl; x < m.w - !lvl; x++) t += lvl ? (m.at(x, y) ? '#' : " wdDuU"[r.in(0, 5)]) : oct ? (m.at(x, y) ? "@OTW"[r.in(0, 3)] : ".G"[r.in(0, 1)]) : m.at(x, y) ? '#' : ' ';
				t += '\n';
			}
			if (!lvl && !oct) t += "Unit\nFour-way\n1 1 1 1\n";
			const char *name = lvl ? "plat2poly" : "grid2poly";
			Child c = run({ getenv((std::string("PROG_") + name).c_str()) }, t, 20, scratch());
			if (!c.sane() || c.code) fail(std::string("visnav: ") + name, "%s: [%s]", c.describe().c_str(), t.c_str());
			FILE *f = dt::memfile(c.out); PolyMap q(f); fclose(f);
			comparemaps(*pm, q, at + " by " + name + " from [" + t + "]");
			stat(std::string("maps of ") + name);
		}
	} else {
		w = polys(r);
		at = show(w);
		note("polygons %s", at.c_str());
		pm.reset(new PolyMap(w.map()));
	}
	if (w.obs.empty() && w.bound.empty()) return;
	double lox = INFINITY, loy = INFINITY, hix = -INFINITY, hiy = -INFINITY;
	auto ext = [&](const Pol &p) { for (auto &q : p) { lox = std::min(lox, q.x); loy = std::min(loy, q.y); hix = std::max(hix, q.x); hiy = std::max(hiy, q.y); } };
	for (auto &p : w.obs) ext(p);
	if (!w.bound.empty()) ext(w.bound);
	if (ctx.prop == "P18") {
		Pt mn = pm->min(), mx = pm->max();
		if (mn.x != lox || mn.y != loy || mx.x != hix || mx.y != hiy) fail("visnav: extent", "%g,%g to %g,%g, should be %g,%g to %g,%g: %s", mn.x, mn.y, mx.x, mx.y, lox, loy, hix, hiy, at.c_str());
		std::string t = tostr([&](FILE *f) { pm->output(f); });
		FILE *f = dt::memfile(t); PolyMap q(f); fclose(f);
		comparemaps(*pm, q, at);
		stat("maps read back");
		// Points and lines anywhere
		for (int k = 0; k < 30; k++) {
			P2 a{r.real(lox - 1, hix + 1), r.real(loy - 1, hiy + 1)}, b{r.real(lox - 1, hix + 1), r.real(loy - 1, hiy + 1)};
			if (r.in(0, 2) == 0) { a = P2{floor(a.x) + r.in(1, 7) / 8.0, floor(a.y) + r.in(1, 7) / 8.0}; b = P2{floor(b.x) + r.in(1, 7) / 8.0, floor(b.y) + r.in(1, 7) / 8.0}; }
			if (w.bdist(a) < 1e-3) continue;
			stat("points");
			if (pm->obstructed(Pt(a.x, a.y)) != w.solid(a)) fail("visnav: obstruction", "%.12g,%.12g: %d: %s", a.x, a.y, (int) !w.solid(a), at.c_str());
			if (w.solid(a) || w.bdist(b) < 1e-3 || w.solid(b)) continue;
			int v = w.line(a, b);
			if (v) { stat(v > 0 ? "lines in sight" : "lines out of sight"); if (pm->isvisible(Pt(a.x, a.y), Pt(b.x, b.y)) != (v > 0)) fail("visnav: visibility of points", "%.12g,%.12g to %.12g,%.12g: %d: %s", a.x, a.y, b.x, b.y, (int) !(v > 0), at.c_str()); }
		}
	}
	VisGraph built(*pm);
	std::unique_ptr<VisGraph> g(new VisGraph(built));
	if (ctx.prop == "P18") {
		checkgraph(*g, w, at);
		checkverts(*g, w, at);
		stat("graphs");
		std::string t = tostr([&](FILE *f) { built.output(f); });
		FILE *f = dt::memfile(t); VisGraph q(f); fclose(f);
		comparemaps(built.map, q.map, at);
		bool same = q.verts.size() == built.verts.size();
		for (size_t i = 0; same && i < q.verts.size(); i++) {
			auto &a = q.verts[i], &b = built.verts[i];
			same = a.id == b.id && a.pt.x == b.pt.x && a.pt.y == b.pt.y && a.edges.size() == b.edges.size();
			for (size_t j = 0; same && j < a.edges.size(); j++) same = a.edges[j].src == b.edges[j].src && a.edges[j].dst == b.edges[j].dst && a.edges[j].dist == b.edges[j].dist;
		}
		if (!same) fail("visnav: a saved graph reads back differently", "%s", at.c_str());
		stat("graphs read back");
		if (getenv("PROG_mkgraph") && r.in(0, 29) == 0) {
			Child c = run({ getenv("PROG_mkgraph") }, tostr([&](FILE *f) { pm->output(f); }), 60, scratch());
			if (!c.sane() || c.code || c.out != t) fail("visnav: mkgraph", "%s: %s", c.describe().c_str(), at.c_str());
			stat("graphs of mkgraph");
		}
		if (r.in(0, 1)) g.reset(new VisGraph(q));
		// Moved and scaled by powers of two, which is exact
		if (r.in(0, 2) == 0) {
			double sx = ldexp(1, r.in(-3, 3)), sy = r.in(0, 1) ? sx : ldexp(1, r.in(-3, 3)), dx = r.in(-20, 20), dy = r.in(-20, 20);
			bool first = r.in(0, 1);
			auto mv = [&](Pol &p) { for (auto &v : p) v = first ? P2{(v.x + dx) * sx, (v.y + dy) * sy} : P2{v.x * sx + dx, v.y * sy + dy}; };
			World u = w; for (auto &p : u.obs) mv(p); mv(u.bound);
			if (first) { g->translate(dx, dy); g->scale(sx, sy); } else { g->scale(sx, sy); g->translate(dx, dy); }
			comparemaps(u.map(), g->map, at + " transformed");
			if (edges(*g) != edges(built)) fail("visnav: transforming changes the edges", "%s", at.c_str());
			for (auto &v : g->verts) for (auto &e : v.edges) {
				double l = hypot(v.pt.x - g->verts[e.dst].pt.x, v.pt.y - g->verts[e.dst].pt.y);
				if (fabs(l - e.dist) > 1e-9 * (1 + l)) fail("visnav: edge cost is not its length", "%u-%u: %.12g, length %.12g: transformed %s", e.src, e.dst, e.dist, l, at.c_str());
			}
			for (size_t i = 0; i < g->verts.size(); i++) { Pol p(1, P2{built.verts[i].pt.x, built.verts[i].pt.y}); mv(p); if (p[0].x != g->verts[i].pt.x || p[0].y != g->verts[i].pt.y) fail("visnav: transformed vertex", "%zu: %s", i, at.c_str()); }
			w = u; lox = (first ? lox + dx : lox) * sx + (first ? 0 : dx); hix = (first ? hix + dx : hix) * sx + (first ? 0 : dx);
			loy = (first ? loy + dy : loy) * sy + (first ? 0 : dy); hiy = (first ? hiy + dy : hiy) * sy + (first ? 0 : dy);
			at += fmt(" scale %g %g move %g %g %d", sx, sy, dx, dy, (int) first);
			stat("transformed");
			if (sx < 1 || sy < 1 || sx != sy) { sig(hashstr(at)); return; }	// margins no longer hold
		}
	}
	// Paths between free points
	P2 e[2]; int n = 0;
	for (int k = 0; k < 60 && n < 2; k++) {
		P2 q{floor(r.real(lox - 1, hix + 1)) + r.in(1, 15) / 16.0, floor(r.real(loy - 1, hiy + 1)) + r.in(1, 15) / 16.0};
		if (w.bdist(q) > 0.01 && !w.solid(q)) e[n++] = q;
	}
	if (n < 2) return;
	at += fmt(" from %g,%g to %g,%g", e[0].x, e[0].y, e[1].x, e[1].y);
	note("%s", at.c_str());
	VisGraph full(*g);
	unsigned s = full.add(Pt(e[0].x, e[0].y)), f = full.add(Pt(e[1].x, e[1].y));
	VisNav d(*g, e[0].x, e[0].y, e[1].x, e[1].y);
	VRef ref; ref.g = &full; ref.start = s; ref.finish = f; ref.name = "visnav"; ref.inst = at; ref.eps = 1e-7;
	if (sv::wanted()) {
		sv::Opts o; o.consistent = true;
		sv::solve(r, o, "visnav", tostr([&](FILE *f) { g->output(f); }) + fmt("%.17g %.17g %.17g %.17g\n", e[0].x, e[0].y, e[1].x, e[1].y), sv::optimum(ref, 4000), 1e-6);
		return;
	}
	if (ctx.prop != "P18") { dt::explore(d, ref, r, 4000, 60, 1, 20); return; }
	checkgraph(full, w, at);
	double up = shortest(w, e[0], e[1], true), lo = shortest(w, e[0], e[1], false);
	const char *argv[] = { "visnav", "astar" };
	Astar<VisNav> a(2, argv);
	VisNav::State s0 = d.initialstate();
	a.search(d, s0);
	double c = a.res.path.empty() ? INFINITY : d.pathcost(a.res.path, a.res.ops);
	stat(c < INFINITY ? "paths" : "no paths");
	if (c < INFINITY && a.res.path.size() > 2) stat("paths with bends");
	if (c > up + 1e-6 * (1 + c)) fail("visnav: path is not a shortest one", "%.12g, shortest %.12g: %s", c, up, at.c_str());
	if (c < lo - 1e-6 * (1 + c)) fail("visnav: path through an obstacle", "%.12g, shortest %.12g: %s", c, lo, at.c_str());
	sig(hashstr(at));
	if (wantsample()) sample("%s: cost %g", at.c_str(), c);
}
std::vector<Kind> vh::kinds() { return { { "polygons", [](Rng &r) { world(r, false); }, 3 }, { "bitmap", [](Rng &r) { world(r, true); }, 2 } }; }
