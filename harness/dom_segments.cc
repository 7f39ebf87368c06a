// The segment moving domain: motions against exact sweeps, and the generic
// monitors of a domain.
#define VH_MAIN
#include "solver.hpp"
#include "segments/segments.hpp"
using namespace vh;
typedef Segments::Oper Oper;
typedef decltype(Segments::Seg::start) Pose;

struct V { double x, y; };
static V operator-(V a, V b) { return V{a.x - b.x, a.y - b.y}; }
static double crs(V a, V b) { return a.x * b.y - a.y * b.x; }
static double dotp(V a, V b) { return a.x * b.x + a.y * b.y; }
static double len(V a) { return hypot(a.x, a.y); }
struct L { V a, b; };
static double ptseg(V p, L l) {
	V d = l.b - l.a; double q = dotp(d, d), t = q > 0 ? dotp(p - l.a, d) / q : 0;
	t = t < 0 ? 0 : t > 1 ? 1 : t;
	return len(p - V{l.a.x + t * d.x, l.a.y + t * d.y});
}
static bool crosses(L u, L v) {
	double p = crs(u.b - u.a, v.a - u.a), q = crs(u.b - u.a, v.b - u.a), r = crs(v.b - v.a, u.a - v.a), s = crs(v.b - v.a, u.b - v.a);
	return ((p > 0 && q < 0) || (p < 0 && q > 0)) && ((r > 0 && s < 0) || (r < 0 && s > 0));
}
static double segseg(L u, L v) {
	if (crosses(u, v)) return 0;
	return std::min(std::min(ptseg(u.a, v), ptseg(u.b, v)), std::min(ptseg(v.a, u), ptseg(v.b, u)));
}
static const double Hit = 1e-5, Room = 1e-3;
// A crossing that is not just a touch.
static bool deep(L u, L v) { return crosses(u, v) && std::min(std::min(ptseg(u.a, v), ptseg(u.b, v)), std::min(ptseg(v.a, u), ptseg(v.b, u))) > Hit; }

struct SP { int x, y, rot; };
struct Inst {
	int w, h, n;		// arena, angles
	std::vector<double> rad;
	std::vector<SP> start, goal;
	L line(int i, SP p) const { double t = 2 * M_PI * p.rot / n; return L{V{p.x + rad[i] * cos(t), p.y + rad[i] * sin(t)}, V{p.x - rad[i] * cos(t), p.y - rad[i] * sin(t)}}; }
	bool within(L l, double m) const { return l.a.x > m && l.a.y > m && l.b.x > m && l.b.y > m && l.a.x < w - m && l.a.y < h - m && l.b.x < w - m && l.b.y < h - m; }
	// How a move of segment i relates to another segment: -1 hits, 1 clearly has room, 0 undecided.
	int translation(int i, SP p, int dx, int dy, L o) const {
		L l0 = line(i, p), l1 = line(i, SP{p.x + dx, p.y + dy, p.rot});
		L e1{l0.a, l1.a}, e2{l0.b, l1.b};
		if (deep(o, l1) || deep(o, e1) || deep(o, e2)) return -1;
		double d = std::min(std::min(segseg(o, l0), segseg(o, l1)), std::min(segseg(o, e1), segseg(o, e2)));
		// An end inside the parallelogram
		double ar = crs(l0.b - l0.a, l1.a - l0.a);
		bool in = false;
		if (fabs(ar) > 1e-9) {
			V q = o.a - l0.a;
			double s = crs(q, l1.a - l0.a) / ar, t = crs(l0.b - l0.a, q) / ar;
			in = s > 0 && s < 1 && t > 0 && t < 1;
		}
		if (in && d > Hit) return -1;
		return !in && d > Room ? 1 : 0;
	}
	// The distance to c of the part of o between the directions t0 and t0+dt (dt < pi), infinite if there's none.
	static double wedge(L o, V c, double t0, double dt) {
		double lo = 0, hi = 1;
		V d = o.b - o.a;
		V n[2] = { V{-sin(t0), cos(t0)}, V{sin(t0 + dt), -cos(t0 + dt)} };	// inner normals
		for (int k = 0; k < 2; k++) {
			double s0 = dotp(n[k], o.a - c), ds = dotp(n[k], d);
			if (fabs(ds) < 1e-15) { if (s0 < 0) return INFINITY; continue; }
			double t = -s0 / ds;
			if (ds > 0) lo = std::max(lo, t); else hi = std::min(hi, t);
		}
		if (lo > hi) return INFINITY;
		return ptseg(c, L{V{o.a.x + lo * d.x, o.a.y + lo * d.y}, V{o.a.x + hi * d.x, o.a.y + hi * d.y}});
	}
	int rotation(int i, SP p, int dir, L o) const {
		double dt = 2 * M_PI / n, t = 2 * M_PI * p.rot / n;
		if (dir < 0) t -= dt;
		V c{(double) p.x, (double) p.y};
		if (n == 2) { double d = ptseg(c, o); return d < rad[i] - Hit ? -1 : d > rad[i] + Room ? 1 : 0; }
		double far = INFINITY, near = INFINITY, m = 1e-6, big = std::min(Room / std::max(rad[i], 1.0), 0.1);
		// The other segment may already be in the slice only if it touches the moved one, so near the start counts as well.
		for (int k = 0; k < 2; k++) {
			near = std::min(near, wedge(o, c, t + k * M_PI + m, dt - 2 * m));
			far = std::min(far, wedge(o, c, t + k * M_PI - big, std::min(dt + 2 * big, 3.1)));
		}
		if (near < rad[i] - Hit) return -1;
		return far > rad[i] + Room && segseg(o, line(i, p)) > Room ? 1 : 0;
	}
	// The box around the sweep.
	void extent(int i, SP p, int dir, int dx, int dy, double &x0, double &y0, double &x1, double &y1) const {
		std::vector<V> q;
		L l0 = line(i, p), l1 = line(i, dir ? SP{p.x, p.y, (p.rot + dir + n) % n} : SP{p.x + dx, p.y + dy, p.rot});
		q = { l0.a, l0.b, l1.a, l1.b };
		if (dir) {
			double dt = 2 * M_PI / n, t = 2 * M_PI * p.rot / n; if (dir < 0) t -= dt;
			for (int k = -8; k <= 16; k++) for (int s = 0; s < 2; s++) { double a = k * M_PI / 2 + s * M_PI; double z = t + s * M_PI; if (a >= z && a <= z + dt) q.push_back(V{p.x + rad[i] * cos(a), p.y + rad[i] * sin(a)}); }
		}
		x0 = y0 = INFINITY; x1 = y1 = -INFINITY;
		for (auto &v : q) { x0 = std::min(x0, v.x); y0 = std::min(y0, v.y); x1 = std::max(x1, v.x); y1 = std::max(y1, v.y); }
	}
	// A motion: dir is -1, 1 or 0 for a move by dx,dy.
	int judge(const std::vector<SP> &ps, int i, int dir, int dx, int dy, std::string &why) const {
		double x0, y0, x1, y1;
		extent(i, ps[i], dir, dx, dy, x0, y0, x1, y1);
		if (x0 < -Hit || y0 < -Hit || x1 > w + Hit || y1 > h + Hit) { why = "leaves the arena"; return -1; }
		int r = x0 > Room && y0 > Room && x1 < w - Room && y1 < h - Room ? 1 : 0;
		for (size_t j = 0; j < ps.size(); j++) if ((int) j != i) {
			int v = dir ? rotation(i, ps[i], dir, line(j, ps[j])) : translation(i, ps[i], dx, dy, line(j, ps[j]));
			if (v < 0) { why = fmt("meets segment %zu", j); return -1; }
			if (v == 0) r = 0;
		}
		return r;
	}
	bool apart(const std::vector<SP> &ps) const {
		for (size_t i = 0; i < ps.size(); i++) {
			if (!within(line(i, ps[i]), Room)) return false;
			for (size_t j = 0; j < i; j++) if (segseg(line(i, ps[i]), line(j, ps[j])) < Room) return false;
		}
		return true;
	}
	std::string text() const {
		std::string s = fmt("%d %d %d\n%zu\n", w, h, n, rad.size());
		for (size_t i = 0; i < rad.size(); i++) s += fmt("%.17g %d %d %d %d %d %d\n", rad[i], start[i].x, start[i].y, start[i].rot, goal[i].x, goal[i].y, goal[i].rot);
		return s;
	}
};

namespace dt { template<> struct Traits<Segments> {
	static bool nop(const Oper &o) { return o.op == Oper::None; }
	static std::string key(const std::string &s) { return s; }
	static std::string text(Segments &, Segments::State &s) {
		std::string t = fmt("%u %u", s.x, s.y);
		for (auto &p : s.poses) t += fmt(" %u %u %u", p.x, p.y, p.rot);
		return t;
	}
}; }
struct SRef : dt::Ref {
	Inst *in;
	std::string of(const std::vector<SP> &ps) { std::string t = "0 0"; for (auto &p : ps) t += fmt(" %d %d %d", p.x, p.y, p.rot); return t; }
	std::string init() { return of(in->start); }
	void succs(const std::string &, std::vector<dt::Succ> &) { }
	bool goal(const std::string &k) { std::string g = of(in->goal); return k.substr(k.find(' ', k.find(' ') + 1)) == g.substr(g.find(' ', g.find(' ') + 1)); }
};

static bool make(Rng &r, Inst &t, bool small) {
	t.w = r.in(2, small ? 5 : 20); t.h = r.in(2, small ? 5 : 20);
	int na[] = { 2, 4, 6, 8, 10, 12, 16, 32 };
	t.n = na[r.in(0, small ? 3 : 7)];
	int k = small ? r.in(1, 2) : r.in(1, 8);
	std::vector<SP> *dst[] = { &t.start, &t.goal };
	for (int i = 0; i < k; i++) {
		double mx = std::min(t.w, t.h) / 2.0;
		double rd = r.in(0, 3) == 0 ? r.real(0.02, 0.4) : r.real(0.1, mx);
		if (r.in(0, 4) == 0) rd = r.in(1, std::max(1, (int) mx));
		t.rad.push_back(rd);
		for (int d = 0; d < 2; d++) {
			bool ok = false;
			for (int tr = 0; tr < 40 && !ok; tr++) {
				dst[d]->push_back(SP{(int) r.in(1, t.w - 1), (int) r.in(1, t.h - 1), (int) r.in(0, t.n - 1)});
				if (t.apart(*dst[d])) ok = true; else dst[d]->pop_back();
			}
			if (!ok) { if (d) t.start.pop_back(); t.rad.pop_back(); return i > 0; }
		}
	}
	return true;
}

static std::unique_ptr<Segments> load(Rng &r, Inst &t) {
	std::string text = t.text();
	if (r.in(0, 3) == 0) text = "# seed: 1\n" + text;
	if (r.in(0, 3) == 0) {
		std::vector<Segments::Seg> ss;
		for (size_t i = 0; i < t.rad.size(); i++) { Segments::Seg s; s.radius = t.rad[i]; s.start = Pose(t.start[i].x, t.start[i].y, t.start[i].rot); s.goal = Pose(t.goal[i].x, t.goal[i].y, t.goal[i].rot); ss.push_back(s); }
		return std::unique_ptr<Segments>(new Segments(t.w, t.h, t.n, ss));
	}
	FILE *f = dt::memfile(text);
	std::unique_ptr<Segments> d(new Segments(f));
	fclose(f);
	return d;
}

// Every motion offered or left out in a state is judged.
static void motions(Segments &d, const Inst &t, Segments::State &s) {
	std::vector<SP> ps;
	for (auto &p : s.poses) ps.push_back(SP{(int) p.x, (int) p.y, (int) p.rot});
	Segments::Operators ops(d, s);
	for (size_t i = 0; i < ps.size(); i++) for (int m = 0; m < 11; m++) {
		int dir = m == 9 ? -1 : m == 10 ? 1 : 0, dx = m < 9 ? m % 3 - 1 : 0, dy = m < 9 ? m / 3 - 1 : 0;
		if (!dir && !dx && !dy) continue;
		Oper o = dir ? Oper(Oper::Rotate, i, dir, 0) : Oper(Oper::Move, i, dx, dy);
		int n = 0;
		for (unsigned k = 0; k < ops.size(); k++) if (ops[k] == o) n++;
		std::string why;
		int v = t.judge(ps, i, dir, dx, dy, why);
		stat(v < 0 ? (dir ? "blocked turns" : "blocked moves") : v > 0 ? (dir ? "free turns" : "free moves") : "undecided motions");
		if ((v < 0 && n) || (v > 0 && n != 1)) {
			std::string st; for (auto &p : ps) st += fmt("(%d %d %d) ", p.x, p.y, p.rot);
			std::string what = dir ? fmt("turn of segment %zu by %d", i, dir) : fmt("move of segment %zu by %d,%d", i, dx, dy);
			if (v < 0) fail(dir ? "segments: turn through something" : "segments: move through something", "%s %s: poses %s of [%s]", what.c_str(), why.c_str(), st.c_str(), dt::esc(t.text()).c_str());
			fail(n ? "segments: motion offered twice" : "segments: motion with room not offered", "%s: poses %s of [%s]", what.c_str(), st.c_str(), dt::esc(t.text()).c_str());
		}
		if (!n) continue;
		// What it does
		Segments::Edge e(d, s, o);
		std::vector<SP> want = ps;
		if (dir) want[i].rot = (want[i].rot + dir + t.n) % t.n; else { want[i].x += dx; want[i].y += dy; }
		double c = hypot((double) s.x - ps[i].x, (double) s.y - ps[i].y) + (dx && dy ? sqrt(2.0) : 1);
		for (size_t j = 0; j < want.size(); j++) if ((int) e.state.poses[j].x != want[j].x || (int) e.state.poses[j].y != want[j].y || (int) e.state.poses[j].rot != want[j].rot)
			fail("segments: wrong pose", "segment %zu at %u %u %u, should be %d %d %d: [%s]", j, e.state.poses[j].x, e.state.poses[j].y, e.state.poses[j].rot, want[j].x, want[j].y, want[j].rot, dt::esc(t.text()).c_str());
		if (fabs(e.cost - c) > 1e-9 * (1 + c)) fail("segments: wrong cost", "%.12g, should be %.12g: [%s]", e.cost, c, dt::esc(t.text()).c_str());
		for (size_t j = 0; j < want.size(); j++) {
			L l = t.line(j, want[j]);
			auto &g = e.state.lines[j];
			if (hypot(g.p0.x - l.a.x, g.p0.y - l.a.y) > 1e-9 || hypot(g.p1.x - l.b.x, g.p1.y - l.b.y) > 1e-9) fail("segments: wrong line", "segment %zu at %g,%g-%g,%g, should be %g,%g-%g,%g: [%s]", j, g.p0.x, g.p0.y, g.p1.x, g.p1.y, l.a.x, l.a.y, l.b.x, l.b.y, dt::esc(t.text()).c_str());
		}
	}
}

static void instance(Rng &r) {
	Inst t;
	bool small = ctx.prop == "P14" || sv::wanted() || r.in(0, 1);
	if (!make(r, t, small)) return;
	note("segments [%s]", dt::esc(t.text()).c_str());
	std::unique_ptr<Segments> d = load(r, t);
	if ((int) d->width != t.w || (int) d->height != t.h || (int) d->nangles != t.n) fail("segments: loaded instance differs", "[%s]", dt::esc(t.text()).c_str());
	SRef ref; ref.in = &t; ref.name = "segments"; ref.inst = t.text();
	if (sv::wanted()) {
		sv::Opts o;
		o.solution = [&](const std::string &out, double cost, size_t len, const std::string &what) {
			std::vector<Oper> ops = scanops(sv::parse(out).get("path"));
			sv::replay(*d, ref, ops, false, cost, len, what);
		};
		sv::solve(r, o, "segments", t.text(), sv::ownoptimum(*d, 4000), 1e-6);
		return;
	}
	if (ctx.prop == "P14") { dt::selfadmissible(*d, ref, 3000); stat("instances"); return; }
	if (ctx.prop == "P13") { dt::explore(*d, ref, r, 0, 10, 1, 15); return; }
	Segments::State s = d->initialstate();
	for (int k = 0; k < 40; k++) {
		motions(*d, t, s);
		stat("states");
		sig(mix(hashstr(t.text()), hashstr(dt::Traits<Segments>::text(*d, s))));
		Segments::Operators ops(*d, s);
		if (!ops.size()) break;
		Segments::Edge e(*d, s, ops[r.in(0, ops.size() - 1)]);
		s = e.state;
	}
	stat("instances");
	if (wantsample()) sample("%s", dt::esc(t.text()).c_str());
}
std::vector<Kind> vh::kinds() { return { { "segments", instance, 1 } }; }
