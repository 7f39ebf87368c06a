// The platform domain: the player in random levels, and the generic monitors
// of a domain.
#define VH_MAIN
#include "solver.hpp"
#include "plat2d/plat2d.hpp"
using namespace vh;

struct Level {
	int w, h;
	std::vector<std::string> rows;
	int ux, uy, dx, dy;
	bool solid(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h || rows[y][x] == '#'; }
	char at(int x, int y) const { return rows[y][x]; }
	std::string text() const { std::string s = fmt("1 %d %d 0\n", w, h); for (auto &r : rows) s += r + "\n"; return s; }
	// The deepest overlap of a box with a solid tile.
	double overlap(double x0, double y0, double x1, double y1) const {
		double m = 0;
		for (int x = (int) floor(x0 / 32); x <= (int) floor(x1 / 32); x++) for (int y = (int) floor(y0 / 32); y <= (int) floor(y1 / 32); y++) if (solid(x, y)) {
			double ox = std::min(x1, 32.0 * (x + 1)) - std::max(x0, 32.0 * x), oy = std::min(y1, 32.0 * (y + 1)) - std::max(y0, 32.0 * y);
			m = std::max(m, std::min(ox, oy));
		}
		return m;
	}
	bool water(double x0, double y0, double x1, double y1) const { char c = at((int) ((x0 + x1) / 64), (int) ((y0 + y1) / 64)); return c == 'w' || c == 'D' || c == 'U'; }
};

namespace dt { template<> struct Traits<Plat2d> {
	static bool nop(const int &o) { return o == Plat2d::Nop; }
	static std::string key(const std::string &s) { return s; }
	static std::string text(Plat2d &, Plat2d::State &s) {
		return fmt("%.17g %.17g %.17g %d %d", s.player.body.bbox.min.x, s.player.body.bbox.min.y, s.player.body.dy, (int) s.player.jframes, (int) s.player.body.fall);
	}
}; }
struct PRef : dt::Ref {
	Level *l;
	std::string init() { return fmt("%d %d 0 0 0", l->ux * 32 + 7, l->uy * 32 + 2); }
	void succs(const std::string &, std::vector<dt::Succ> &) { }
	bool goal(const std::string &k) {
		double x, y; sscanf(k.c_str(), "%lg %lg", &x, &y);
		return (int) ((x + 10.5) / 32) == l->dx && (int) ((y + 14.5) / 32) == l->dy;
	}
};

static bool make(Rng &r, Level &l, bool near) {
	l.w = r.in(3, near ? 9 : 16); l.h = r.in(3, near ? 9 : 14);
	l.rows.assign(l.h, std::string(l.w, '#'));
	double p = r.in(0, 3) == 0 ? r.real(0.4, 0.7) : r.real(0, 0.4), q = r.in(0, 2) ? 0 : r.real(0, 1);
	int style = r.in(0, 3);
	for (int y = 1; y < l.h - 1; y++) for (int x = 1; x < l.w - 1; x++) l.rows[y][x] = r.real(0, 1) < p ? '#' : r.real(0, 1) < q ? 'w' : ' ';
	if (style == 0) for (int y = 1; y < l.h - 1; y++) for (int x = 1; x < l.w - 1; x++) l.rows[y][x] = y == l.h - 2 || y % 3 || r.in(0, 4) == 0 ? ' ' : '#';	// floors with gaps
	if (style == 1) {	// a cave
		l.rows.assign(l.h, std::string(l.w, '#'));
		int x = r.in(1, l.w - 2), y = r.in(1, l.h - 2), n = r.in(2, l.w * l.h);
		for (int i = 0; i < n; i++) { l.rows[y][x] = r.real(0, 1) < q ? 'w' : ' '; int k = r.in(0, 3); int a = x + (k == 0) - (k == 1), b = y + (k == 2) - (k == 3); if (a > 0 && b > 0 && a < l.w - 1 && b < l.h - 1) { x = a; y = b; } }
	}
	std::vector<std::pair<int,int> > fr;
	for (int y = 1; y < l.h - 1; y++) for (int x = 1; x < l.w - 1; x++) if (l.rows[y][x] != '#') fr.push_back(std::make_pair(x, y));
	if (fr.size() < 2) return false;
	auto a = fr[r.in(0, fr.size() - 1)], b = fr[r.in(0, fr.size() - 1)];
	if (a == b) return false;
	l.ux = a.first; l.uy = a.second; l.dx = b.first; l.dy = b.second;
	l.rows[l.uy][l.ux] = l.rows[l.uy][l.ux] == 'w' ? 'U' : 'u';
	l.rows[l.dy][l.dx] = l.rows[l.dy][l.dx] == 'w' ? 'D' : 'd';
	return true;
}

// One frame against the laws of motion.
static void frame(Plat2d &d, Level &l, Plat2d::State &s, int op, Plat2d::State &out) {
	const double eps = 1e-6;
	Body b = s.player.body;
	int jf = s.player.jframes;
	Plat2d::Edge e(d, s, op);
	out = e.state;
	const Body &c = e.state.player.body;
	auto where = [&]() { return fmt("%d at %.17g %.17g dy=%g fall=%d jframes=%d, to %.17g %.17g dy=%g: [%s]", op, b.bbox.min.x, b.bbox.min.y, b.dy, (int) b.fall, jf, c.bbox.min.x, c.bbox.min.y, c.dy, dt::esc(l.text()).c_str()); };
	stat("frames");
	sig(mix(hashstr(l.text()), mix(hashstr(dt::Traits<Plat2d>::text(d, s)), op)));
	if (e.cost != 1) fail("plat2d: cost of a frame", "%d: action %s", e.cost, where().c_str());
	if (!(fabs(c.bbox.max.x - c.bbox.min.x - 21) < eps && fabs(c.bbox.max.y - c.bbox.min.y - 29) < eps)) fail("plat2d: the player changes size", "action %s", where().c_str());
	double ov = l.overlap(c.bbox.min.x, c.bbox.min.y, c.bbox.max.x, c.bbox.max.y);
	if (ov > eps) fail("plat2d: inside a solid tile", "by %g, action %s", ov, where().c_str());
	double mx = c.bbox.min.x - b.bbox.min.x, my = c.bbox.min.y - b.bbox.min.y;
	if (fabs(mx) > Runspeed + eps) fail("plat2d: faster than the maximum", "x %g, action %s", mx, where().c_str());
	if (fabs(my) > Maxy + eps) fail("plat2d: faster than the maximum", "y %g, action %s", my, where().c_str());
	// What the action asks for
	double vy = b.dy; bool fall = b.fall;
	if (!(op & Player::Jump) && fall) { if (vy < 0) vy = std::min(0.0, vy + (8 - jf)); jf = 0; }
	else if ((op & Player::Jump) && !fall) { vy = -Jmpspeed; fall = true; jf = 8; }
	double vx = (op & Player::Left ? -1 : op & Player::Right ? 1 : 0) * Runspeed * (l.water(b.bbox.min.x, b.bbox.min.y, b.bbox.max.x, b.bbox.max.y) ? 0.7 : 1);
	// It never goes further, or the other way.
	if ((mx > 0) != (vx > 0) && fabs(mx) > eps) fail("plat2d: moves the wrong way", "x %g, action %s", mx, where().c_str());
	if ((my > 0) != (vy > 0) && fabs(my) > eps) fail("plat2d: moves the wrong way", "y %g, action %s", my, where().c_str());
	if (fabs(mx) > fabs(vx) + eps || fabs(my) > fabs(vy) + eps) fail("plat2d: moves further than its speed", "%g,%g, speed %g,%g, action %s", mx, my, vx, vy, where().c_str());
	double x0 = std::min(0.0, vx) - 1.01 + b.bbox.min.x, x1 = std::max(0.0, vx) + 1.01 + b.bbox.max.x, y0 = std::min(0.0, vy) - 1.01 + b.bbox.min.y, y1 = std::max(0.0, vy) + 1.01 + b.bbox.max.y;
	bool near = l.overlap(x0, y0, x1, y1) > 0;
	if (!near) {
		stat("frames in the open");
		if (fabs(mx - vx) > eps || fabs(my - vy) > eps) fail("plat2d: stopped by nothing", "moved %g,%g, speed %g,%g, action %s", mx, my, vx, vy, where().c_str());
		double g = l.water(c.bbox.min.x, c.bbox.min.y, c.bbox.max.x, c.bbox.max.y) ? 0.25 : 0.5;
		double ny = fall ? vy : 0;
		if (ny < 12) ny = std::min(12.0, ny + g);
		if (!c.fall || fabs(c.dy - ny) > eps) fail("plat2d: falls at the wrong rate", "dy=%g fall=%d, should be %g, action %s", c.dy, (int) c.fall, ny, where().c_str());
		if ((int) e.state.player.jframes != std::max(0, jf - 1)) fail("plat2d: length of a jump", "%d frames left, should be %d, action %s", (int) e.state.player.jframes, std::max(0, jf - 1), where().c_str());
	} else if (mx != vx || my != vy) {
		stat("collisions");
		// Something solid is where it was going.
		if (fabs(mx - vx) > eps && l.overlap(vx < 0 ? c.bbox.min.x - 1.01 : c.bbox.max.x, std::min(b.bbox.min.y, c.bbox.min.y) - 1.01, vx < 0 ? c.bbox.min.x : c.bbox.max.x + 1.01, std::max(b.bbox.max.y, c.bbox.max.y) + 1.01) <= 0)
			fail("plat2d: stopped by nothing", "sideways, moved %g of %g, action %s", mx, vx, where().c_str());
		if (fabs(my - vy) > eps && l.overlap(std::min(b.bbox.min.x, c.bbox.min.x) - 1.01, vy < 0 ? c.bbox.min.y - 1.01 : c.bbox.max.y, std::max(b.bbox.max.x, c.bbox.max.x) + 1.01, vy < 0 ? c.bbox.min.y : c.bbox.max.y + 1.01) <= 0)
			fail("plat2d: stopped by nothing", "up or down, moved %g of %g, action %s", my, vy, where().c_str());
	}
}

static void motions(Plat2d &d, Level &l, Rng &r) {
	Plat2d::State s = d.initialstate();
	int hold = 0, last = 1, bias = r.in(0, 2);
	for (int k = 0; k < 200; k++) {
		Plat2d::Operators ops(d, s);
		Plat2d::State t;
		if (r.in(0, 9) == 0) for (unsigned i = 0; i < ops.size(); i++) { Plat2d::State u = s; frame(d, l, u, ops[i], t); }
		int op = ops[r.in(0, ops.size() - 1)];
		if (hold > 0) { hold--; for (unsigned i = 0; i < ops.size(); i++) if ((int) ops[i] == last) op = last; }
		else if (bias) hold = r.in(0, 30);
		last = op;
		frame(d, l, s, op, t);
		if (r.in(0, 3) == 0) {	// what a search does
			Plat2d::PackedState p; d.pack(p, t); Plat2d::State u; s = d.unpack(u, p);
		} else s = t;
		if (d.isgoal(s) && r.in(0, 3) == 0) break;
	}
}

static bool enclosed(const Level &l) {
	for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) if ((x == 0 || y == 0 || x == l.w - 1 || y == l.h - 1) && l.rows[y][x] != '#') return false;
	return true;
}

static void instance(Rng &r) {
	static bool there;
	if (!there) { if (chdir(scratch().c_str()) != 0) return; there = true; }
	Level l;
	bool near = sv::wanted() || (ctx.prop == "P14" && r.in(0, 2));
	if (!make(r, l, near)) return;
	std::string text = l.text();
	note("plat2d [%s]", dt::esc(text).c_str());
	FILE *f = dt::memfile(text);
	Plat2d d(f);
	fclose(f);
	if ((int) d.lvl.width() != l.w || (int) d.lvl.height() != l.h || (int) d.x0 != l.ux || (int) d.y0 != l.uy || (int) d.gx != l.dx || (int) d.gy != l.dy || !enclosed(l)) fail("plat2d: loaded level differs", "[%s]", dt::esc(text).c_str());
	for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) if (d.lvl.blocked(x, y) != (l.rows[y][x] == '#')) fail("plat2d: loaded level differs", "tile %d,%d: [%s]", x, y, dt::esc(text).c_str());
	PRef ref; ref.l = &l; ref.name = "plat2d"; ref.inst = text;
	if (sv::wanted()) { sv::Opts o; o.lvl = o.unit = o.cells = true; sv::solve(r, o, "plat2d", text, sv::ownoptimum(d, 4000), 0); return; }
	if (ctx.prop == "P13") { dt::explore(d, ref, r, 0, 60, 1, 80); return; }
	if (ctx.prop == "P14") {
		double ws[] = { -1, 1, 1.5, 3, 5 };
		dt::selfadmissible(d, ref, near ? 4000 : 3000, ws[r.in(0, 4)]);
	} else for (int k = 0; k < 3; k++) motions(d, l, r);
	stat("instances");
	if (wantsample()) sample("%s", dt::esc(text).c_str());
}
std::vector<Kind> vh::kinds() { return { { "plat2d", instance, 1 } }; }
