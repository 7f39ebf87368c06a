// The traffic domain (moving obstacles) against its rules.
#define VH_MAIN
#include "solver.hpp"
#include "traffic/traffic.hpp"
using namespace vh;

struct Obst { int x, y, dx, dy; };
struct TRef : dt::Ref {
	int w, h, x0, y0, xg, yg;
	std::vector<Obst> obs;
	bool teleports; int maxt;	// limits for the exact costs
	TRef() : teleports(true), maxt(0) { name = "traffic"; }
	std::string show(int x, int y, int t) { return fmt("%d, %d @ %d\n", x, y, t); }
	void parse(const std::string &k, int &x, int &y, int &t) { sscanf(k.c_str(), "%d, %d @ %d", &x, &y, &t); }
	std::string init() { return show(x0, y0, 0); }
	// An obstacle bounces between the walls.
	static int bounce(int p, int v, int n, int t) {
		if (n == 1) return 0;
		long q = ((long) p + (long) v * t) % (2 * (n - 1));
		if (q < 0) q += 2 * (n - 1);
		return q < n ? q : 2 * (n - 1) - q;
	}
	std::pair<int,int> at(const Obst &o, int t) { return std::make_pair(bounce(o.x, o.dx, w, t), bounce(o.y, o.dy, h, t)); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		int x, y, t; parse(k, x, y, t);
		if (maxt && t >= maxt) return;
		static const int dx[] = { 0, 0, 0, -1, 1 }, dy[] = { 0, -1, 1, 0, 0 };
		for (int i = 0; i < 5; i++) {
			std::pair<int,int> me(x, y), to(x + dx[i], y + dy[i]);
			if (to.first < 0 || to.second < 0 || to.first >= w || to.second >= h) continue;
			bool swap = false, hit = false;
			for (auto &o : obs) {
				std::pair<int,int> a = at(o, t), b = at(o, t + 1);
				if (a == to && b == me) swap = true;	// they would pass through each other
				if (b == to) hit = true;
			}
			if (swap) continue;
			if (hit && !teleports) continue;
			out.push_back(dt::Succ{hit ? init() : show(to.first, to.second, t + 1), 1});
		}
	}
	bool goal(const std::string &k) { int x, y, t; parse(k, x, y, t); return x == xg && y == yg; }
	double h_(const std::string &) { return NAN; }
};

static void instance(Rng &r) {
	TRef t;
	t.w = r.in(1, 7); t.h = r.in(1, 7);
	t.x0 = r.in(0, t.w - 1); t.y0 = r.in(0, t.h - 1); t.xg = r.in(0, t.w - 1); t.yg = r.in(0, t.h - 1);
	int n = r.in(0, 6);
	for (int i = 0; i < n; i++) {
		int v = r.in(0, 4) ? 1 : 3;
		t.obs.push_back(Obst{(int) r.in(0, t.w - 1), (int) r.in(0, t.h - 1), (int) r.in(-v, v), (int) r.in(-v, v)});
	}
	t.inst = fmt("%d %d %d %d\n%d %d\n", t.x0, t.y0, t.xg, t.yg, t.w, t.h);
	for (auto &o : t.obs) t.inst += fmt("%d %d %d %d\n", o.x, o.y, o.dx, o.dy);
	FILE *f = dt::memfile(t.inst);
	Traffic d(f);
	fclose(f);
	if (ctx.prop == "P15") {
		char *b = NULL; size_t bn = 0;
		FILE *o = open_memstream(&b, &bn); d.output(o); fclose(o);
		if (t.inst != b) fail("traffic: written instance differs", "[%s] from [%s]", dt::esc(b).c_str(), dt::esc(t.inst).c_str());
		free(b);
	}
	if (sv::wanted()) {
		sv::Opts o; o.lvl = true; o.unit = true; o.tail = 4; o.head = [](const std::string&) { return 6; };
		o.solution = [&](const std::string &out, double cost, size_t len, const std::string &what) {
			std::vector<unsigned> ops = controlvec(sv::parse(out).get("controls"));
			sv::replay(d, t, ops, true, cost, len, what);
		};
		sv::solve(r, o, "traffic", t.inst, sv::optimum(t, 20000), 0);
		return;
	}
	// Being sent back to the start, where time starts over, can be a short
	// cut from states that are worse than the initial one, which no cheapest
	// plan visits: the estimate is judged against plans without it.
	if (ctx.prop == "P14") { t.teleports = false; t.maxt = 30; }
	dt::explore(d, t, r, 4000, 400, 1, 40);
	if (ctx.prop == "P14") return;
}
std::vector<Kind> vh::kinds() { return { { "traffic", instance, 1 } }; }
