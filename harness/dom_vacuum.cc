// The vacuum domain against its rules.
#define VH_MAIN
#include "solver.hpp"
#include "vacuum/vacuum.hpp"
#include <set>
using namespace vh;

struct VRef : dt::Ref {
	int w, h, x0, y0;
	std::vector<std::string> rows;
	std::vector<std::pair<int,int> > dirt;	// in reading order
	VRef() { name = "vacuum"; }
	std::string show(int x, int y, const std::vector<int> &left) {
		int n = 0; for (int d : left) n += d;
		std::string s = fmt("(%d, %d), energy=-1, ndirt=%d", x + 1, y + 1, n);
		for (int d : left) s += fmt(" %d", d);
		return s;
	}
	void parse(const std::string &k, int &x, int &y, std::vector<int> &left) {
		int n, off = 0;
		sscanf(k.c_str(), "(%d, %d), energy=-1, ndirt=%d%n", &x, &y, &n, &off);
		x--; y--;
		const char *p = k.c_str() + off; char *e;
		for (;;) { long v = strtol(p, &e, 10); if (e == p) break; left.push_back(v); p = e; }
	}
	std::string init() { return show(x0, y0, std::vector<int>(dirt.size(), 1)); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		int x, y; std::vector<int> left; parse(k, x, y, left);
		for (size_t i = 0; i < dirt.size(); i++) if (left[i] && dirt[i].first == x && dirt[i].second == y) {
			std::vector<int> l = left; l[i] = 0;
			out.push_back(dt::Succ{show(x, y, l), 1});
		}
		static const int dx[] = { 0, 0, -1, 1 }, dy[] = { -1, 1, 0, 0 };
		for (int i = 0; i < 4; i++) {
			int nx = x + dx[i], ny = y + dy[i];
			if (nx < 0 || ny < 0 || nx >= w || ny >= h || rows[ny][nx] == '#') continue;
			out.push_back(dt::Succ{show(nx, ny, left), 1});
		}
	}
	bool goal(const std::string &k) { return k.find("ndirt=0") != std::string::npos; }
};

// The plan that the course program prints cleans the map.
static void cs730(Rng &r, VRef &t) {
	const char *prog = getenv("PROG_cs730");
	if (!prog) return;
	double opt = sv::optimum(t, 20000);
	if (std::isnan(opt)) return;
	const char *algs[] = { "astar", "greedy", "speedy", "idastar" };
	Args a = { prog, algs[r.in(0, opt < 9 ? 3 : 2)] };
	std::string what = "cs730 " + a[1] + " on [" + dt::esc(t.inst) + "]";
	note("%s", what.c_str());
	if (a[1] == "idastar" && opt == INFINITY) return;
	Child c = run(a, t.inst, 60, scratch());
	if (!c.sane() || c.code) { fail("cs730: the program failed", "%s: %s", c.describe().c_str(), what.c_str()); return; }
	std::stringstream ss(c.out);
	std::string l, k = t.init();
	int n = 0, stats = 0;
	while (std::getline(ss, l)) {
		if (l.find(" nodes ") != std::string::npos) { stats++; continue; }
		if (l[0] == '#') continue;
		int x, y; std::vector<int> left; t.parse(k, x, y, left);
		int nx = x, ny = y;
		if (l == "V") { bool any = false; for (size_t i = 0; i < t.dirt.size(); i++) if (left[i] && t.dirt[i] == std::make_pair(x, y)) { left[i] = 0; any = true; } if (!any) fail("cs730: nothing to clean", "step %d: %s", n, what.c_str()); }
		else if (l == "N") ny--; else if (l == "S") ny++; else if (l == "W") nx--; else if (l == "E") nx++;
		else { fail("cs730: unknown step", "%s: %s", l.c_str(), what.c_str()); return; }
		if (nx < 0 || ny < 0 || nx >= t.w || ny >= t.h || t.rows[ny][nx] == '#') { fail("cs730: illegal step", "step %d: %s", n, what.c_str()); return; }
		k = t.show(nx, ny, left);
		n++;
	}
	if (stats != 2) fail("cs730: counts are missing", "%s", what.c_str());
	if (opt == INFINITY) { if (n) fail("cs730: a plan for an unsolvable map", "%s", what.c_str()); stat("plans of unsolvable maps"); return; }
	if (!t.goal(k)) fail("cs730: the plan does not clean the map", "%s", what.c_str());
	if ((a[1] == "astar" || a[1] == "idastar") && n != opt) fail("cs730: the plan is not optimal", "%d steps, optimum %g: %s", n, opt, what.c_str());
	stat("plans followed");
	if (n > 2) sig(mix(hashstr(t.inst), hashstr(a[1])));
}

static void instance(Rng &r) {
	VRef t;
	bool small = r.in(0, 3);
	t.w = r.in(1, small ? 5 : 10); t.h = r.in(1, small ? 5 : 10);
	t.rows.assign(t.h, std::string(t.w, '_'));
	int dens = r.in(0, 2) ? r.in(0, 30) : 0, nd = r.in(0, small ? 5 : 9);
	for (auto &row : t.rows) for (char &c : row) if (r.in(0, 99) < dens) c = '#';
	for (int i = 0; i < nd; i++) t.rows[r.in(0, t.h - 1)][r.in(0, t.w - 1)] = '*';
	t.x0 = r.in(0, t.w - 1); t.y0 = r.in(0, t.h - 1);
	t.rows[t.y0][t.x0] = '@';
	t.inst = fmt("%d\n%d\n", t.w, t.h);
	for (int y = 0; y < t.h; y++) {
		t.inst += t.rows[y];
		if (y < t.h - 1 || r.in(0, 1)) t.inst += "\n";
		for (int x = 0; x < t.w; x++) if (t.rows[y][x] == '*') t.dirt.push_back(std::make_pair(x, y));
	}
	FILE *f = dt::memfile(t.inst);
	Vacuum d(f);
	fclose(f);
	if (ctx.prop == "P27" && r.in(0, 3) == 0) { cs730(r, t); return; }
	if (sv::wanted()) { sv::Opts o; o.cells = true; sv::solve(r, o, "vacuum", t.inst, sv::optimum(t, 20000), 0); return; }
	dt::explore(d, t, r, 3000, 400, 1, 60);
}
std::vector<Kind> vh::kinds() { return { { "vacuum", instance, 1 } }; }
