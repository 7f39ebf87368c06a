// Grid navigation against its rules, on grids of all of the formats.
#define VH_MAIN
#include "solver.hpp"
#include "gridnav/gridnav.hpp"
#include <set>
using namespace vh;

enum { FourWay, EightWay, Octile };
struct GRef : dt::Ref {
	int w, h, moves; bool life;
	std::vector<std::string> rows;		// inner cells, by y
	int x0, y0, xg, yg;
	static std::string show(int x, int y) { return fmt("%d, %d\n", x + 1, y + 1); }
	static void parse(const std::string &k, int &x, int &y) { sscanf(k.c_str(), "%d, %d", &x, &y); x--; y--; }
	std::string init() { return show(x0, y0); }
	// Can one enter (tx,ty) from (x,y)?
	bool enter(int x, int y, int tx, int ty) const {
		if (tx < 0 || ty < 0 || tx >= w || ty >= h) return false;
		char t = rows[ty][tx], f = rows[y][x];
		if (f == 'W') return t == 'W';	// water is only left for water
		return t == ' ' || t == '.' || t == 'G' || t == 'S';
	}
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		int x, y; parse(k, x, y);
		for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
			if (!dx && !dy) continue;
			if (dx && dy && moves == FourWay) continue;
			if (!enter(x, y, x + dx, y + dy)) continue;
			if (dx && dy && moves == Octile && (!enter(x, y, x + dx, y) || !enter(x, y, x, y + dy))) continue;
			// In life grids, a move costs by the row it leaves: 0 in the last one.
			double c = dx && dy ? sqrt(2.0) : 1;
			if (life) c *= h - 1 - y;
			out.push_back(dt::Succ{show(x + dx, y + dy), c});
		}
	}
	bool goal(const std::string &k) { int x, y; parse(k, x, y); return x == xg && y == yg; }
	double h_(const std::string &) { return NAN; }
};
static bool blocked(char c) { return c != ' ' && c != '.' && c != 'G'; }

// The scenario program, over a few entries on one octile map.  A wrong optimum
// in an entry has to be noticed.
static void scenario(Rng &r) {
	const char *prog = getenv("PROG_scenario");
	if (!prog) return;
	GRef t;
	t.w = r.in(1, 9); t.h = r.in(1, 9); t.moves = Octile; t.life = false;
	t.rows.assign(t.h, std::string(t.w, '.'));
	const char *terr = ".....GG@OTSSSWWW";
	int dens = r.in(0, 40);
	for (auto &row : t.rows) for (char &c : row) if (r.in(0, 99) < dens) c = terr[r.in(0, 15)];
	std::vector<std::pair<int,int> > free;
	for (int y = 0; y < t.h; y++) for (int x = 0; x < t.w; x++) if (!blocked(t.rows[y][x])) free.push_back(std::make_pair(x, y));
	if (free.empty()) return;
	std::string map = fmt("type octile\nheight %d\nwidth %d\nmap\n", t.h, t.w);
	for (auto &row : t.rows) map += row + "\n";
	std::string root = scratch() + "/maps", name = r.in(0, 1) ? "a.map" : "sub/b.map";
	mkdir(root.c_str(), 0777); mkdir((root + "/sub").c_str(), 0777);
	writefile(root + "/" + name, map);
	int n = r.in(0, 6), wrong = r.in(0, 3) ? -1 : r.in(0, n), only = r.in(0, 4) ? -1 : r.in(0, n), ran = 0;
	std::vector<double> opts; std::vector<std::string> locs;
	std::string in = r.in(0, 1) ? "version 1\n" : "version 1.0\n";
	for (int i = 0; i < n; i++) {
		auto a = free[r.in(0, free.size() - 1)], b = free[r.in(0, free.size() - 1)];
		t.x0 = a.first; t.y0 = a.second; t.xg = b.first; t.yg = b.second;
		double o = sv::optimum(t, 100000);
		opts.push_back(o);
		locs.push_back(fmt("%d\t%d\t%d\t%d", t.x0, t.y0, t.xg, t.yg));
		in += fmt("%d\t%s\t%d\t%d\t%s\t%.8f", i / 10, name.c_str(), t.w, t.h, locs.back().c_str(), (o < INFINITY ? o : 0) + (i == wrong ? (r.in(0, 1) && o < INFINITY && o > 1 ? -0.3 : 0.3) : 0));
		if (i < n - 1 || r.in(0, 3)) in += "\n";
		if (only < 0 || only == i) ran++;
	}
	Args a = { prog, r.in(0, 1) ? "astar" : "wastar" };
	if (a[1] == "wastar") { a.push_back("-wt"); a.push_back("1"); }
	a.push_back("-maproot"); a.push_back(root + (r.in(0, 1) ? "/" : ""));
	if (only >= 0) { a.push_back("-entry"); a.push_back(fmt("%d", only)); }
	std::string what = "scenario " + sv::showargs(a) + " on [" + dt::esc(in) + "] [" + dt::esc(map) + "]";
	note("%s", what.c_str());
	Child c = run(a, in, 60, scratch());
	bool bad = wrong >= 0 && wrong < n && (only < 0 || only == wrong);
	if (!c.sane() || (c.code != 0) != bad) fail("scenario: verdict", "entry %d wrong: exit %d: %s: %s", bad ? wrong : -1, c.code, c.describe().c_str(), what.c_str());
	stat(bad ? "scenarios with a wrong optimum" : "scenarios");
	if (bad) return;
	// A row per entry that was run, in order.
	int row = 0;
	std::stringstream ss(c.out);
	std::string l;
	while (std::getline(ss, l)) if (l.compare(0, 14, "#altrow  \"run\"") == 0) {
		std::vector<std::string> f;
		std::stringstream ls(l); std::string x;
		while (std::getline(ls, x, '\t')) f.push_back(x);
		int num = only >= 0 ? only : row;
		if (f.size() != 16 || num >= n) { fail("scenario: row", "%s: %s", l.c_str(), what.c_str()); return; }
		std::string loc = f[5] + "\t" + f[6] + "\t" + f[7] + "\t" + f[8];
		double cost = strtod(f[12].c_str(), NULL), o = opts[num];
		if (atoi(f[1].c_str()) != num || atoi(f[3].c_str()) != t.w || atoi(f[4].c_str()) != t.h || loc != locs[num] || (o < INFINITY ? fabs(cost - o) > 1e-2 : cost != -1) || (o < INFINITY) != (atoi(f[13].c_str()) > 0))
			fail("scenario: row", "%s: entry %d, optimum %g: %s", l.c_str(), num, o, what.c_str());
		row++;
	}
	if (row != ran || c.out.find(fmt("#pair  \"number of entries\"\t\"%d\"", n)) == std::string::npos) fail("scenario: rows", "%d of %d: %s", row, ran, what.c_str());
	stat("scenario entries", row);
	if (row > 1) sig(hashstr(in));
}

static void instance(Rng &r) {
	if (ctx.prop == "P27" && r.in(0, 3) == 0) { scenario(r); return; }
	GRef t;
	int format = r.in(0, 3);	// ruml, sturtevant, seed, made by hand
	int big = r.in(0, 5) == 0 && ctx.prop != "P14" ? 30 : 9;
	t.w = r.in(1, big); t.h = r.in(1, big);
	bool eight = r.in(0, 1);
	t.moves = format == 1 ? Octile : eight ? EightWay : FourWay;
	t.life = format != 1 && r.in(0, 1);
	int dens = r.in(0, 3) ? r.in(0, 40) : 0;
	t.rows.assign(t.h, std::string(t.w, ' '));
	const char *terr = ".....GG@OTSSSWWW";
	for (auto &row : t.rows) for (char &c : row) {
		if (format == 1) { c = r.in(0, 99) < dens ? terr[r.in(0, 15)] : '.'; }
		else if (r.in(0, 99) < dens) c = '#';
	}
	std::unique_ptr<GridMap> m;
	if (format == 0) {
		t.inst = fmt("%d %d\nBoard:\n", t.h, t.w);
		for (int y = t.h - 1; y >= 0; y--) t.inst += t.rows[y] + "\n";	// the first line is the highest y
		t.inst += t.life ? "Life\n" : "Unit\n";
		t.inst += eight ? "Eight-way\n" : "Four-way\n";
		t.name = "gridnav board";
	} else if (format == 1) {
		t.inst = fmt("type octile\nheight %d\nwidth %d\nmap\n", t.h, t.w);
		for (auto &row : t.rows) t.inst += row + "\n";
		t.name = "gridnav octile";
	} else if (format == 2) {
		uint64_t seed = r.in(0, 9) ? r.in(0, 1000000) : ~0ul - r.in(0, 5);
		double prob = dens ? dens / 100.0 : 1e-9;
		t.inst = fmt("seed %lu %d %d %f\n%s\n%s\n", (unsigned long) seed, t.w, t.h, prob, eight ? "Eightway" : "Fourway", t.life ? "Life" : "Unit");
		// What the seed stands for, cell by cell.
		::Rand rnd(seed);
		for (int x = 0; x < t.w; x++) for (int y = 0; y < t.h; y++) t.rows[y][x] = rnd.real() < strtod(fmt("%f", prob).c_str(), NULL) ? '#' : ' ';
		t.name = "gridnav seed";
	} else {
		t.name = "gridnav made";
		m.reset(new GridMap(t.w, t.h));
		if (eight) m->seteightway();
		m->lifecost = t.life;
		for (int y = 0; y < t.h; y++) for (int x = 0; x < t.w; x++) if (t.rows[y][x] == '#') m->block(m->index(x + 1, y + 1));
		t.inst = fmt("%d %d\n", t.w, t.h);
		for (auto &row : t.rows) t.inst += row + "\n";
	}
	std::vector<std::pair<int,int> > free;
	for (int y = 0; y < t.h; y++) for (int x = 0; x < t.w; x++) if (!blocked(t.rows[y][x])) free.push_back(std::make_pair(x, y));
	if (free.empty()) return;
	auto s = free[r.in(0, free.size() - 1)], g = free[r.in(0, free.size() - 1)];
	t.x0 = s.first; t.y0 = s.second; t.xg = g.first; t.yg = g.second;
	std::string text = t.inst + (format == 1 ? "" : "\n") + fmt("%d %d %d %d\n", t.x0, t.y0, t.xg, t.yg);
	unsigned a = t.x0, b = t.y0, c = t.xg, d = t.yg;
	if (!m) {
		FILE *f = dt::memfile(text);
		m.reset(new GridMap(f));
		if (fscanf(f, " %u %u %u %u", &a, &b, &c, &d) != 4) fail("gridnav: the locations are not left in the file", "[%s]", dt::esc(text).c_str());
		fclose(f);
	}
	t.inst = text;
	if (sv::wanted()) {
		if (format == 3) return;
		sv::Opts o; o.consistent = false; o.reversible = !t.life; o.unit = !t.life && !eight && format != 1; o.lvl = true;
		sv::solve(r, o, "gridnav", text, sv::optimum(t, 3000), 1e-6);
		return;
	}
	if (ctx.prop == "P15") {
		if ((int) m->w != t.w + 2 || (int) m->h != t.h + 2 || m->lifecost != t.life) fail("gridnav: loaded map differs", "%u x %u life %d: [%s]", m->w, m->h, (int) m->lifecost, dt::esc(text).c_str());
		for (int y = -1; y <= t.h; y++) for (int x = -1; x <= t.w; x++) {
			bool in = x >= 0 && y >= 0 && x < t.w && y < t.h;
			bool want = !in || blocked(t.rows[y][x]);
			if (m->blkd(m->index(x + 1, y + 1)) != want) fail("gridnav: loaded map differs", "cell %d,%d blocked: %d: [%s]", x, y, (int) !want, dt::esc(text).c_str());
		}
		stat("maps compared");
	}
	GridNav dom(m.get(), a, b, c, d);
	dt::explore(dom, t, r, 2000, 1000, 1, 30);
}
std::vector<Kind> vh::kinds() { return { { "gridnav", instance, 1 } }; }
