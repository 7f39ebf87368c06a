// The instance generators: valid, solvable, reproducible instances (P23).
#define VH_MAIN
#include "vh.hpp"
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include "traffic/traffic.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <queue>
#include <array>
#include <sstream>
using namespace vh;

typedef std::vector<std::string> Args;
static std::string show(const Args &a) { std::string s; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + a[i]; return s; }
static std::string flat(std::string s) { if (s.size() > 900) s.resize(900); for (char &c : s) if (c == '\n') c = '/'; return s; }
static const char *prog(const char *n) { return getenv((std::string("PROG_") + n).c_str()); }
static void add(Args &a, const char *o, const std::string &v) { a.push_back(o); a.push_back(v); }

// Runs a generator, twice if it is to be reproducible.
static std::string generate(const Args &a, const std::string &in, bool twice, const std::string &name, int secs = 60) {
	std::string what = name + " " + show(a);
	note("%s on [%s]", what.c_str(), flat(in).c_str());
	Child c = run(a, in, secs, scratch());
	stat("runs of " + name);
	if (!c.sane() || c.code) fail(name + ": the program failed", "%s: %s: on [%s]", what.c_str(), c.describe().c_str(), flat(in).c_str());
	if (twice) {
		Child d = run(a, in, secs, scratch());
		if (!d.sane() || d.code || d.out != c.out) fail(name + ": not reproducible", "%s: [%s] and [%s]", what.c_str(), flat(c.out).c_str(), flat(d.out).c_str());
		stat("reproduced");
	}
	return c.out;
}
// The domain's own program accepts the instance.
static void accepted(const char *solver, const std::string &inst, bool solvable, const std::string &what) {
	const char *p = prog(solver);
	if (!p) return;
	Child c = run({ p, "speedy", "-gend", "20000" }, inst, 60, scratch());
	std::string len, gend;
	size_t i = c.out.find("\"final sol length\"\t\"");
	if (i != std::string::npos) len = c.out.substr(i + 20);
	i = c.out.find("\"total nodes generated\"\t\"");
	if (i != std::string::npos) gend = c.out.substr(i + 25);
	if (!c.sane() || c.code) fail(std::string(solver) + ": does not accept a generated instance", "%s: %s: [%s]", what.c_str(), c.describe().c_str(), flat(inst).c_str());
	if (solvable && atol(gend.c_str()) < 20000 && atol(len.c_str()) <= 0) fail(std::string(solver) + ": no solution to a generated instance", "%s: [%s]", what.c_str(), flat(inst).c_str());
	stat("instances given to the solver programs");
}
static std::string seed(Rng &r) { return r.in(0, 9) ? fmt("%ld", (long) r.in(1, 1000000)) : r.in(0, 1) ? fmt("%d", (int) r.in(1, 5)) : fmt("%ld", (long) r.in(1l << 40, 1l << 60)); }

// Sliding tiles.
static void tilesgen(Rng &r) {
	int w = r.in(1, 5), h = r.in(1, 5), n = r.in(1, 5);
	if (w * h < 2 || ((w == 1 || h == 1) && w * h > 6)) w = h = 3;
	Args a = { prog("generator") };
	std::string s = seed(r), d1 = scratch() + "/g1", d2 = scratch() + "/g2";
	for (auto &d : { d1, d2 }) { wipe(d); mkdir(d.c_str(), 0777); }
	add(a, "-w", fmt("%d", w)); add(a, "-h", fmt("%d", h)); add(a, "-n", fmt("%d", n)); add(a, "-seed", s); add(a, "-d", d1);
	std::string what = "generator " + show(a);
	generate(a, "", false, "generator");
	a.back() = d2;
	generate(a, "", false, "generator");
	std::vector<std::string> files = readdir(d1, false);
	if ((int) files.size() != n) fail("generator: number of files", "%zu: %s", files.size(), what.c_str());
	std::set<std::string> distinct;
	for (int i = 0; i < n; i++) {
		std::string t = readfile(d1 + fmt("/%d", i));
		if (t != readfile(d2 + fmt("/%d", i))) fail("generator: not reproducible", "file %d: %s", i, what.c_str());
		distinct.insert(t);
		std::stringstream ss(t);
		std::string l;
		std::getline(ss, l);
		if (l != fmt("%d %d", w, h)) fail("generator: size", "%s: %s", l.c_str(), what.c_str());
		std::getline(ss, l);
		std::vector<int> at, goal;
		for (int k = 0; k < w * h; k++) { int x = -1; ss >> x; at.push_back(x); }
		ss >> std::ws; std::getline(ss, l);
		for (int k = 0; k < w * h; k++) { int x = -1; ss >> x; goal.push_back(x); }
		if (!ss || !(ss >> std::ws).eof()) fail("generator: format", "[%s]: %s", flat(t).c_str(), what.c_str());
		std::vector<int> inv(w * h, -1), ginv(w * h, -1);
		for (int k = 0; k < w * h; k++) { if (at[k] >= 0 && at[k] < w * h) inv[at[k]] = k; if (goal[k] >= 0 && goal[k] < w * h) ginv[goal[k]] = k; }
		for (int k = 0; k < w * h; k++) if (inv[k] < 0 || ginv[k] < 0) fail("generator: not a permutation", "[%s]: %s", flat(t).c_str(), what.c_str());
		bool ok;
		if (w == 1 || h == 1) {	// the tiles cannot pass each other
			std::vector<int> p, q;
			for (int k = 0; k < w * h; k++) { if (inv[k]) p.push_back(inv[k]); if (ginv[k]) q.push_back(ginv[k]); }
			ok = p == q;
		} else {
			// Every move swaps the blank with a neighbour: the parity of the
			// permutation has to be that of the blank's distance.
			int cycles = 0;
			std::vector<char> seen(w * h, 0);
			for (int k = 0; k < w * h; k++) if (!seen[k]) { cycles++; for (int j = k; !seen[j]; j = ginv[at[j]]) seen[j] = 1; }
			int dist = abs(at[0] % w - goal[0] % w) + abs(at[0] / w - goal[0] / w);
			ok = (w * h - cycles) % 2 == dist % 2;
		}
		if (!ok) fail("generator: unsolvable", "[%s]: %s", flat(t).c_str(), what.c_str());
		stat("tiles instances");
		if (w == 3 && h == 3 && r.in(0, 3) == 0) accepted("tilessolver", t, true, what);
		if (wantsample()) sample("%s: [%s]", what.c_str(), flat(t).c_str());
	}
	if (w * h >= 9 && w > 1 && h > 1 && n > 1 && distinct.size() < 2) fail("generator: all instances are the same", "%s", what.c_str());
	sig(hashstr(what));
}

// Reorienting segments.
static void segmentsgen(Rng &r) {
	Args a = { prog("mkinst") };
	int n = r.in(0, 8), w = r.in(5, 60), h = r.in(5, 60), na = 2 * r.in(1, 20);
	double maxr = r.in(1, std::min(w, h) / 2 * 10) / 10.0, minr = r.in(0, (int) (maxr * 10)) / 10.0;
	if (2 * ceil(maxr) > std::min(w, h)) maxr = floor(maxr);
	minr = std::min(minr, maxr);
	while (n * (maxr + 1) * (maxr + 1) * 4 > w * h && n > 1) n--;	// there is to be room
	add(a, "-nsegs", fmt("%d", n)); add(a, "-width", fmt("%d", w)); add(a, "-height", fmt("%d", h)); add(a, "-nangles", fmt("%d", na));
	add(a, "-maxr", fmt("%.17g", maxr)); add(a, "-minr", fmt("%.17g", minr)); add(a, "-seed", seed(r));
	std::string what = "mkinst " + show(a), out = generate(a, "", true, "mkinst"), s = out;
	if (s[0] != '#') fail("mkinst: format", "[%s]: %s", flat(out).c_str(), what.c_str());
	s = s.substr(s.find('\n') + 1);
	std::stringstream ss(s);
	int w2 = 0, h2 = 0, na2 = 0, n2 = -1;
	ss >> w2 >> h2 >> na2 >> n2;
	if (w2 != w || h2 != h || na2 != na || n2 != n) fail("mkinst: header", "[%s]: %s", flat(out).c_str(), what.c_str());
	struct Pose { double x, y, t; };
	std::vector<double> rad; std::vector<Pose> pose[2];
	for (int i = 0; i < n; i++) {
		double q; Pose p[2];
		ss >> q >> p[0].x >> p[0].y >> p[0].t >> p[1].x >> p[1].y >> p[1].t;
		if (!ss || q < minr - 1e-9 || q > maxr + 1e-9) fail("mkinst: radius", "[%s]: %s", flat(out).c_str(), what.c_str());
		rad.push_back(q);
		for (int k = 0; k < 2; k++) { if (p[k].t < 0 || p[k].t >= na || p[k].t != floor(p[k].t)) fail("mkinst: angle", "[%s]: %s", flat(out).c_str(), what.c_str()); pose[k].push_back(p[k]); }
	}
	if (!(ss >> std::ws).eof()) fail("mkinst: format", "[%s]: %s", flat(out).c_str(), what.c_str());
	for (int k = 0; k < 2; k++) {
		std::vector<std::array<double, 4> > e;
		for (int i = 0; i < n; i++) {
			double t = 2 * M_PI * pose[k][i].t / na, dx = rad[i] * cos(t), dy = rad[i] * sin(t);
			e.push_back({ { pose[k][i].x - dx, pose[k][i].y - dy, pose[k][i].x + dx, pose[k][i].y + dy } });
			for (int j = 0; j < 4; j++) if (e[i][j] < -1e-6 || e[i][j] > (j % 2 ? h : w) + 1e-6) fail("mkinst: outside", "segment %d, %s: [%s]: %s", i, k ? "goal" : "start", flat(out).c_str(), what.c_str());
			for (int j = 0; j < i; j++) {
				auto side = [](const std::array<double, 4> &s, double x, double y) { double ux = s[2] - s[0], uy = s[3] - s[1], l = hypot(ux, uy); return l > 0 ? (ux * (y - s[1]) - uy * (x - s[0])) / l : 0; };
				double a1 = side(e[i], e[j][0], e[j][1]), a2 = side(e[i], e[j][2], e[j][3]), b1 = side(e[j], e[i][0], e[i][1]), b2 = side(e[j], e[i][2], e[i][3]);
				auto across = [](double p, double q) { return (p > 1e-6 && q < -1e-6) || (p < -1e-6 && q > 1e-6); };
				if (across(a1, a2) && across(b1, b2)) fail("mkinst: segments overlap", "%d and %d, %s: [%s]: %s", j, i, k ? "goal" : "start", flat(out).c_str(), what.c_str());
				stat("pairs of segments");
			}
		}
	}
	stat("segments instances");
	if (r.in(0, 4) == 0) accepted("segmentssolver", out, false, what);
	if (n > 1) sig(hashstr(what));
}

// Moving obstacles.
static void trafficgen(Rng &r) {
	int w = r.in(2, 9), h = r.in(2, 9), n = r.in(0, w * h / 3);
	Args a = { prog("trafficgen"), fmt("%d", w), fmt("%d", h), fmt("%d", n), fmt("%d", (int) r.in(0, 100000)) };
	std::string what = "traffic randinst " + show(a), out;
	note("%s", what.c_str());
	// It searches a random instance without a solution until memory is short.
	Child c = run(a, "", 5, scratch());
	if (c.sig == SIGXCPU) { stat("traffic instances given up"); return; }
	out = generate(a, "", false, "traffic randinst");
	if (c.code || c.out != out) fail("traffic randinst: not reproducible", "%s: [%s] and [%s]", what.c_str(), flat(c.out).c_str(), flat(out).c_str());
	std::stringstream ss(out);
	int x0 = -1, y0 = -1, xg = -1, yg = -1, w2 = 0, h2 = 0;
	ss >> x0 >> y0 >> xg >> yg >> w2 >> h2;
	if (!ss || w2 != w || h2 != h || x0 || y0 || xg != w - 1 || yg != h - 1) fail("traffic randinst: header", "[%s]: %s", flat(out).c_str(), what.c_str());
	struct Ob { int x, y, dx, dy; };
	std::vector<Ob> obs;
	Ob o;
	while (ss >> o.x >> o.y >> o.dx >> o.dy) { if (o.x < 0 || o.y < 0 || o.x >= w || o.y >= h || abs(o.dx) > 1 || abs(o.dy) > 1) fail("traffic randinst: obstacle", "[%s]: %s", flat(out).c_str(), what.c_str()); obs.push_back(o); }
	if (!ss.eof() || (int) obs.size() != n) fail("traffic randinst: obstacles", "%zu of %d: [%s]: %s", obs.size(), n, flat(out).c_str(), what.c_str());
	// Is there a way, at any time of the obstacles' cycle?
	int T = 4 * (w - 1) * (h - 1);
	auto pos = [](int p, int v, int m, int t) { int q = ((p + v * t) % (2 * (m - 1)) + 2 * (m - 1)) % (2 * (m - 1)); return q < m ? q : 2 * (m - 1) - q; };
	std::vector<std::vector<char> > blk(T, std::vector<char>(w * h, 0));
	for (int t = 0; t < T; t++) for (auto &b : obs) blk[t][pos(b.y, b.dy, h, t) * w + pos(b.x, b.dx, w, t)] = 1;
	std::vector<char> seen(T * w * h, 0);
	std::queue<int> q; q.push(0); seen[0] = 1;
	bool ok = false;
	while (!q.empty() && !ok) {
		int s = q.front(), t = s / (w * h), c = s % (w * h), x = c % w, y = c / w, u = (t + 1) % T; q.pop();
		if (c == w * h - 1) ok = true;
		static const int dx[] = { 0, 0, 0, -1, 1 }, dy[] = { 0, -1, 1, 0, 0 };
		for (int k = 0; k < 5; k++) {
			int nx = x + dx[k], ny = y + dy[k], d = ny * w + nx;
			if (nx < 0 || ny < 0 || nx >= w || ny >= h || blk[u][d] || seen[u * w * h + d]) continue;
			bool swap = false;
			for (auto &b : obs) if (pos(b.x, b.dx, w, t) == nx && pos(b.y, b.dy, h, t) == ny && pos(b.x, b.dx, w, u) == x && pos(b.y, b.dy, h, u) == y) swap = true;
			if (swap) continue;
			seen[u * w * h + d] = 1; q.push(u * w * h + d);
		}
	}
	if (!ok) fail("traffic randinst: unsolvable", "[%s]: %s", flat(out).c_str(), what.c_str());
	stat("traffic instances");
	FILE *f = strfile(out);
	Traffic loaded(f);
	fclose(f);
	char *buf = NULL; size_t len = 0;
	f = open_memstream(&buf, &len);
	loaded.output(f);
	fclose(f);
	std::string again(buf, len);
	free(buf);
	if (again != out) fail("traffic: an instance is written differently once loaded", "[%s] and [%s]", flat(out).c_str(), flat(again).c_str());
	if (r.in(0, 4) == 0) accepted("trafficsolver", out, true, what);
	if (n) sig(hashstr(what));
}

static bool reachable(const std::vector<std::string> &rows, int w, int h, bool eight, int x0, int y0, int xg, int yg) {
	std::vector<char> seen(w * h, 0);
	std::queue<int> q;
	if (rows[y0][x0] == '#') return false;
	q.push(y0 * w + x0); seen[y0 * w + x0] = 1;
	while (!q.empty()) {
		int x = q.front() % w, y = q.front() / w; q.pop();
		for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
			if (!eight && dx && dy) continue;
			int nx = x + dx, ny = y + dy;
			if (nx < 0 || ny < 0 || nx >= w || ny >= h || rows[ny][nx] == '#' || seen[ny * w + nx]) continue;
			seen[ny * w + nx] = 1; q.push(ny * w + nx);
		}
	}
	return seen[yg * w + xg];
}

// Grids that are named by a seed.
static void seedgen(Rng &r) {
	int w = r.in(1, 12), h = r.in(1, 12);
	bool life = r.in(0, 1), eight = r.in(0, 1);
	double prob = r.in(1, 45) / 100.0;
	std::string sd = seed(r);
	if (r.in(0, 3) == 0) {
		// A probability of many digits, and a seed for which they matter.
		w = r.in(4, 8); h = 1; prob = 6e-7;
		uint64_t s = r.in(1, 1 << 30); bool found = false;
		for (int i = 0; i < 1500000 && !found; i++) { ::Rand q(++s); for (int x = 0; x < w; x++) { double v = q.real(); if (v >= 6e-7 && v < 1e-6) found = true; } }
		if (!found) return;
		sd = fmt("%lu", (unsigned long) s);
		stat("seeds at the edge of a probability");
	}
	Args a = { prog("mkseedinst") };
	add(a, "-width", fmt("%d", w)); add(a, "-height", fmt("%d", h)); add(a, "-prob", fmt("%.17g", prob)); add(a, "-seed", sd);
	if (life) a.push_back("-lifecost");
	if (eight) a.push_back("-eightway");
	std::string what = "mkseedinst " + show(a), out = generate(a, "", true, "mkseedinst");
	unsigned long s; int w2, h2, x0, y0, xg, yg, n = 0; double p2; char mv[32], cost[32];
	if (sscanf(out.c_str(), "seed %lu %d %d %lg\n%31s\n%31s\n%d %d\n%d %d\n%n", &s, &w2, &h2, &p2, mv, cost, &x0, &y0, &xg, &yg, &n) != 10 || n != (int) out.size()) fail("mkseedinst: format", "[%s]: %s", flat(out).c_str(), what.c_str());
	if (w2 != w || h2 != h || fabs(p2 - prob) > 1e-6 || std::string(mv) != (eight ? "Eightway" : "Fourway") || std::string(cost) != (life ? "Life" : "Unit") || s < strtoul(sd.c_str(), NULL, 10)) fail("mkseedinst: options", "[%s]: %s", flat(out).c_str(), what.c_str());
	if (x0 < 0 || y0 < 0 || xg < 0 || yg < 0 || x0 >= w || xg >= w || y0 >= h || yg >= h) fail("mkseedinst: location", "[%s]: %s", flat(out).c_str(), what.c_str());
	::Rand rnd(s);
	std::vector<std::string> rows(h, std::string(w, ' '));
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (rnd.real() < p2) rows[y][x] = '#';
	if (!reachable(rows, w, h, eight, x0, y0, xg, yg)) fail("mkseedinst: unsolvable", "[%s]: %s", flat(out).c_str(), what.c_str());
	stat("seed instances");
	if (r.in(0, 4) == 0) accepted("gridnavsolver", out, true, what);
	sig(hashstr(what));
}

// Random locations on a grid.
static void randgen_(Rng &r) {
	int w = r.in(1, 8), h = r.in(1, 8), dens = r.in(0, 70);
	bool octile = r.in(0, 1);
	std::vector<std::string> rows(h, std::string(w, ' '));
	int nfree = 0;
	for (auto &row : rows) for (char &c : row) { if (r.in(0, 99) < dens) c = '#'; else nfree++; }
	if (!nfree) return;
	std::string map;
	if (octile) {
		map = fmt("type octile\nheight %d\nwidth %d\nmap\n", h, w);
		for (auto row : rows) { for (char &c : row) c = c == '#' ? "@OTSW"[r.in(0, 4)] : ".G"[r.in(0, 1)]; map += row + "\n"; }
		// Swamp and trees can be walked in, too, but are no places to begin at.
	} else {
		map = fmt("%d %d\nBoard:\n", h, w);
		for (int y = h - 1; y >= 0; y--) map += rows[y] + "\n";
		map += r.in(0, 1) ? "Unit\n" : "Life\n";
		map += r.in(0, 1) ? "Eight-way\n" : "Four-way\n";
	}
	std::string path = scratch() + "/map";
	writefile(path, map);
	Args a = { prog("gridrand"), "-m", path, "-s", seed(r) };
	std::string what = "gridnav randinst " + show(a) + " on [" + flat(map) + "]", out = generate(a, "", true, "gridnav randinst");
	int x[2], y[2], n = 0;
	if (out.compare(0, map.size(), map) || sscanf(out.c_str() + map.size(), "%d %d %d %d\n%n", x, y, x + 1, y + 1, &n) != 4 || n + map.size() != out.size()) fail("gridnav randinst: output", "[%s]: %s", flat(out).c_str(), what.c_str());
	for (int k = 0; k < 2; k++) {
		if (x[k] < 0 || y[k] < 0 || x[k] >= w || y[k] >= h) fail("gridnav randinst: outside", "%d %d: %s", x[k], y[k], what.c_str());
		if (rows[y[k]][x[k]] == '#') fail("gridnav randinst: blocked", "%d %d: %s", x[k], y[k], what.c_str());
	}
	stat("grid instances");
	if (r.in(0, 4) == 0) accepted("gridnavsolver", out, false, what);
	sig(hashstr(what));
}

// Pictures as grids.
static void ppm(Rng &r) {
	int w = r.in(1, 12), h = r.in(1, 8), max = r.in(0, 2) ? 255 : r.in(1, 1000);
	std::string in = "P3\n", want = fmt("%d %d\nBoard:\n", h, w);
	if (r.in(0, 1)) in += "# a remark\n";
	in += fmt("%d %d\n", w, h);
	if (r.in(0, 5) == 0) in += "# another\n";
	in += fmt("%d\n", max);
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			int c[3] = { max, max, max };
			bool white = r.in(0, 1);
			if (!white) { if (r.in(0, 1)) c[0] = c[1] = c[2] = 0; else c[r.in(0, 2)] = r.in(0, max - 1); }
			in += fmt("%d %d %d", c[0], c[1], c[2]) + (r.in(0, 1) ? " " : "\n");
			want += white ? ' ' : '#';
		}
		want += "\n";
	}
	std::string out = generate({ prog("ppm2grid") }, in, false, "ppm2grid");
	if (out != want) fail("ppm2grid: grid", "[%s], not [%s], from [%s]", flat(out).c_str(), flat(want).c_str(), flat(in).c_str());
	stat("pictures");
	sig(hashstr(in));
}

// Scenarios as entries of a database.
static void scenario(Rng &r) {
	int n = r.in(0, 8);
	std::string root = scratch() + fmt("/sdb%ld", ctx.cur), file = scratch() + "/" + (r.in(0, 1) ? "some.map.scen" : "s.scen");
	std::string in = r.in(0, 1) ? "version 1\n" : "version 1.0\n";
	struct E { std::string map, cost; int x0, y0, x1, y1, bucket; };
	std::vector<E> es;
	for (int i = 0; i < n; i++) {
		E e = { r.in(0, 1) ? "maps/dao/a.map" : "b.map", fmt("%.8f", r.in(0, 100000) / 1000.0), (int) r.in(0, 500), (int) r.in(0, 500), (int) r.in(0, 500), (int) r.in(0, 500), (int) r.in(0, 3) };
		es.push_back(e);
		in += fmt("%d\t%s\t512\t512\t%d\t%d\t%d\t%d\t%s", e.bucket, e.map.c_str(), e.x0, e.y0, e.x1, e.y1, e.cost.c_str());
		if (i < n - 1 || r.in(0, 1)) in += "\n";
	}
	writefile(file, in);
	std::string out = generate({ prog("scenario2rdb"), root, file }, "", false, "scenario2rdb"), what = "[" + flat(in) + "]";
	std::stringstream ss(out);
	std::string path;
	int i = 0;
	for (; std::getline(ss, path); i++) {
		if (i >= n) fail("scenario2rdb: entries", "%s: %s", path.c_str(), what.c_str());
		RdbAttrs q, a = pathattrs(path);
		const E &e = es[i];
		std::map<std::string, std::string> want = { { "scenario file", basename(file) }, { "bucket", fmt("%d", e.bucket) }, { "map", basename(e.map) }, { "num", fmt("%d", i) } };
		for (auto &p : want) { if (!a.mem(p.first) || a.lookup(p.first) != p.second) fail("scenario2rdb: attributes", "entry %d: %s: %s", i, a.string().c_str(), what.c_str()); q.push_back(p.first, p.second); }
		if (withattrs(root, q) != std::vector<std::string>(1, path)) fail("scenario2rdb: entry not found", "%d: %s", i, what.c_str());
		std::string t = readfile(path);
		std::vector<std::pair<std::string, std::string> > pairs = { { "map", e.map }, { "optimal cost", e.cost }, { "start x", fmt("%d", e.x0) }, { "start y", fmt("%d", e.y0) }, { "goal x", fmt("%d", e.x1) }, { "goal y", fmt("%d", e.y1) }, { "num", fmt("%d", i) } };
		for (auto &p : pairs) if (t.find("#pair  \"" + p.first + "\"\t\"" + p.second + "\"\n") == std::string::npos) fail("scenario2rdb: contents", "entry %d, %s: [%s]: %s", i, p.first.c_str(), flat(t).c_str(), what.c_str());
		if (t.compare(0, 26, "#start data file format 4\n") || t.size() < 24 || t.substr(t.size() - 24) != "#end data file format 4\n") fail("scenario2rdb: markers", "[%s]", flat(t).c_str());
		stat("scenario entries");
	}
	if (i != n || (n && (int) withattrs(root, RdbAttrs()).size() != n)) fail("scenario2rdb: entries", "%d of %d: %s", i, n, what.c_str());
	wipe(root);
	if (n) sig(hashstr(in));
}

// Maps of polygons, and places on them.
struct Poly_ { std::vector<std::pair<double,double> > v; };
static bool inside(const Poly_ &p, double x, double y) {	// not on the boundary
	bool in = false;
	for (size_t i = 0, j = p.v.size() - 1; i < p.v.size(); j = i++) {
		long double xi = p.v[i].first, yi = p.v[i].second, xj = p.v[j].first, yj = p.v[j].second;
		long double c = (xj - xi) * ((long double) y - yi) - (yj - yi) * ((long double) x - xi);
		if (c == 0 && x >= std::min(xi, xj) && x <= std::max(xi, xj) && y >= std::min(yi, yj) && y <= std::max(yi, yj)) return false;
		if ((yi > y) != (yj > y) && ((yj > yi) == (c > 0))) in = !in;
	}
	return in;
}
static std::vector<Poly_> readpolys(std::stringstream &ss, const std::string &what) {
	int n = -1; std::string word;
	ss >> n >> word;
	std::vector<Poly_> ps;
	if (word != "polygons") n = -1;
	for (int i = 0; i < n; i++) {
		int m = -1; ss >> m;
		Poly_ p;
		for (int k = 0; k < m && ss; k++) { double x, y; ss >> x >> y; p.v.push_back(std::make_pair(x, y)); }
		ps.push_back(p);
	}
	if (!ss || n < 0) fail("map of polygons: format", "%s", what.c_str());
	return ps;
}
static void polygons(Rng &r) {
	int n = r.in(1, 12), nv = r.in(3, 9);
	double max = r.in(20, 120) / 1000.0, min = max * r.in(10, 99) / 100.0;
	Args a = { prog("vrand") };
	add(a, "-npolys", fmt("%d", n)); add(a, "-nverts", fmt("%d", nv)); add(a, "-minrad", fmt("%g", min)); add(a, "-maxrad", fmt("%g", max));
	std::string path = scratch() + "/polys";
	if (r.in(0, 1)) add(a, "-o", path); else path = "";
	std::string what = "rand " + show(a), out = generate(a, "", false, "visnav rand");
	if (!path.empty()) out = readfile(path);
	std::stringstream ss(out);
	std::vector<Poly_> ps = readpolys(ss, what);
	if ((int) ps.size() != n || !(ss >> std::ws).eof()) fail("visnav rand: polygons", "%zu: %s", ps.size(), what.c_str());
	std::vector<std::array<double, 4> > box;
	for (auto &p : ps) {
		if ((int) p.v.size() > nv || p.v.size() < 3) fail("visnav rand: vertices", "%zu: %s", p.v.size(), what.c_str());
		std::array<double, 4> b = { { 2, 2, -1, -1 } };
		for (auto &v : p.v) { b[0] = std::min(b[0], v.first); b[1] = std::min(b[1], v.second); b[2] = std::max(b[2], v.first); b[3] = std::max(b[3], v.second); }
		if (b[0] < -1e-9 || b[1] < -1e-9 || b[2] > 1 + 1e-9 || b[3] > 1 + 1e-9) fail("visnav rand: outside of the unit square", "[%s]: %s", flat(out).c_str(), what.c_str());
		if (b[2] - b[0] > 2 * max + 1e-9 || b[3] - b[1] > 2 * max + 1e-9) fail("visnav rand: too big", "[%s]: %s", flat(out).c_str(), what.c_str());
		for (auto &q : box) if (q[0] < b[2] - 1e-9 && b[0] < q[2] - 1e-9 && q[1] < b[3] - 1e-9 && b[1] < q[3] - 1e-9) fail("visnav rand: polygons overlap", "[%s]: %s", flat(out).c_str(), what.c_str());
		box.push_back(b);
	}
	stat("maps of polygons");
	sig(hashstr(out));
	if (n > 8 || nv > 6) return;
	Child g = run({ prog("mkgraph") }, out, 60, scratch());
	if (!g.sane() || g.code) fail("mkgraph: the program failed", "%s: [%s]", g.describe().c_str(), flat(out).c_str());
	std::string inst = generate({ prog("vinst") }, g.out, false, "visnav inst");
	if (inst.compare(0, g.out.size(), g.out)) fail("visnav inst: graph", "[%s]", flat(out).c_str());
	double x[2], y[2];
	if (sscanf(inst.c_str() + g.out.size(), "%lf %lf %lf %lf", x, y, x + 1, y + 1) != 4) fail("visnav inst: locations", "[%s]", flat(inst.substr(g.out.size())).c_str());
	for (int k = 0; k < 2; k++) {
		if (x[k] < 0 || x[k] > 1 || y[k] < 0 || y[k] > 1) fail("visnav inst: outside of the unit square", "%g %g: [%s]", x[k], y[k], flat(out).c_str());
		for (auto &p : ps) if (inside(p, x[k], y[k])) fail("visnav inst: inside of an obstacle", "%.17g %.17g: [%s]", x[k], y[k], flat(out).c_str());
	}
	stat("visnav instances");
	if (r.in(0, 2) == 0) accepted("visnavsolver", inst, true, "visnav inst");
}
// A free slit so narrow that few digits of a location miss it.
static void slit(Rng &r) {
	double x = r.in(100, 800) / 1000.0 + r.in(0, 999) * 1e-7, w = 1e-5;
	std::string map = fmt("2 polygons\n4 -0.5 -0.5 %.17g -0.5 %.17g 1.5 -0.5 1.5\n4 %.17g -0.5 1.5 -0.5 1.5 1.5 %.17g 1.5\n", x, x, x + w, x + w);
	Child g = run({ prog("mkgraph") }, map, 60, scratch());
	if (!g.sane() || g.code) fail("mkgraph: the program failed", "%s: [%s]", g.describe().c_str(), flat(map).c_str());
	std::string inst = generate({ prog("vinst") }, g.out, false, "visnav inst");
	double px[2], py[2];
	if (inst.compare(0, g.out.size(), g.out) || sscanf(inst.c_str() + g.out.size(), "%lf %lf %lf %lf", px, py, px + 1, py + 1) != 4) fail("visnav inst: locations", "[%s]", flat(inst).c_str());
	for (int k = 0; k < 2; k++) if (px[k] < x || px[k] > x + w) fail("visnav inst: inside of an obstacle", "%.17g is not from %.17g to %.17g", px[k], x, x + w);
	stat("narrow maps");
	sig(hashstr(inst));
}

std::vector<Kind> vh::kinds() {
	return { { "tiles", tilesgen, 6 }, { "segments", segmentsgen, 8 }, { "traffic", trafficgen, 6 }, { "seeds", seedgen, 6 }, { "grids", randgen_, 6 }, { "pictures", ppm, 4 }, { "scenarios", scenario, 3 }, { "polygons", polygons, 5 }, { "slit", slit, 1 } };
}
