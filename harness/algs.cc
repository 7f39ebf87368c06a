// Monitors of the search algorithms on explicit graphs (P01..P07).
#define VH_MAIN
#include "graphdom.hpp"
#include "utils/utils.hpp"
#include "algcfg.hpp"
using namespace vh;

unsigned long search_verif_closed_max = 64;
unsigned long maxops = getenv("MAXOPS") ? strtoul(getenv("MAXOPS"),0,10) : 3000000;

static std::string show(const Args &a) { std::string s; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + a[i]; return s; }

// The path is legal: returns its cost.
static double checkpath(const Graph &g, const Cfg &c, const RunOut &o, const std::string &what) {
	std::string id = show(c.a) + " on " + g.show() + what;
	if (!o.domerr.empty()) fail(c.name + ": interface misuse", "%s: %s", o.domerr.c_str(), id.c_str());
	if (!o.solved()) {
		if (!o.ops.empty()) fail(c.name + ": operators without a path", "%zu operators, no states: %s", o.ops.size(), id.c_str());
		return -1;
	}
	if (o.path[0] != g.start) fail(c.name + ": path does not begin at the start", "begins at %d: %s", o.path[0], id.c_str());
	if (!g.goal[o.path.back()]) fail(c.name + ": path does not end at a goal", "ends at %d: %s", o.path.back(), id.c_str());
	if (o.ops.size() + 1 != o.path.size()) fail(c.name + ": length mismatch", "%zu operators, %zu states: %s", o.ops.size(), o.path.size(), id.c_str());
	double cost = 0;
	for (size_t i = 0; i < o.ops.size(); i++) {
		int op = o.ops[i], k = (op - g.opadd) / g.opmul, s = o.path[i];
		if (op < g.opadd || (op - g.opadd) % g.opmul || k >= (int) g.adj[s].size()) fail(c.name + ": operator not applicable", "step %zu: operator %d in state %d: %s", i, op, s, id.c_str());
		if (g.adj[s][k].to != o.path[i+1]) fail(c.name + ": operator leads elsewhere", "step %zu: operator %d leads from %d to %d, path says %d: %s", i, op, s, g.adj[s][k].to, o.path[i+1], id.c_str());
		cost += g.adj[s][k].cost;
	}
	return cost;
}

static bool leq(double a, double b, double tol = 1e-7) { return a <= b + tol * std::max(1.0, std::fabs(b)); }

struct Row { double num, expd, gend, wt, bound, cost; };
static std::vector<Row> rows(const std::string &out, const char *name) {
	std::vector<Row> rs;
	std::string pre = std::string("#altrow  \"") + name + "\"\t";
	size_t p = 0;
	while ((p = out.find(pre, p)) != std::string::npos) {
		Row x; p += pre.size();
		if (sscanf(out.c_str() + p, "%lg\t%lg\t%lg\t%lg\t%lg\t%lg", &x.num, &x.expd, &x.gend, &x.wt, &x.bound, &x.cost) != 6) fail(std::string(name) + ": malformed row", "%s", out.substr(p, 100).c_str());
		rs.push_back(x);
	}
	return rs;
}
static std::string pairval(const std::string &out, const std::string &key) {
	std::string pre = "#pair  \"" + key + "\"\t\"";
	size_t p = out.find(pre);
	if (p == std::string::npos) return "";
	p += pre.size();
	return out.substr(p, out.find('"', p) - p);
}

// Anytime claims.
static void checkanytime(const Graph &g, const Cfg &c, const RunOut &o, double cost, const std::string &what) {
	std::string id = show(c.a) + " on " + g.show() + what;
	std::vector<Row> rs = rows(o.out, "incumbent");
	for (size_t i = 0; i < rs.size(); i++) {
		if (i && !(rs[i].cost < rs[i-1].cost)) fail(c.name + ": incumbents do not improve", "%g then %g: %s", rs[i-1].cost, rs[i].cost, id.c_str());
		if (rs[i].num != i + 1) fail(c.name + ": incumbent numbering", "row %zu numbered %g: %s", i + 1, rs[i].num, id.c_str());
		if (i && (rs[i].expd < rs[i-1].expd || rs[i].gend < rs[i-1].gend)) fail(c.name + ": incumbent statistics go backwards", "%s", id.c_str());
		if (g.copt < 0) fail(c.name + ": incumbent for an unsolvable problem", "%s", id.c_str());
		if (!leq(g.copt, rs[i].cost, 1e-4)) fail(c.name + ": incumbent cheaper than the optimum", "%g < %g: %s", rs[i].cost, g.copt, id.c_str());
		stat("incumbents");
		if (!g.consistent) continue;
		if (!leq(rs[i].cost, rs[i].bound * g.copt, 1e-4)) fail(c.name + ": incumbent outside its bound", "incumbent %g > bound %g * optimum %g: %s", rs[i].cost, rs[i].bound, g.copt, id.c_str());
		if (i && !leq(rs[i].bound, rs[i-1].bound, 1e-4)) fail(c.name + ": bound got worse", "%g then %g: %s", rs[i-1].bound, rs[i].bound, id.c_str());
		if (rs[i].bound > 1.0001) stat("incumbents with bound > 1");
	}
	if (o.solved() != !rs.empty()) fail(c.name + ": incumbents and solution disagree", "%zu incumbents, solution %d: %s", rs.size(), (int) o.solved(), id.c_str());
	if (o.solved() && !leq(cost, rs.back().cost, 1e-4)) fail(c.name + ": last incumbent is not the solution returned", "incumbent %g, solution %g: %s", rs.back().cost, cost, id.c_str());
	std::string conv = pairval(o.out, "converged");
	if (conv != "yes" && conv != "no") fail(c.name + ": no convergence report", "'%s': %s", conv.c_str(), id.c_str());
	if (conv == "yes") {
		stat("converged");
		if (g.consistent && g.copt >= 0 && (!o.solved() || !leq(cost, g.copt))) fail(c.name + ": converged without an optimal solution", "cost %g optimum %g: %s", cost, g.copt, id.c_str());
	} else stat("not converged");
}

// per-step records of the astar-dump output: g, h, D, d, h*, d* along the path
static void checkdump(const Graph &g, const Cfg &c, const RunOut &o, double cost) {
	std::string pre = "#altrow  \"path\"\t"; size_t p = 0; size_t i = 0;
	while ((p = o.out.find(pre, p)) != std::string::npos) {
		p += pre.size();
		double x[6];
		if (sscanf(o.out.c_str() + p, "%lg\t%lg\t%lg\t%lg\t%lg\t%lg", x, x+1, x+2, x+3, x+4, x+5) != 6) fail("astar-dump: malformed row", "%s", o.out.substr(p, 80).c_str());
		if (i >= o.path.size()) fail("astar-dump: too many rows", "%s", g.show().c_str());
		double hs = 0; size_t at = o.path.size() - 1 - i;
		for (size_t j = at; j < o.ops.size(); j++) hs += g.adj[o.path[j]][(o.ops[j] - g.opadd) / g.opmul].cost;
		if (std::fabs(x[4] - hs) > 1e-4 * std::max(1.0, hs) || x[5] != i) fail("astar-dump: dumped costs disagree with the path", "row %zu h*=%g d*=%g, expected %g %zu: %s", i, x[4], x[5], hs, i, g.show().c_str());
		if (std::fabs(x[0] + x[4] - cost) > 1e-3 * std::max(1.0, cost)) fail("astar-dump: g + remaining cost is not the solution cost", "row %zu g=%g h*=%g cost=%g: %s", i, x[0], x[4], cost, g.show().c_str());
		if (x[2] != at) fail("astar-dump: depth", "row %zu depth %g expected %zu: %s", i, x[2], at, g.show().c_str());
		if (std::fabs(x[3] - g.d[o.path[at]]) > 1e-4) fail("astar-dump: distance estimate", "row %zu: %s", i, g.show().c_str());
		if (std::fabs(x[1] - g.h[o.path[at]]) > 1e-3 * std::max(1.0, g.h[o.path[at]])) fail("astar-dump: heuristic value", "row %zu h %g expected %g: %s", i, x[1], g.h[o.path[at]], g.show().c_str());
		i++;
	}
	if (i != o.path.size()) fail("astar-dump: rows", "%zu rows for %zu states: %s", i, o.path.size(), g.show().c_str());
}

static void tick(Rng &r) {
	vclock = 1000; double st[] = { 1e-6, 1e-4, 1e-3, 0.05 }; vclockstep = st[r.in(0, 3)];
	unsigned long cm[] = { 1, 2, 3, 7, 16, 64, 1024 }; search_verif_closed_max = cm[r.in(0, 6)];
	randgen = Rand(r.next());
}

static void observe(const Graph &g, const Cfg &c, int variant, const RunOut &o) {
	stat(c.name);
	if (o.solved()) stat("solved"); else stat("no solution");
	if (o.reopnd) stat("runs with re-openings");
	if (o.dups) stat("runs with duplicates");
	if (o.expd >= 3) sig(mix(mix(g.digest(), hashstr(show(c.a))), variant * 131 + o.expd));
	if (wantsample() && o.expd > 3) sample("%s variant %d on %s -> %zu steps, %lu expanded", show(c.a).c_str(), variant, g.show().c_str(), o.ops.size(), o.expd);
}

static int pickvariant(Rng &r, GenOpts &o) { int v = r.in(0, NVariants - 1); o.dbl = variantdbl(v); return v; }

static Cfg pick(Rng &r, int groups, GenOpts &o) {
	Cfg c = mkcfg(r, groups);
	if (c.idastar) { o.small = true; o.zero = false; c.a.push_back("-expd"); c.a.push_back("200000"); }
	return c;
}

// ---- P01
static void kvalid(Rng &r) {
	GenOpts o; int v = pickvariant(r, o);
	Cfg c = pick(r, Best|Ida|Any|Beam|Bug|AnyMon, o);
	if (!c.idastar && r.p(0.15)) { c.a.push_back("-expd"); c.a.push_back(num(r.in(1, 40))); }
	Graph g = gengraph(r, o);
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunnerP rn = mkrunner(v, c.a);
	RunOut out = rn->search(g);
	double cost = checkpath(g, c, out, "");
	if (out.solved() && g.copt >= 0 && !leq(g.copt, cost)) fail("oracle", "solution cheaper than optimum: %s", g.show().c_str());
	if (out.solved() && c.name == "astar-dump") checkdump(g, c, out, cost);
	if (out.solved() && c.anytime) {
		std::vector<Row> rs = rows(out.out, "incumbent");
		if (rs.empty() || !leq(cost, rs.back().cost, 1e-4)) fail(c.name + ": path costs more than reported", "%g: %s %s", cost, show(c.a).c_str(), g.show().c_str());
	}
	std::string rep = rn->output();
	if (pairval(rep, "final sol length") != fmt("%zu", out.path.size())) fail(c.name + ": reported length", "%s vs %zu", pairval(rep, "final sol length").c_str(), out.path.size());
	observe(g, c, v, out);
}
// ---- P02
static void koptimal(Rng &r) {
	GenOpts o; int v = pickvariant(r, o); o.needadm = true;
	Cfg c;
	do { c = mkcfg(r, Best|Ida|Any); } while (!c.optimal);
	if (c.idastar) { o.small = true; o.zero = false; c.a.push_back("-expd"); c.a.push_back("200000"); }
	if (c.needcons) o.needcons = true;
	Graph g = gengraph(r, o);
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunnerP rn = mkrunner(v, c.a);
	RunOut out = rn->search(g);
	double cost = checkpath(g, c, out, "");
	if (c.idastar && out.expd >= 200000) { stat("inconclusive"); return; }
	if (g.copt >= 0 && !out.solved()) fail(c.name + ": no solution for a solvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	if (g.copt < 0 && out.solved()) fail(c.name + ": solution of an unsolvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	if (out.solved() && !leq(cost, g.copt)) fail(c.name + ": solution is not optimal", "cost %g, optimum %g: %s: %s", cost, g.copt, show(c.a).c_str(), g.show().c_str());
	if (out.solved()) { stat("optimal solutions"); if (!g.consistent) stat("optimal with inconsistent heuristic"); if (g.zerocost) stat("optimal with zero-cost actions"); }
	observe(g, c, v, out);
}
// ---- P03
static void kweighted(Rng &r) {
	GenOpts o; int v = pickvariant(r, o); o.needadm = true;
	Cfg c;
	do { c = mkcfg(r, Best); } while (c.w < 1 || c.name != "wastar");
	Graph g = gengraph(r, o);
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunOut out = mkrunner(v, c.a)->search(g);
	double cost = checkpath(g, c, out, "");
	if (g.copt >= 0 && !out.solved()) fail(c.name + ": no solution for a solvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	if (out.solved() && !leq(cost, c.w * g.copt)) fail(c.name + ": solution outside the bound", "cost %g, optimum %g: %s: %s", cost, g.copt, show(c.a).c_str(), g.show().c_str());
	if (out.solved() && cost > g.copt + 1e-9) stat("suboptimal within bound");
	observe(g, c, v, out);
}
static void kanytime(Rng &r) {
	GenOpts o; int v = pickvariant(r, o); o.needcons = true;
	Cfg c = mkcfg(r, r.p(0.6) ? Any : AnyMon);
	bool lim = r.p(0.35);
	Graph g = gengraph(r, o);
	if (lim) { c.a.push_back("-expd"); c.a.push_back(num(r.in(1, 60))); }
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunOut out = mkrunner(v, c.a)->search(g);
	double cost = checkpath(g, c, out, "");
	if (!lim && g.copt >= 0 && !out.solved()) fail(c.name + ": no solution for a solvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	checkanytime(g, c, out, cost, "");
	observe(g, c, v, out);
}
// ---- P04
static void kcomplete(Rng &r) {
	GenOpts o; int v = pickvariant(r, o);
	Cfg c = mkcfg(r, Best|Ida|Any|Beam|Bug|AnyMon);
	if (c.idastar) { o.small = true; o.zero = false; }
	Graph g = gengraph(r, o);
	if (c.idastar) {
		// Depth-first iterative deepening finds no end on cyclic unsolvable problems.
		bool finite = g.copt >= 0;
		if (!finite) {	// acyclic reachable part?
			std::vector<int> st(g.n, 0); bool cyc = false;
			std::function<void(int)> dfs = [&](int u) { st[u] = 1; for (auto &e : g.adj[u]) { if (st[e.to] == 1) cyc = true; else if (!st[e.to]) dfs(e.to); } st[u] = 2; };
			dfs(g.start);
			if (cyc) return;
			stat("idastar unsolvable acyclic");
		}
		// trees of bounded size only: guard by the reference count of paths
		double need = 0;
		{ Cfg c2 = c; c2.a.push_back("-expd"); c2.a.push_back("300000");
		  if (finite) { RunOut t = mkrunner(v, c2.a)->search(g); need = t.expd; } }
		if (need >= 300000) { stat("inconclusive"); return; }
	}
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunOut out = mkrunner(v, c.a)->search(g);
	double cost = checkpath(g, c, out, "");
	if (g.copt < 0 && out.solved()) fail(c.name + ": solution of an unsolvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	if (c.complete && g.copt >= 0 && !out.solved()) fail(c.name + ": no solution for a solvable problem", "%s: %s", show(c.a).c_str(), g.show().c_str());
	if (g.goal[g.start]) {
		stat("start is a goal");
		if (g.h[g.start] == 0 || c.name != "idastar") if (out.ops.size() != 0 || cost != 0) fail(c.name + ": start is a goal but the plan is not empty", "%s: %s", show(c.a).c_str(), g.show().c_str());
	}
	if (g.copt < 0) stat("unsolvable");
	if (g.copt < 0) stat("unsolvable " + c.name);
	observe(g, c, v, out);
}
// ---- P05
// armed returns (and disarms) the timers that a search left running.
static int armed() {
	int n = 0;
	int w[] = { ITIMER_REAL, ITIMER_PROF };
	for (int t : w) {
		struct itimerval v = {}, z = {};
		if (getitimer(t, &v) == 0 && (v.it_value.tv_sec || v.it_value.tv_usec)) { n++; setitimer(t, &z, NULL); }
	}
	return n;
}
static void klimits(Rng &r) {
	GenOpts o; int v = pickvariant(r, o);
	bool rt = r.p(0.2);
	if (rt) o.needsafe = o.needcons = true, o.zero = false;
	else if (r.p(0.6)) o.needcons = true;
	Cfg c = mkcfg(r, rt ? Rt : Best|Ida|Any|Beam|Bug|AnyMon);
	if (c.idastar) { o.small = true; o.zero = false; }
	if (c.name == "rtastar") return;
	Graph g = gengraph(r, o);
	uint64_t ts = r.next();
	Rng t0(ts); tick(t0);
	Cfg cb = c;
	// a limit large enough not to be reached
	if (c.idastar && g.copt < 0) return;
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	Cfg cc = c; cc.a.push_back("-expd"); cc.a.push_back("200000");
	Rng t1(ts); tick(t1); RunOut full = mkrunner(v, cc.a)->search(g);
	if (full.expd >= 200000) { stat("inconclusive"); return; }
	Rng t2(ts); tick(t2); RunOut nolim = mkrunner(v, c.a)->search(g);
	if (nolim.path != full.path || nolim.expd != full.expd || nolim.gend != full.gend)
		fail(c.name + ": an unreached limit changes the outcome", "expd %lu/%lu gend %lu/%lu: %s: %s", nolim.expd, full.expd, nolim.gend, full.gend, show(c.a).c_str(), g.show().c_str());
	// Timed limits that are not reached: the same outcome, and nothing is left of the limit when the search is over.
	if (r.p(0.25)) {
		Cfg ct = c; int which = r.in(1, 3);
		if (which & 1) { ct.a.push_back("-walltime"); ct.a.push_back(num(r.in(500, 100000))); }
		if (which & 2) { ct.a.push_back("-cputime"); ct.a.push_back(num(r.in(500, 100000))); }
		note("%s variant %d on %s", show(ct.a).c_str(), v, g.show().c_str());
		RunnerP rn = mkrunner(v, ct.a);
		for (int rep = 0; rep < 2; rep++) {
			Rng t3(ts); tick(t3);
			if (rep) rn->reset();
			Rng t4(ts); tick(t4);
			RunOut out = rn->search(g);
			if (armed() != 0) fail(c.name + ": a timer outlives the search", "%s: %s", show(ct.a).c_str(), g.show().c_str());
			if (out.path != full.path || out.expd != full.expd || out.gend != full.gend)
				fail(c.name + ": an unreached time limit changes the outcome", "run %d expd %lu/%lu gend %lu/%lu: %s: %s", rep, out.expd, full.expd, out.gend, full.gend, show(ct.a).c_str(), g.show().c_str());
		}
		stat("timed, not reached");
	}
	size_t maxdeg = 0; for (auto &a : g.adj) maxdeg = std::max(maxdeg, a.size());
	for (int rep = 0; rep < 4; rep++) {
		bool ex = r.p(0.6);
		unsigned long k = ex ? r.in(1, full.expd + 2) : r.in(1, full.gend + 2);
		if (r.p(0.1)) k = 1;
		Cfg cl = c; cl.a.push_back(ex ? "-expd" : "-gend"); cl.a.push_back(num(k));
		note("%s variant %d on %s", show(cl.a).c_str(), v, g.show().c_str());
		Rng t3(ts); tick(t3);
		RunnerP rn = mkrunner(v, cl.a);
		RunOut out = rn->search(g);
		double cost = checkpath(g, cl, out, "");
		if (ex && out.expd > k) fail(c.name + ": expansion limit exceeded", "%lu > %lu: %s: %s", out.expd, k, show(cl.a).c_str(), g.show().c_str());
		if (!ex && out.gend > k + maxdeg) fail(c.name + ": generation limit exceeded", "%lu > %lu + %zu: %s: %s", out.gend, k, maxdeg, show(cl.a).c_str(), g.show().c_str());
		if (ex && out.nops > k && c.bestfirst) fail(c.name + ": more states expanded than the limit allows", "%lu > %lu: %s: %s", out.nops, k, show(cl.a).c_str(), g.show().c_str());
		if (out.solved() && g.copt < 0) fail(c.name + ": solution of an unsolvable problem", "%s: %s", show(cl.a).c_str(), g.show().c_str());
		if (out.solved() && c.w >= 1 && !c.anytime && g.admissible && !leq(cost, c.w * g.copt)) fail(c.name + ": cut search reports a solution outside its bound", "cost %g optimum %g: %s: %s", cost, g.copt, show(cl.a).c_str(), g.show().c_str());
		if (c.anytime) checkanytime(g, cl, out, cost, " (limited)");
		// A cut search does a prefix of the work of the full one.
		if (out.expd > full.expd || out.gend > full.gend) fail(c.name + ": limited search does more than the full one", "expd %lu>%lu or gend %lu>%lu: %s: %s", out.expd, full.expd, out.gend, full.gend, show(cl.a).c_str(), g.show().c_str());
		unsigned long got = ex ? out.expd : out.gend, all = ex ? full.expd : full.gend;
		if (k > all && (out.path != full.path)) fail(c.name + ": an unreached limit changes the outcome", "limit %lu of %lu: %s: %s", k, all, show(cl.a).c_str(), g.show().c_str());
		if (k < all && got < k && c.bestfirst && !c.idastar) fail(c.name + ": stopped before its limit", "%lu < %lu (full run %lu): %s: %s", got, k, all, show(cl.a).c_str(), g.show().c_str());
		if (k < all) stat("cut short"); else stat("not cut");
		std::string rep2 = rn->output();
		if (pairval(rep2, ex ? "expanded limit" : "generated limit") != fmt("%lu", k)) fail(c.name + ": limit not reported", "%s", show(cl.a).c_str());
		if (rn->output().empty()) fail(c.name + ": no output", "%s", show(cl.a).c_str());
		observe(g, cl, v, out);
	}
}
static void kclock(Rng &r) {
	// A timed limit must stop a search that would never end.
	GenOpts o; o.small = true; o.zero = false; o.needcons = true;
	Graph g;
	for (;;) {
		g = gengraph(r, o);
		if (g.copt >= 0) continue;
		std::vector<int> st(g.n, 0); bool cyc = false;
		std::function<void(int)> dfs = [&](int u) { st[u] = 1; for (auto &e : g.adj[u]) { if (st[e.to] == 1) cyc = true; else if (!st[e.to]) dfs(e.to); } st[u] = 2; };
		dfs(g.start);
		if (cyc && !g.userev) break;
	}
	int which = r.in(1, 3), secs = 1;	// 1 wall, 2 CPU, 3 both
	if (r.p(0.2)) secs = 2;
	Args a; a.push_back("prog"); a.push_back("idastar");
	if (which & 1) { a.push_back("-walltime"); a.push_back(num(which == 3 && r.p(0.3) ? 1000 : secs)); }
	if (which & 2 || which == 3) { a.push_back("-cputime"); a.push_back(num(secs)); }
	note("%s on %s", show(a).c_str(), g.show().c_str());
	Child c = inchild([&]() -> int {
		maxops = ~0UL;
		RunnerP rn = mkrunner(r.in(0, 4), a);
		for (int rep = 0; rep < 2; rep++) {
			struct timespec t0, t1;
			clock_gettime(CLOCK_MONOTONIC, &t0);
			RunOut out = rn->search(g);
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (out.solved()) return 3;
			if (armed()) return 4;	// a timer is left
			if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 < 0.9 * secs) return 5;	// too early
			rn->reset();
		}
		// the object can be used again: the time starts afresh
		Graph g2 = g; g2.goal[g2.start] = 1; g2.h[g2.start] = 0; g2.solve();
		RunOut out = rn->search(g2);
		if (!out.solved()) return 6;
		if (armed()) return 4;
		return 0;
	}, 30);
	if (c.timeout) fail("time limit ignored", "%s did not stop: %s", show(a).c_str(), g.show().c_str());
	if (c.exited && c.code == 95) return;
	if (c.exited && c.code >= 3 && c.code <= 6) {
		const char *w[] = { "solution of an unsolvable problem", "a timer outlives the search", "stopped before its time", "a search after a timed-out one finds nothing" };
		fail(std::string("time limit: ") + w[c.code - 3], "%s: %s", show(a).c_str(), g.show().c_str());
		return;
	}
	if (!c.sane() || c.code != 0) fail("time limit", "%s: %s", c.describe().c_str(), show(a).c_str());
	int wall = which;
	stat("timed stops"); sig(mix(g.digest(), wall));
}
// ---- P06
static bool same(const RunOut &a, const RunOut &b) {
	return a.path == b.path && a.ops == b.ops && a.expd == b.expd && a.gend == b.gend && a.dups == b.dups && a.reopnd == b.reopnd && a.expseq == b.expseq;
}
static void kreset(Rng &r) {
	GenOpts o; int v = pickvariant(r, o);
	bool rt = r.p(0.25);
	if (rt) o.needsafe = o.needcons = true, o.zero = false;
	if (rt && r.p(0.5)) o.undirected = true;
	Cfg c = mkcfg(r, rt ? Rt|Dump : Best|Ida|Any|Beam|Bug|AnyMon);
	if (c.idastar) { o.small = true; o.zero = false; c.a.push_back("-expd"); c.a.push_back("20000"); }
	else if (r.p(0.25)) { c.a.push_back("-expd"); c.a.push_back(num(r.in(1, 40))); }
	uint64_t ts = r.next();
	unsigned long cm[] = { 1, 3, 16, 64 }; unsigned long cmax = cm[r.in(0, 3)];
	double step = r.p(0.5) ? 1e-4 : 0.01;
	auto tk = [&](uint64_t x) { vclock = 1000; vclockstep = step; search_verif_closed_max = cmax; randgen = Rand(x); };
	int n = r.in(2, 4);
	std::vector<Graph> gs;
	for (int i = 0; i < n; i++) {
		if (i && r.p(0.3)) gs.push_back(gs[r.in(0, i-1)]);
		else gs.push_back(gengraph(r, o));
	}
	tk(ts);
	RunnerP rn = mkrunner(v, c.a);
	for (int i = 0; i < n; i++) {
		note("%s variant %d reuse %d on %s", show(c.a).c_str(), v, i, gs[i].show().c_str());
		if (i) { tk(ts); rn->reset(); }
		tk(ts + i);
		RunOut a = rn->search(gs[i]);
		std::string oa = rn->output();
		tk(ts);
		RunnerP fr = mkrunner(v, c.a);
		tk(ts + i);
		RunOut b = fr->search(gs[i]);
		std::string ob = fr->output();
		checkpath(gs[i], c, a, " (reused)");
		// -complete picks among equally good states in the order of a hash table whose size survives a reset.
		if (std::find(c.a.begin(), c.a.end(), "-complete") != c.a.end()) {
			if (a.solved() != b.solved() && c.a[c.a.size()-2] != "-expd") fail(c.name + ": reuse after reset solves differently", "use %d: %s: %s", i, show(c.a).c_str(), gs[i].show().c_str());
			stat("reset without exact comparison"); continue;
		}
		if (!same(a, b)) fail(c.name + ": reuse after reset differs from a fresh run", "use %d: expd %lu/%lu gend %lu/%lu dups %lu/%lu reopnd %lu/%lu path %zu/%zu: %s: %s", i,
			a.expd, b.expd, a.gend, b.gend, a.dups, b.dups, a.reopnd, b.reopnd, a.path.size(), b.path.size(), show(c.a).c_str(), gs[i].show().c_str());
		const char *keys[] = { "final sol length", "total nodes expanded", "total nodes generated", "total nodes duplicated", "total nodes reopened", "num steps", "mean step length", "min step length", "max step length", "number of resorts", "closed fill", "converged", NULL };
		for (int k = 0; keys[k]; k++) if (pairval(oa, keys[k]) != pairval(ob, keys[k])) fail(c.name + ": reported statistics differ after reset", "%s: '%s' vs fresh '%s': %s: %s", keys[k], pairval(oa, keys[k]).c_str(), pairval(ob, keys[k]).c_str(), show(c.a).c_str(), gs[i].show().c_str());
		stat("reset comparisons");
		observe(gs[i], c, v, a);
	}
}
static void kstats(Rng &r) {
	GenOpts o; int v = pickvariant(r, o);
	bool rt = r.p(0.2);
	if (rt) o.needsafe = o.needcons = true, o.zero = false;
	Cfg c = mkcfg(r, rt ? Rt : Best|Ida|Any|Beam|Bug|AnyMon);
	if (c.name == "rtastar") return;
	if (c.idastar) { o.small = true; o.zero = false; }
	if (c.idastar || r.p(0.2)) { c.a.push_back("-expd"); c.a.push_back(c.idastar ? "20000" : num(r.in(1, 40))); }
	Graph g = gengraph(r, o);
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunnerP rn = mkrunner(v, c.a);
	RunOut out = rn->search(g);
	checkpath(g, c, out, "");
	std::string id = show(c.a) + " on " + g.show();
	if (out.expd != out.nops) fail(c.name + ": expansion count wrong", "reported %lu, %lu happened: %s", out.expd, out.nops, id.c_str());
	unsigned long rebuild = c.rt ? out.ops.size() : 0;
	if (out.gend + rebuild != out.nedges) fail(c.name + ": generation count wrong", "reported %lu, %lu happened: %s", out.gend, out.nedges - rebuild, id.c_str());
	if (c.bestfirst && out.dups > out.gend) fail(c.name + ": more duplicates than generated", "%lu > %lu: %s", out.dups, out.gend, id.c_str());
	if (c.reopens && out.expd > out.distinct + out.reopnd) fail(c.name + ": re-expansions not accounted for", "%lu expansions of %lu states, %lu re-openings: %s", out.expd, out.distinct, out.reopnd, id.c_str());
	if (c.rt && out.expd != out.distinct) fail(c.name + ": state expanded twice", "%lu expansions of %lu states: %s", out.expd, out.distinct, id.c_str());
	std::string rep = rn->output();
	if (pairval(rep, "total nodes expanded") != fmt("%lu", out.expd) || pairval(rep, "total nodes generated") != fmt("%lu", out.gend) || pairval(rep, "total nodes duplicated") != fmt("%lu", out.dups) || pairval(rep, "total nodes reopened") != fmt("%lu", out.reopnd))
		fail(c.name + ": printed statistics differ", "%s", id.c_str());
	observe(g, c, v, out);
}
// ---- P07
static void krealtime(Rng &r) {
	GenOpts o; int v = pickvariant(r, o); o.needsafe = o.needcons = true; o.zero = false;
	Cfg c = mkcfg(r, Rt|Dump);
	bool lim = r.p(0.15);
	if (lim) { c.a.push_back("-expd"); c.a.push_back(num(r.in(1, 60))); }
	if (c.name == "rtastar") o.undirected = true;
	Graph g = gengraph(r, o);
	note("%s variant %d on %s", show(c.a).c_str(), v, g.show().c_str());
	tick(r);
	RunnerP rn = mkrunner(v, c.a);
	RunOut out = rn->search(g);
	double cost = checkpath(g, c, out, "");
	std::string id = show(c.a) + " on " + g.show();
	if (!lim && !out.solved()) fail(c.name + ": goal not reached", "%s", id.c_str());
	if (out.solved() && !leq(g.copt, cost)) fail("oracle", "cheaper than optimal: %s", id.c_str());
	std::string rep = rn->output();
	if (out.solved() && (c.name == "lsslrtastar2" || c.name == "fhatlrtastar")) {
		unsigned long steps = strtoul(pairval(rep, "num steps").c_str(), NULL, 10);
		double mean = strtod(pairval(rep, "mean step length").c_str(), NULL);
		double mn = strtod(pairval(rep, "min step length").c_str(), NULL), mx = strtod(pairval(rep, "max step length").c_str(), NULL);
		bool one = std::find(c.a.begin(), c.a.end(), "-onestep") != c.a.end();
		if (one && steps != out.ops.size()) fail(c.name + ": step count", "%lu steps, %zu moves: %s", steps, out.ops.size(), id.c_str());
		if (steps > 0 && (std::fabs(mean * steps - out.ops.size()) > 1e-3 * (out.ops.size() + 1) || mn < 1 || mn > mean + 1e-5 * mean || mean > mx + 1e-5 * mean)) fail(c.name + ": step lengths", "%lu steps of mean %g (min %g max %g), %zu moves: %s", steps, mean, mn, mx, out.ops.size(), id.c_str());
		if (steps == 0 && !out.ops.empty()) fail(c.name + ": step count", "no steps, %zu moves: %s", out.ops.size(), id.c_str());
		stat("committed steps", steps);
	}
	if (c.samples) {
		// backed-up values never fall below the root value
		size_t p = 0; std::string pre = "#altrow  \"sample\"\t";
		while ((p = out.out.find(pre, p)) != std::string::npos) {
			p += pre.size(); double h, dep, f;
			if (sscanf(out.out.c_str() + p, "%lg\t%lg\t%lg", &h, &dep, &f) != 3) fail("dtastar-dump: malformed row", "%s", out.out.substr(p, 60).c_str());
			if (f < h - 1e-4 * std::max(1.0, h)) fail("dtastar-dump: sample below the root estimate", "%g < %g: %s", f, h, id.c_str());
			stat("samples");
		}
	}
	if (out.ops.size() > g.dstar[g.start]) stat("walks longer than the shortest");
	observe(g, c, v, out);
}

std::vector<Kind> vh::kinds() {
	const std::string &p = ctx.prop;
	std::vector<Kind> k;
	if (p == "P01") k.push_back(Kind{"valid", kvalid, 1});
	if (p == "P02") k.push_back(Kind{"optimal", koptimal, 1});
	if (p == "P03") { k.push_back(Kind{"weighted", kweighted, 2}); k.push_back(Kind{"anytime", kanytime, 3}); }
	if (p == "P04") k.push_back(Kind{"complete", kcomplete, 1});
	if (p == "P05") { k.push_back(Kind{"limits", klimits, 249}); k.push_back(Kind{"clock", kclock, 1}); }
	if (p == "P06") { k.push_back(Kind{"reset", kreset, 1}); k.push_back(Kind{"stats", kstats, 1}); }
	if (p == "P07") k.push_back(Kind{"realtime", krealtime, 1});
	return k;
}
