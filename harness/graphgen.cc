#include "graphdom.hpp"
using namespace vh;

static void addedge(Graph &g, int a, int b, double c) { g.adj[a].push_back(GEdge{b, c, -1}); }
static void addboth(Graph &g, int a, int b, double c, double c2) {
	g.adj[a].push_back(GEdge{b, c, -1}); g.adj[b].push_back(GEdge{a, c2, -1});
}

static double mkcost(Rng &r, int mode, const GenOpts &o) {
	double c;
	switch (mode) {
	case 0: c = 1; break;
	case 1: c = r.in(1, 3); break;
	case 2: c = r.in(1, 40); break;
	case 3: c = r.p(0.35) && o.zero ? 0 : r.in(1, 5); break;
	case 4: c = r.p(0.8) ? r.in(1, 4) : r.in(100, 900); break;
	default: c = r.in(2, 6); break;
	}
	if (o.dbl && c > 0) {
		if (mode == 1 || mode == 5) c = c * 0.25;
		else if (mode == 2 || mode == 4) c = c * (0.5 + r.real());
		else if (mode == 0 && r.p(0.0)) c = 1;
	}
	return c;
}

Graph gengraph(Rng &r, const GenOpts &o) {
	for (int attempt = 0; ; attempt++) {
		Graph g;
		int type = r.in(0, 7);
		int cm = r.in(0, 5);
		int n;
		switch (type) {
		case 0: { // random directed
			n = r.in(1, o.small ? 9 : o.maxn); g.n = n; g.adj.resize(n);
			int m = o.small ? r.in(0, n + n/2) : r.in(0, 3*n);
			for (int i = 0; i < m; i++) addedge(g, r.in(0, n-1), r.in(0, n-1), mkcost(r, cm, o));
			g.desc = "digraph"; break; }
		case 1: { // random undirected
			n = r.in(2, o.small ? 9 : o.maxn); g.n = n; g.adj.resize(n);
			for (int i = 1; i < n; i++) if (r.p(0.95)) { double c = mkcost(r, cm, o); addboth(g, i, r.in(std::max(0, i-4), i-1), c, r.p(0.8) ? c : mkcost(r, cm, o)); }
			int m = o.small ? r.in(0, 3) : r.in(0, n);
			for (int i = 0; i < m; i++) { double c = mkcost(r, cm, o); addboth(g, r.in(0, n-1), r.in(0, n-1), c, c); }
			g.desc = "graph"; break; }
		case 2: { // grid with walls
			int w = r.in(1, o.small ? 3 : 7), h = r.in(1, o.small ? 3 : 6); n = w*h; g.n = n; g.adj.resize(n);
			std::vector<char> wall(n); for (auto &x : wall) x = r.p(0.2);
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
				int i = y*w+x; if (wall[i]) continue;
				if (x+1 < w && !wall[i+1]) { double c = mkcost(r, cm, o); addboth(g, i, i+1, c, c); }
				if (y+1 < h && !wall[i+w]) { double c = mkcost(r, cm, o); addboth(g, i, i+w, c, c); }
			}
			g.desc = "grid"; break; }
		case 3: { // layered DAG, many ties
			int L = r.in(2, o.small ? 4 : 7), W = r.in(1, o.small ? 2 : 6); n = L*W+1; g.n = n; g.adj.resize(n);
			for (int l = 0; l < L; l++) for (int a = 0; a < W; a++) for (int b = 0; b < W; b++)
				if (l+1 < L && r.p(0.6)) addedge(g, l*W+a, (l+1)*W+b, mkcost(r, cm, o));
			for (int a = 0; a < W; a++) if (r.p(0.7)) addedge(g, (L-1)*W+a, n-1, mkcost(r, cm, o));
			g.desc = "layered"; break; }
		case 4: { // many re-openings: cheaper long ways found late
			n = r.in(3, o.small ? 7 : 14); g.n = n; g.adj.resize(n);
			for (int i = 0; i < n; i++) for (int j = i+1; j < n; j++) if (j == i+1 || r.p(0.5))
				addedge(g, i, j, j == i+1 ? mkcost(r, cm, o) : (j-i) * (o.dbl ? 2.5 : 3) + r.in(0, 4));
			g.desc = "reopen"; break; }
		case 5: { // tree
			n = r.in(2, o.small ? 14 : o.maxn); g.n = n; g.adj.resize(n);
			for (int i = 1; i < n; i++) { int p = r.in(std::max(0, i-6), i-1); double c = mkcost(r, cm, o); if (r.p(0.5)) addedge(g, p, i, c); else addboth(g, p, i, c, c); }
			g.desc = "tree"; break; }
		case 6: { // ring with chords and self loops, parallel edges
			n = r.in(2, o.small ? 8 : o.maxn); g.n = n; g.adj.resize(n);
			for (int i = 0; i < n; i++) {
				double c = mkcost(r, cm, o); addboth(g, i, (i+1)%n, c, c);
				if (r.p(0.2)) addedge(g, i, (i+1)%n, mkcost(r, cm, o));
				if (r.p(0.1)) addedge(g, i, i, mkcost(r, cm, o));
				if (!o.small && r.p(0.2)) addedge(g, i, r.in(0, n-1), mkcost(r, cm, o));
			}
			g.desc = "ring"; break; }
		default: { // corridor with side branches and a detour
			n = r.in(4, o.small ? 10 : o.maxn); g.n = n; g.adj.resize(n);
			int m = n*2/3;
			for (int i = 1; i < m; i++) { double c = mkcost(r, cm, o); addboth(g, i-1, i, c, c); }
			for (int i = m; i < n; i++) { double c = mkcost(r, cm, o); addboth(g, r.in(0, i-1), i, c, c); }
			if (!o.small) for (int k = 0; k < 2; k++) { double c = mkcost(r, cm, o); addboth(g, r.in(0, m-1), r.in(0, m-1), c*3, c*3); }
			g.desc = "corridor"; break; }
		}
		if (o.undirected) {
			std::vector<std::vector<GEdge> > old = g.adj;
			for (auto &a : g.adj) a.clear();
			std::set<std::pair<int,int> > seen;
			for (int i = 0; i < g.n; i++) for (auto &e : old[i]) {
				int a = std::min(i, e.to), b = std::max(i, e.to);
				if (a != b && seen.insert(std::make_pair(a, b)).second) addboth(g, a, b, e.cost, e.cost);
			}
		}
		for (auto &a : g.adj) r.shuffle(a);
		// opposite edges
		for (int i = 0; i < g.n; i++) for (size_t k = 0; k < g.adj[i].size(); k++) {
			GEdge &e = g.adj[i][k];
			for (size_t j = 0; j < g.adj[e.to].size(); j++) if (g.adj[e.to][j].to == i && e.to != i && (e.rev < 0 || r.p(0.3))) e.rev = j;
		}
		g.goal.assign(g.n, 0);
		g.start = type == 0 || type == 1 || type == 6 || type == 7 ? r.in(0, g.n-1) : 0;
		int ng = r.p(0.06) ? 0 : r.p(0.75) ? 1 : r.in(2, 4);
		for (int k = 0; k < ng; k++) g.goal[(type == 3 || type == 4) && k == 0 ? g.n-1 : type == 2 && r.p(0.5) ? g.n-1 : r.in(0, g.n-1)] = 1;
		if (!r.p(0.04)) g.goal[g.start] = 0;
		g.userev = r.p(0.6);
		g.hashmode = r.in(0, 4);
		g.opmul = r.p(0.5) ? 1 : 3; g.opadd = r.p(0.5) ? 0 : 2;
		g.intcost = !o.dbl;
		g.solve();
		if (o.needsafe && (!g.safe || g.copt < 0)) continue;
		if (!o.zero && g.zerocost) continue;

		// Heuristics.
		int hm = o.needcons ? r.in(0, 3) : o.needadm ? r.in(0, 6) : r.in(0, 9);
		g.h.assign(g.n, 0); g.d.assign(g.n, 0);
		auto rnd = [&](double x) { return o.dbl ? (r.p(0.5) ? floor(x*4)/4 : x) : floor(x + 1e-9); };
		double big = 0; for (int i = 0; i < g.n; i++) if (g.hstar[i] < Graph::inf()) big = std::max(big, g.hstar[i]);
		const char *hn = "";
		double scale = r.real();
		for (int i = 0; i < g.n; i++) {
			double hs = g.hstar[i] < Graph::inf() ? g.hstar[i] : big + r.in(0, 5);
			switch (hm) {
			case 0: g.h[i] = 0; hn = "zero"; break;
			case 1: g.h[i] = hs; hn = "perfect"; break;
			case 2: g.h[i] = rnd(hs * r.real()); hn = "consistent"; break;	// closed below
			case 3: g.h[i] = rnd(hs * scale); hn = "scaled-consistent"; break;
			case 4: g.h[i] = rnd(hs * r.real()); hn = "admissible"; break;
			case 5: g.h[i] = r.p(0.5) ? hs : 0; hn = "admissible-0/1"; break;
			case 6: g.h[i] = rnd(hs * scale); hn = "scaled"; break;
			case 7: g.h[i] = rnd(hs * r.real() * 2.5); hn = "inadmissible"; break;
			case 8: g.h[i] = r.in(0, 20); hn = "random"; break;
			default: g.h[i] = hs * 2; hn = "doubled"; break;
			}
			if (g.goal[i] && hm != 8) g.h[i] = 0;
			if (g.hstar[i] == Graph::inf() && hm == 1) g.h[i] = big + 3;
		}
		if (hm == 1 || hm == 2 || hm == 3) {
			// Largest consistent function below the values drawn.
			bool ch = true;
			while (ch) { ch = false;
				for (int i = 0; i < g.n; i++) for (auto &e : g.adj[i]) if (g.h[i] > e.cost + g.h[e.to]) { g.h[i] = e.cost + g.h[e.to]; ch = true; }
			}
		}
		int dm = r.in(0, 2);
		for (int i = 0; i < g.n; i++) {
			double ds = g.dstar[i] < Graph::inf() ? g.dstar[i] : r.in(1, 8);
			g.d[i] = dm == 0 ? ds : dm == 1 ? floor(ds * r.real()) : (g.goal[i] ? 0 : r.in(1, 9));
		}
		g.classify();
		g.desc += fmt("/%s/c%d", hn, cm);
		if (o.needcons && !g.consistent) continue;
		if (o.needadm && !g.admissible) continue;
		return g;
	}
}

double vclock = 1000, vclockstep = 1e-4;
// The virtual clock replaces the repository's clock in the monitors that need
// reproducible time.
double walltime() { vclock += vclockstep; return vclock; }
double cputime() { vclock += vclockstep; return vclock; }

RunnerP mkrunner0(const std::vector<std::string>&); RunnerP mkrunner1(const std::vector<std::string>&);
RunnerP mkrunner2(const std::vector<std::string>&); RunnerP mkrunner3(const std::vector<std::string>&);
RunnerP mkrunner4(const std::vector<std::string>&);
RunnerP mkrunner(int v, const std::vector<std::string> &a) {
	switch (v) { case 0: return mkrunner0(a); case 1: return mkrunner1(a); case 2: return mkrunner2(a); case 3: return mkrunner3(a); default: return mkrunner4(a); }
}
bool variantdbl(int v) { return v == 1 || v == 3; }
