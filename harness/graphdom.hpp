// An explicit finite graph as a search problem, with an independent
// shortest-path oracle.  Shared by all the algorithm monitors.
#pragma once
#include "vh.hpp"
#include <memory>
#include <queue>

struct GEdge { int to; double cost; int rev; /* index of the opposite edge at to, or -1 */ };

struct Graph {
	int n = 0, start = 0;
	std::vector<std::vector<GEdge> > adj;
	std::vector<double> h, d;
	std::vector<char> goal;
	int hashmode = 0;
	bool userev = true;
	int opmul = 1, opadd = 0;	// operator = index*opmul+opadd
	// oracle
	std::vector<double> hstar, dstar, gstar;
	std::vector<char> reach;
	double copt = -1;	// -1 if unsolvable
	bool consistent = false, admissible = false, zerocost = false, safe = false, intcost = true;
	std::string desc;
	int graphid = 0;

	static double inf() { return std::numeric_limits<double>::infinity(); }
	std::vector<double> dijkstra(const std::vector<int> &src, bool reverse, bool unit) const {
		std::vector<std::vector<std::pair<int,double> > > a(n);
		for (int i = 0; i < n; i++) for (auto &e : adj[i]) {
			double c = unit ? 1 : e.cost;
			if (reverse) a[e.to].push_back(std::make_pair(i, c)); else a[i].push_back(std::make_pair(e.to, c));
		}
		std::vector<double> dist(n, inf());
		typedef std::pair<double,int> P;
		std::priority_queue<P, std::vector<P>, std::greater<P> > q;
		for (int s : src) { dist[s] = 0; q.push(P(0, s)); }
		while (!q.empty()) {
			P t = q.top(); q.pop();
			if (t.first > dist[t.second]) continue;
			for (auto &e : a[t.second]) if (t.first + e.second < dist[e.first]) {
				dist[e.first] = t.first + e.second; q.push(P(dist[e.first], e.first));
			}
		}
		return dist;
	}
	void solve() {
		std::vector<int> gs; for (int i = 0; i < n; i++) if (goal[i]) gs.push_back(i);
		hstar = dijkstra(gs, true, false);
		dstar = dijkstra(gs, true, true);
		gstar = dijkstra(std::vector<int>(1, start), false, false);
		reach.assign(n, 0);
		for (int i = 0; i < n; i++) reach[i] = gstar[i] < inf();
		copt = hstar[start] < inf() ? hstar[start] : -1;
		safe = true;
		zerocost = false;
		for (int i = 0; i < n; i++) {
			if (reach[i] && hstar[i] == inf()) safe = false;
			for (auto &e : adj[i]) if (e.cost == 0) zerocost = true;
		}
	}
	void classify() {
		admissible = consistent = true;
		for (int i = 0; i < n; i++) {
			if (h[i] > hstar[i] + 1e-12) admissible = consistent = false;
			if (goal[i] && h[i] != 0) consistent = false;
			for (auto &e : adj[i]) if (h[i] > e.cost + h[e.to] + 1e-12) consistent = false;
		}
		if (!admissible) consistent = false;
	}
	std::string show() const {
		std::string s = vh::fmt("%s n=%d start=%d C*=%g hash=%d rev=%d", desc.c_str(), n, start, copt, hashmode, userev);
		if (n <= 16) for (int i = 0; i < n; i++) {
			s += vh::fmt(" %d%s(h%g):", i, goal[i] ? "G" : "", h[i]);
			for (auto &e : adj[i]) s += vh::fmt("%d/%g%s,", e.to, e.cost, e.rev >= 0 ? "r" : "");
		}
		return s;
	}
	uint64_t digest() const {
		uint64_t x = vh::mix(n, start);
		for (int i = 0; i < n; i++) {
			x = vh::mix(x, (uint64_t)(h[i]*64) * 2 + goal[i]);
			for (auto &e : adj[i]) x = vh::mix(x, e.to * 1000003ULL + (uint64_t)(e.cost * 64));
		}
		return x;
	}
};

struct GenOpts {
	int maxn = 40;
	bool dbl = false;		// non-integer costs
	bool zero = true;		// zero-cost edges allowed
	bool needadm = false;		// only admissible heuristics
	bool needcons = false;		// only consistent heuristics
	bool needsafe = false;		// goal reachable from every reachable state
	bool undirected = false;	// every edge has an opposite one of equal cost, no loops or parallels
	bool small = false;		// small enough for tree search
};

Graph gengraph(vh::Rng &r, const GenOpts &o);

// What one run of an algorithm did.
struct RunOut {
	std::vector<int> path;		// start first
	std::vector<int> ops;		// first operator first
	unsigned long expd = 0, gend = 0, reopnd = 0, dups = 0;
	unsigned long nops = 0, nedges = 0;	// seen by the domain
	unsigned long distinct = 0;		// distinct states whose operators were requested
	std::vector<int> expseq;	// states expanded, in order (capped)
	std::string out;		// stdout
	std::string domerr;		// violation of the domain's interface seen by the domain
	bool solved() const { return !path.empty(); }
};

struct Runner {
	virtual ~Runner() { }
	virtual RunOut search(const Graph &) = 0;
	virtual void reset() = 0;
	virtual std::string output() = 0;
	virtual unsigned long limexpd() = 0;
};
typedef std::shared_ptr<Runner> RunnerP;

// 0: int cost, values; 1: double cost, values; 2: int cost, in-place with
// undo; 3: double cost, in-place; 4: int cost, state==packed state.
enum { NVariants = 5 };
RunnerP mkrunner(int variant, const std::vector<std::string> &args);
bool variantdbl(int v);

extern unsigned long maxops;	// a search that expands more does not terminate
extern double vclock, vclockstep;	// the virtual clock behind walltime()/cputime()
