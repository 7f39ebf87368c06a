// One instantiation of the algorithms: define VARIANT, DBL, INPLACE, SAMEPACK, MK first.
#include "graphdom.hpp"
#include "utils/utils.hpp"
#include "search/main.hpp"
#include "search/rtastar.hpp"

namespace {

// Thrown when a search does far more work than any terminating one could.
struct TooLong { };

struct Gd {
#if DBL
	typedef double Cost;
#else
	typedef int Cost;
#endif
	typedef int Oper;
	enum { Nop = -1 };

	const Graph *g;
	mutable unsigned long nops, nedges;
	mutable std::vector<char> expanded;
	mutable unsigned long distinct;
	mutable std::vector<int> expseq;
	mutable std::string err;
	void attach(const Graph *gr) { g = gr; nops = nedges = distinct = 0; expanded.assign(gr->n, 0); err = ""; expseq.clear(); }

	unsigned long hashof(int v) const {
		switch (g->hashmode) {
		case 0: return v;
		case 1: return v % 3;
		case 2: return 7;
		case 3: return (unsigned long) v * 0x9e3779b97f4a7c15UL;
		default: return ~0UL - v / 2;
		}
	}
	void bad(const char *what, int v) const { if (err.empty()) err = vh::fmt("%s (state %d)", what, v); }

#if SAMEPACK
	struct State {
		int v;
		State() : v(-7) { }
		unsigned long hash(const Gd *d) { return d->hashof(v); }
		bool eq(const Gd*, const State &o) const { return v == o.v; }
	};
	typedef State PackedState;
	void pack(PackedState &dst, State &s) { if (s.v < 0 || s.v >= g->n) bad("pack of a state never produced", s.v); dst = s; }
	State &unpack(State &, PackedState &p) { return p; }
#else
	struct State { int v; int junk; State() : v(-7), junk(0) { } };
	struct PackedState {
		short key;
		PackedState() : key(-1) { }
		unsigned long hash(const Gd *d) { return d->hashof((key - 5) / 3); }
		bool eq(const Gd*, const PackedState &o) const { return key == o.key; }
	};
	void pack(PackedState &dst, State &s) { if (s.v < 0 || s.v >= g->n) bad("pack of a state never produced", s.v); dst.key = s.v * 3 + 5; }
	State &unpack(State &b, PackedState &p) { if (p.key < 0) bad("unpack of an uninitialised packed state", p.key); b.v = (p.key - 5) / 3; b.junk = 0; return b; }
#endif
	State initialstate() { State s; s.v = g->start; return s; }
	Cost h(const State &s) const { if (s.v < 0 || s.v >= g->n) { bad("h of a state never produced", s.v); return 0; } return g->h[s.v]; }
	Cost d(const State &s) const { if (s.v < 0 || s.v >= g->n) { bad("d of a state never produced", s.v); return 0; } return g->d[s.v]; }
	bool isgoal(const State &s) const { if (s.v < 0 || s.v >= g->n) { bad("goal test of a state never produced", s.v); return false; } return g->goal[s.v]; }

	struct Operators {
		Operators(const Gd &d, const State &s) : d(d), v(s.v), n(0) {
			if (v < 0 || v >= d.g->n) { d.bad("operators of a state never produced", v); return; }
			n = d.g->adj[v].size();
			if (++d.nops > maxops) throw TooLong();
			if (!d.expanded[v]) d.distinct++, d.expanded[v] = 1;
			if (d.expseq.size() < 5000) d.expseq.push_back(v);
		}
		unsigned int size() const { return n; }
		Oper operator[](unsigned int i) const {
			if (i >= n) { d.bad("operator index out of range", v); return 0; }
			return i * d.g->opmul + d.g->opadd;
		}
		const Gd &d; int v; unsigned n;
	};

	static const GEdge *edge(const Gd &d, int v, Oper op) {
		if (v < 0 || v >= d.g->n) { d.bad("edge from a state never produced", v); return NULL; }
		int i = (op - d.g->opadd) / d.g->opmul;
		if (op < d.g->opadd || (op - d.g->opadd) % d.g->opmul || i >= (int) d.g->adj[v].size()) { d.bad("operator applied where it is not applicable", v); return NULL; }
		return &d.g->adj[v][i];
	}

	struct Edge {
		Cost cost;
		Oper revop;
		Cost revcost;
#if INPLACE
		State &state;
		int old;
		Edge(const Gd &d, State &s, Oper op) : cost(0), revop(Nop), revcost(-1), state(s), old(s.v) {
#else
		State state;
		Edge(const Gd &d, const State &s, Oper op) : cost(0), revop(Nop), revcost(-1), state(s) {
#endif
			const GEdge *e = edge(d, s.v, op);
			d.nedges++;
			if (!e) return;
			cost = e->cost;
			if (d.g->userev && e->rev >= 0) { revop = e->rev * d.g->opmul + d.g->opadd; revcost = d.g->adj[e->to][e->rev].cost; }
			state.v = e->to;
		}
#if INPLACE
		~Edge() { state.v = old; }
#endif
	};
	Cost pathcost(const std::vector<State> &p, const std::vector<Oper> &o) {
		Cost c(0);
		State s = initialstate();
		for (size_t i = o.size(); i > 0; i--) { State t = s; Edge e(*this, t, o[i-1]); c += e.cost; int nv = e.state.v; s.v = nv; }
		return c;
	}
	void dumpstate(FILE *f, const State &s) const { fprintf(f, "%d\n", s.v); }
};

struct R : Runner {
	std::vector<std::string> a;
	std::vector<const char*> av;
	SearchAlgorithm<Gd> *alg;
	Gd d;
	bool ran;
	R(const std::vector<std::string> &args) : a(args), alg(NULL), ran(false) {
		for (auto &s : a) av.push_back(s.c_str());
		av.push_back(NULL);
		if (a[1] == "rtastar") alg = new Rtastar<Gd>(a.size(), av.data());
		else alg = getsearch<Gd>(a.size(), av.data());
	}
	~R() { delete alg; }
	RunOut search(const Graph &g) {
		RunOut o;
		d.attach(&g);
		vh::capbegin();
		Gd::State s0 = d.initialstate();
		try { alg->search(d, s0); } catch (TooLong&) {
			alg = NULL;	// abandoned
			vh::fail(a[1] + ": does not terminate", "%lu expansions on a graph of %d states: %s", maxops, g.n, g.show().c_str());
		}
		o.out = vh::capend();
		for (size_t i = alg->res.path.size(); i > 0; i--) o.path.push_back(alg->res.path[i-1].v);
		for (size_t i = alg->res.ops.size(); i > 0; i--) {
			int op = alg->res.ops[i-1];
			o.ops.push_back(op);
		}
		o.expd = alg->res.expd; o.gend = alg->res.gend; o.reopnd = alg->res.reopnd; o.dups = alg->res.dups;
		o.nops = d.nops; o.nedges = d.nedges; o.distinct = d.distinct; o.domerr = d.err;
		o.expseq = d.expseq;
		if (s0.v != g.start && o.domerr.empty()) o.domerr = "the initial state passed in was changed";
		return o;
	}
	void reset() { alg->reset(); }
	std::string output() { vh::capbegin(); alg->output(stdout); return vh::capend(); }
	unsigned long limexpd() { return alg->lim.expd; }
};
}
RunnerP MK(const std::vector<std::string> &a) { return RunnerP(new R(a)); }
