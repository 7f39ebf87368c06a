// Generic monitors of a search domain D against a reference model of its
// rules.  States are compared through what dumpstate prints of them.
#pragma once
#include "vh.hpp"
#include "utils/utils.hpp"
#include <map>
#include <unordered_map>
#include <queue>
#include <memory>
#include <cmath>

namespace dt {

struct Succ { std::string key; double cost; };

// The rules of one instance, written independently of the code.
struct Ref {
	std::string name, inst;		// domain, instance text
	virtual ~Ref() { }
	virtual std::string init() = 0;
	// All of the legal moves.
	virtual void succs(const std::string&, std::vector<Succ>&) = 0;
	virtual bool goal(const std::string&) = 0;
	// The heuristic from scratch, NaN if there's no reference for it.
	virtual double h(const std::string&) { return NAN; }
	virtual double d(const std::string&) { return NAN; }
	bool admissible;	// does h promise never to overestimate?
	bool inverses;		// may the domain leave out the inverse of the last move?
	bool posdists;		// are equal dumps equal states?
	double eps;		// relative precision of costs
	Ref() : admissible(true), inverses(false), posdists(true), eps(1e-7) { }
};

// The exact cost to go of every state reachable from the initial one, or
// empty if there are more than max of them.
struct Exact {
	std::unordered_map<std::string, int> id;
	std::vector<std::string> keys;
	std::vector<double> hstar;
	std::vector<char> goal;
	bool complete;
	long ngoals;
	Exact(Ref &r, size_t max) : complete(true), ngoals(0) {
		std::vector<std::vector<std::pair<int,double> > > rev;
		auto get = [&](const std::string &k) {
			auto it = id.find(k);
			if (it != id.end()) return it->second;
			int i = keys.size();
			id[k] = i; keys.push_back(k); rev.emplace_back();
			return i;
		};
		get(r.init());
		std::vector<Succ> ss;
		for (size_t i = 0; i < keys.size(); i++) {
			if (keys.size() > max) { complete = false; return; }
			ss.clear();
			std::string k = keys[i];
			r.succs(k, ss);
			for (auto &s : ss) { int j = get(s.key); rev[j].push_back(std::make_pair((int) i, s.cost)); }
		}
		hstar.assign(keys.size(), INFINITY);
		goal.assign(keys.size(), 0);
		typedef std::pair<double,int> P;
		std::priority_queue<P, std::vector<P>, std::greater<P> > q;
		for (size_t i = 0; i < keys.size(); i++) if (r.goal(keys[i])) { hstar[i] = 0; goal[i] = 1; ngoals++; q.push(P(0, i)); }
		while (!q.empty()) {
			P t = q.top(); q.pop();
			if (t.first > hstar[t.second]) continue;
			for (auto &e : rev[t.second]) if (t.first + e.second < hstar[e.first]) { hstar[e.first] = t.first + e.second; q.push(P(hstar[e.first], e.first)); }
		}
	}
};

inline std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '\n') o += '/'; else if (c == '\t') o += ' '; else o += c; } return o; }

template<class D, class S> std::string dumped(D &d, S &s) {
	char *b = NULL; size_t n = 0;
	FILE *f = open_memstream(&b, &n);
	d.dumpstate(f, s);
	fclose(f);
	std::string o(b, n); free(b);
	return o;
}

// Interfaces differ between domains in how states are dumped and compared.
template<class D> struct Traits {
	static bool nop(const typename D::Oper &o) { return o == typename D::Oper(D::Nop); }
	// What identifies a state in its dump.
	static std::string key(const std::string &s) { return s; }
	// What is printed of a state.
	static std::string text(D &d, typename D::State &s) { return dumped(d, s); }
};

template<class D> struct Test {
	typedef typename D::State State;
	typedef typename D::PackedState PackedState;
	typedef typename D::Oper Oper;
	typedef typename D::Operators Operators;
	typedef typename D::Edge Edge;
	D &d; Ref &r; vh::Rng &rng;
	bool p13, p14, p15;
	Exact *ex;
	std::unordered_map<std::string, unsigned long> hashes;	// of every state seen
	Test(D &d, Ref &r, vh::Rng &rng, Exact *ex) : d(d), r(r), rng(rng), ex(ex) {
		p13 = vh::ctx.prop == "P13"; p14 = vh::ctx.prop == "P14"; p15 = vh::ctx.prop == "P15";
	}

	std::string dump(State &s) {
		return Traits<D>::key(Traits<D>::text(d, s));
	}
	std::string at(const std::string &k) { return r.name + " state [" + esc(k) + "] of [" + esc(r.inst).substr(0, 500) + "]"; }
	// What an observer sees of a state.
	struct Obs {
		std::string key; double h, d; bool goal; size_t nops;
		std::string show() const { return vh::fmt("[%s] h=%g d=%g goal=%d operators=%zu", esc(key).c_str(), h, d, (int) goal, nops); }
	};
	bool near(double a, double b) { return a == b || fabs(a - b) <= r.eps * (1 + fabs(b)); }
	bool same(const Obs &a, const Obs &o) { return a.key == o.key && near(a.h, o.h) && near(a.d, o.d) && a.goal == o.goal && a.nops == o.nops; }

	Obs look(State &s) {
		Obs o;
		o.key = dump(s); o.h = d.h(s); o.d = d.d(s); o.goal = d.isgoal(s);
		Operators ops(d, s); o.nops = ops.size();
		return o;
	}

	void value(const Obs &o, State &s) {
		if (p13) {
			double h = r.h(o.key), dd = r.d(o.key);
			if (!std::isnan(h) && !near(o.h, h)) vh::fail(r.name + ": heuristic differs from scratch", "h=%g, from scratch %g: %s", o.h, h, at(o.key).c_str());
			if (!std::isnan(dd) && !near(o.d, dd)) vh::fail(r.name + ": distance estimate differs from scratch", "d=%g, from scratch %g: %s", o.d, dd, at(o.key).c_str());
		}
		if (p15 && o.goal != r.goal(o.key)) vh::fail(r.name + ": goal test", "says %d: %s", (int) o.goal, at(o.key).c_str());
		if (p14) {
			if (!(o.d >= 0)) vh::fail(r.name + ": negative distance estimate", "%g: %s", o.d, at(o.key).c_str());
			if (!(o.h >= 0) && r.admissible) vh::fail(r.name + ": negative heuristic", "%g: %s", o.h, at(o.key).c_str());
			if (r.goal(o.key)) {
				vh::stat("goal states");
				if (o.h != 0) vh::fail(r.name + ": heuristic of a goal is not zero", "%g: %s", o.h, at(o.key).c_str());
				if (o.d != 0) vh::fail(r.name + ": distance estimate of a goal is not zero", "%g: %s", o.d, at(o.key).c_str());
			}
			if (ex && r.admissible) {
				auto it = ex->id.find(o.key);
				if (it != ex->id.end() && ex->complete) {
					double hs = ex->hstar[it->second];
					vh::stat("heuristics compared");
					if (o.h > 0 && hs < INFINITY) vh::stat("positive heuristics");
					if (o.h > hs + r.eps * (1 + hs)) vh::fail(r.name + ": heuristic overestimates", "h=%g, cheapest cost to a goal %g: %s", o.h, hs, at(o.key).c_str());
				}
			}
		}
	}

	// Checks everything about a state, and returns its successors.
	void check(State &s, std::vector<State> &kids, std::vector<std::string> &keys, const std::string &from) {
		Obs o = look(s);
		value(o, s);
		vh::stat("states");
		vh::sig(vh::mix(vh::hashstr(r.inst), vh::hashstr(o.key)));
		if (p13) packing(s, o);

		std::vector<Succ> want;
		if (p15) r.succs(o.key, want);
		std::vector<char> seen(want.size(), 0);

		Operators ops(d, s);
		for (unsigned i = 0; i < ops.size(); i++) {
			Oper op = ops[i];
			if (p13 && Traits<D>::nop(op)) vh::fail(r.name + ": Nop offered as an operator", "%s", at(o.key).c_str());
			std::string kidkey;
			{
				Edge e(d, s, op);
				State kid = e.state;
				Obs k = look(kid);
				kidkey = k.key;
				vh::stat("transitions");
				if (p13) {
					Obs k2 = look(e.state);
					if (!same(k, k2)) vh::fail(r.name + ": a copied state differs", "%s, copy %s: %s", k2.show().c_str(), k.show().c_str(), at(o.key).c_str());
					if (!Traits<D>::nop(e.revop)) inverse(e, o, k);
					if (Traits<D>::nop(e.revop) ? false : !(e.revcost >= 0)) vh::fail(r.name + ": negative reverse cost", "%g: %s", (double) e.revcost, at(o.key).c_str());
					State kid2 = e.state;
					packing(kid2, k);
					// Deeper transitions leave this one as it is.
					Operators kops(d, e.state);
					if (kops.size()) {
						unsigned j = rng.in(0, kops.size() - 1);
						{ Edge e2(d, e.state, kops[j]); Obs x = look(e2.state); (void) x; }
						Obs k3 = look(e.state);
						if (!same(k, k3)) vh::fail(r.name + ": discarding a transition does not restore the state", "was %s, is %s: %s", k.show().c_str(), k3.show().c_str(), at(o.key).c_str());
					}
				}
				if (p14) value(k, kid);
				if (p15) {
					bool found = false;
					for (size_t j = 0; j < want.size() && !found; j++) if (!seen[j] && want[j].key == k.key && near(e.cost, want[j].cost)) seen[j] = found = true;
					if (!found) {
						bool same = false; double c = -1;
						for (auto &w : want) if (w.key == k.key) { same = true; c = w.cost; }
						if (same) vh::fail(r.name + ": wrong cost, or a move offered twice", "cost %g (rules: %g) to [%s]: %s", (double) e.cost, c, esc(k.key).c_str(), at(o.key).c_str());
						vh::fail(r.name + ": illegal move offered", "leads to [%s] at cost %g: %s", esc(k.key).c_str(), (double) e.cost, at(o.key).c_str());
					}
				}
				kids.push_back(kid); keys.push_back(k.key);
			}
			if (p13) {
				Obs o2 = look(s);
				if (!same(o, o2)) vh::fail(r.name + ": discarding a transition does not restore the state", "was %s, is %s: %s", o.show().c_str(), o2.show().c_str(), at(o.key).c_str());
			}
		}
		if (p15) for (size_t j = 0; j < want.size(); j++) if (!seen[j]) {
			if (r.inverses && want[j].key == from) continue;
			vh::fail(r.name + ": legal move missing", "to [%s] at cost %g: %s", esc(want[j].key).c_str(), want[j].cost, at(o.key).c_str());
		}
		if (p15 && ops.size()) vh::stat("move sets compared");
	}

	void inverse(Edge &e, const Obs &o, const Obs &k) {
		vh::stat("inverses");
		Operators kops(d, e.state);
		bool offered = false;
		for (unsigned i = 0; i < kops.size(); i++) if (kops[i] == e.revop) offered = true;
		if (!offered && !r.inverses) vh::fail(r.name + ": the reported inverse is not applicable", "in [%s]: %s", esc(k.key).c_str(), at(o.key).c_str());
		State s = e.state;
		Edge b(d, s, e.revop);
		State back = b.state;
		Obs x = look(back);
		if (!same(x, o)) vh::fail(r.name + ": the reported inverse does not lead back", "by [%s] to %s, from %s: %s", esc(k.key).c_str(), x.show().c_str(), o.show().c_str(), at(o.key).c_str());
		if (!near(b.cost, e.revcost)) vh::fail(r.name + ": wrong reverse cost", "reported %g, is %g from [%s]: %s", (double) e.revcost, (double) b.cost, esc(k.key).c_str(), at(o.key).c_str());
	}

	void packing(State &s, const Obs &o) {
		PackedState p, q;
		State c = s;
		d.pack(p, s); d.pack(q, c);
		unsigned long hp = p.hash(&d);
		if (!p.eq(&d, q) || !q.eq(&d, p)) vh::fail(r.name + ": packing twice gives different states", "%s", at(o.key).c_str());
		if (hp != q.hash(&d)) vh::fail(r.name + ": packing twice gives different hashes", "%s", at(o.key).c_str());
		State b1, b2;
		State &u = d.unpack(b1, p);
		Obs x = look(u);
		if (!same(x, o)) vh::fail(r.name + ": packing and unpacking changes the state", "was %s, is %s: %s", o.show().c_str(), x.show().c_str(), at(o.key).c_str());
		// The packed state doesn't change while transitions from the unpacked one are tried.
		Operators ops(d, u);
		if (ops.size()) {
			unsigned i = rng.in(0, ops.size() - 1);
			{
				Edge e(d, u, ops[i]);
				State k = e.state;
				PackedState pk; d.pack(pk, k);
				std::string kk = dump(k);
				if (!p.eq(&d, q) || p.hash(&d) != hp) vh::fail(r.name + ": a transition changes the packed state", "%s", at(o.key).c_str());
				if (r.posdists && (pk.eq(&d, q) || q.eq(&d, pk)) != (kk == o.key)) vh::fail(r.name + ": equality", "[%s] and %s", esc(kk).c_str(), at(o.key).c_str());
			}
			if (!p.eq(&d, q) || p.hash(&d) != hp) vh::fail(r.name + ": a transition changes the packed state", "%s", at(o.key).c_str());
			State &v = d.unpack(b2, p);
			Obs y = look(v);
			if (!same(y, o)) vh::fail(r.name + ": a transition changes the packed state", "was %s, is %s: %s", o.show().c_str(), y.show().c_str(), at(o.key).c_str());
		}
		// A buffer that was used before, as in a search that reuses one.
		if (havelast) {
			State bb = last;
			State &w = d.unpack(bb, p);
			Obs y = look(w);
			if (!same(y, o)) vh::fail(r.name + ": unpacking into a used buffer differs", "was %s, is %s: %s", o.show().c_str(), y.show().c_str(), at(o.key).c_str());
		}
		auto it = hashes.find(o.key);
		if (it == hashes.end()) hashes[o.key] = hp;
		else if (r.posdists && it->second != hp) vh::fail(r.name + ": equal states with different hashes", "%s", at(o.key).c_str());
		if (r.posdists && haslastp) {
			bool e = p.eq(&d, lastp), f = lastp.eq(&d, p);
			if (e != (o.key == lastk) || e != f) vh::fail(r.name + ": equality", "says %d/%d for [%s] and %s", (int) e, (int) f, esc(lastk).c_str(), at(o.key).c_str());
			if (e && lastp.hash(&d) != hp) vh::fail(r.name + ": equal states with different hashes", "%s", at(o.key).c_str());
			vh::stat("pairs of states compared");
		}
		if (!haslastp || rng.in(0, 3) == 0) { d.pack(lastp, c); lastk = o.key; haslastp = true; }
		if (!havelast || rng.in(0, 3) == 0) { last = s; havelast = true; }
	}
	State last; PackedState lastp; std::string lastk;
	bool havelast = false, haslastp = false;

	// All of the states reachable within max, breadth first.
	void bfs(size_t max) {
		std::unordered_map<std::string, int> ids;
		std::vector<State> q;
		std::vector<std::string> ks;
		State s0 = d.initialstate();
		std::string k0 = dump(s0);
		if (k0 != r.init()) vh::fail(r.name + ": initial state", "[%s], not [%s]", esc(k0).c_str(), esc(r.init()).c_str());
		ids[k0] = 0; q.push_back(s0); ks.push_back(k0);
		std::vector<State> kids; std::vector<std::string> keys;
		std::vector<std::string> from(1, "");
		bool cut = false;
		for (size_t i = 0; i < q.size() && i < max; i++) {
			kids.clear(); keys.clear();
			State s = q[i];
			check(s, kids, keys, from[i]);
			for (size_t j = 0; j < kids.size(); j++) {
				auto it = ids.find(keys[j]);
				if (it != ids.end()) continue;
				if (q.size() >= 4 * max) { cut = true; continue; }
				ids[keys[j]] = q.size(); from.push_back(ks[i]); q.push_back(kids[j]); ks.push_back(keys[j]);
			}
		}
		if (q.size() > max || cut) return;
		vh::stat("state spaces exhausted");
		if (p15 && ex && ex->complete && !r.inverses && ex->keys.size() != q.size())
			vh::fail(r.name + ": reachable states", "%zu, by the rules %zu: [%s]", q.size(), ex->keys.size(), esc(r.inst).c_str());
	}
	// A random walk.
	void walk(size_t len) {
		State s = d.initialstate();
		std::string k = dump(s), from;
		if (k != r.init()) vh::fail(r.name + ": initial state", "[%s], not [%s]", esc(k).c_str(), esc(r.init()).c_str());
		std::vector<State> kids; std::vector<std::string> keys;
		for (size_t i = 0; i < len; i++) {
			kids.clear(); keys.clear();
			check(s, kids, keys, from);
			if (kids.empty()) break;
			size_t j = rng.in(0, kids.size() - 1);
			from = k;
			State t = kids[j]; s = t; k = keys[j];
		}
	}
};

// Explores up to max states breadth first, and compares the estimate of each
// with the cheapest way to a goal found, which the true cost can't exceed.
// With w >= 0, states are explored best first on cost plus w times the estimate.
template<class D> void selfadmissible(D &d, Ref &r, size_t max, double w = -1) {
	typedef typename D::State State;
	typedef typename D::PackedState PackedState;
	std::unordered_map<std::string, int> ids;
	std::vector<State> q;
	std::vector<double> h, dd;
	std::vector<char> goal;
	std::vector<std::vector<std::pair<int,double> > > rev;
	auto add = [&](State &s) {
		std::string k = Traits<D>::key(Traits<D>::text(d, s));
		auto it = ids.find(k);
		if (it != ids.end()) return it->second;
		int i = q.size();
		ids[k] = i; q.push_back(s); rev.emplace_back();
		h.push_back(d.h(s)); dd.push_back(d.d(s)); goal.push_back(d.isgoal(s));
		return i;
	};
	typedef std::pair<double,int> O;
	std::priority_queue<O, std::vector<O>, std::greater<O> > order;
	std::vector<double> g;
	State s0 = d.initialstate();
	add(s0);
	order.push(O(0, 0)); g.push_back(0);
	size_t n;
	bool found = false;
	for (n = 0; !order.empty() && n < max; n++) {
		size_t i = order.top().second;
		order.pop();
		if (goal[i] && w >= 0) { if (found) break; found = true; max = n + max / 4; }
		State s = q[i];
		typename D::Operators ops(d, s);
		for (unsigned j = 0; j < ops.size(); j++) {
			typename D::Edge e(d, s, ops[j]);
			State k = e.state;
			double c = e.cost;
			size_t t = add(k);
			rev[t].push_back(std::make_pair((int) i, c));
			if (t >= g.size()) { g.push_back(g[i] + c); order.push(O(w < 0 ? (double) t : g[t] + w * h[t], t)); }
		}
	}
	if (order.empty()) vh::stat("state spaces exhausted");
	std::vector<double> u(q.size(), INFINITY);
	typedef std::pair<double,int> P;
	std::priority_queue<P, std::vector<P>, std::greater<P> > pq;
	for (size_t j = 0; j < q.size(); j++) if (goal[j]) { u[j] = 0; pq.push(P(0, j)); }
	while (!pq.empty()) {
		P t = pq.top(); pq.pop();
		if (t.first > u[t.second]) continue;
		for (auto &e : rev[t.second]) if (t.first + e.second < u[e.first]) { u[e.first] = t.first + e.second; pq.push(P(u[e.first], e.first)); }
	}
	for (auto &it : ids) {
		int j = it.second;
		vh::stat("states explored");
		std::string at = r.name + " state [" + esc(it.first) + "] of [" + esc(r.inst).substr(0, 500) + "]";
		if (!(h[j] >= 0) || !(dd[j] >= 0)) vh::fail(r.name + ": negative estimate", "h=%g d=%g: %s", h[j], dd[j], at.c_str());
		if (goal[j] && (h[j] != 0 || dd[j] != 0)) vh::fail(r.name + ": estimate of a goal is not zero", "h=%g d=%g: %s", h[j], dd[j], at.c_str());
		if (u[j] == INFINITY) continue;
		vh::stat("heuristics compared");
		if (h[j] > 0) vh::stat("positive heuristics");
		vh::sig(vh::mix(vh::hashstr(r.inst), vh::hashstr(it.first)));
		if (r.admissible && h[j] > u[j] + r.eps * (1 + u[j])) vh::fail(r.name + ": heuristic overestimates", "h=%g, a goal can be reached at cost %g: %s", h[j], u[j], at.c_str());
	}
}

inline FILE *memfile(std::string &s) { return fmemopen((void*) s.data(), s.size(), "r"); }

// Runs the usual exploration of an instance: all of a small state space, or walks in a big one.
template<class D> void explore(D &d, Ref &r, vh::Rng &rng, size_t exmax, size_t max, int walks, size_t len) {
	std::unique_ptr<Exact> ex;
	if (exmax && (vh::ctx.prop == "P14" || vh::ctx.prop == "P15")) {
		ex.reset(new Exact(r, exmax));
		if (ex->complete) vh::stat("exact cost tables");
	}
	Test<D> t(d, r, rng, ex.get());
	vh::note("%s [%s]", r.name.c_str(), esc(r.inst).substr(0, 400).c_str());
	t.bfs(max);
	for (int i = 0; i < walks; i++) t.walk(len);
	vh::stat("instances");
	if (vh::wantsample()) vh::sample("%s: %s", r.name.c_str(), esc(r.inst).substr(0, 200).c_str());
}

}
