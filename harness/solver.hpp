// Runs of the real solver programs on instances of the domain harnesses, with
// exact costs as the oracle (P27), and of their data files (P20).
#pragma once
#include "domtest.hpp"
#include "algcfg.hpp"
#include "mutate.hpp"
#include "invalid.hpp"

namespace sv {

// What is special about a domain's program.
struct Opts : Shape {
	bool consistent = false;	// is the heuristic consistent?
	bool reversible = false;	// can every state be reached from all others?
	bool lvl = false;		// takes the instance from a file with -lvl
	bool unit = false;		// every operator costs one
	std::function<bool(const std::string &text)> valid;	// may this be accepted?
	// Checks the printed solution, given the program's output, its cost and length.
	std::function<void(const std::string &out, double cost, size_t len, const std::string &what)> solution;
};

// The lines of a data file.
struct Data {
	std::vector<std::pair<std::string, std::string> > pairs;
	std::vector<std::vector<std::string> > rows;	// of all kinds, names first
	std::string bad;
	std::string get(const std::string &k) const { for (auto &p : pairs) if (p.first == k) return p.second; return ""; }
	bool has(const std::string &k) const { for (auto &p : pairs) if (p.first == k) return true; return false; }
};
inline Data parse(const std::string &t) {
	Data d;
	static const std::string start = "#start data file format 4\n", end = "#end data file format 4\n";
	if (t.compare(0, start.size(), start)) d.bad = "does not begin with its marker";
	if (t.size() < end.size() || t.compare(t.size() - end.size(), end.size(), end)) d.bad = "does not end with its marker";
	std::map<std::string, size_t> width;
	size_t p = 0;
	int ln = 0;
	while (p < t.size()) {
		size_t q = t.find('\n', p);
		if (q == std::string::npos) { d.bad = "last line is cut"; break; }
		std::string l = t.substr(p, q - p); p = q + 1; ln++;
		auto quoted = [](const std::string &s, size_t &i, std::string &o) {
			if (i >= s.size() || s[i] != '"') return false;
			size_t j = s.find('"', i + 1);
			if (j == std::string::npos) return false;
			o = s.substr(i + 1, j - i - 1); i = j + 1;
			return true;
		};
		if (l == start.substr(0, start.size() - 1) || l == end.substr(0, end.size() - 1)) {
			if (ln != 1 && p != t.size()) d.bad = "a marker in the middle";
		} else if (l.compare(0, 7, "#pair  ") == 0) {
			size_t i = 7; std::string k, v;
			if (!quoted(l, i, k) || i >= l.size() || l[i++] != '\t' || !quoted(l, i, v) || i != l.size()) d.bad = "malformed pair: " + l;
			d.pairs.push_back(std::make_pair(k, v));
		} else if (l.compare(0, 9, "#altcols ") == 0) {
			size_t i = 10; std::string k;
			if (l[9] != ' ' || !quoted(l, i, k)) { d.bad = "malformed columns: " + l; continue; }
			size_t n = 0;
			while (i < l.size()) { std::string c; if (l[i++] != '\t' || !quoted(l, i, c)) { d.bad = "malformed columns: " + l; break; } n++; }
			width[k] = n;
		} else if (l.compare(0, 9, "#altrow  ") == 0) {
			size_t i = 9; std::string k;
			if (!quoted(l, i, k)) { d.bad = "malformed row: " + l; continue; }
			std::vector<std::string> row(1, k);
			while (i < l.size()) {
				if (l[i++] != '\t') { d.bad = "malformed row: " + l; break; }
				std::string c;
				if (i < l.size() && l[i] == '"') { if (!quoted(l, i, c)) { d.bad = "malformed row: " + l; break; } }
				else { size_t j = l.find('\t', i); if (j == std::string::npos) j = l.size(); c = l.substr(i, j - i); i = j; }
				row.push_back(c);
			}
			if (!width.count(k)) d.bad = "row without columns: " + l;
			else if (width[k] != row.size() - 1) d.bad = fmt("row of %zu values for %zu columns: ", row.size() - 1, width[k]) + l;
			d.rows.push_back(row);
		} else d.bad = "unknown line: " + l;
	}
	return d;
}

struct Read { std::vector<std::vector<std::string> > toks; };
inline void collect(std::vector<std::string> &t, void *p) { ((Read*) p)->toks.push_back(t); }

inline std::string showargs(const Args &a) { std::string s; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + a[i]; return s; }

// The data file that a program wrote: its own parse, and the library's.
inline Data datafile(const std::string &out, const std::string &what) {
	Data d = parse(out);
	if (!d.bad.empty()) fail("malformed data file", "%s: %s", d.bad.c_str(), what.c_str());
	Read rd;
	FILE *f = strfile(out);
	dfread(f, collect, &rd, NULL);
	fclose(f);
	size_t np = 0, nr = 0;
	for (auto &t : rd.toks) {
		if (t[0] == "#pair") {
			if (np >= d.pairs.size() || t.size() != 3 || t[1] != d.pairs[np].first || t[2] != d.pairs[np].second) fail("pair reads back differently", "pair %zu (%s): %s", np, t.size() > 1 ? t[1].c_str() : "", what.c_str());
			np++;
		} else if (t[0] == "#altrow") {
			if (nr >= d.rows.size() || std::vector<std::string>(t.begin() + 1, t.end()) != d.rows[nr]) fail("row reads back differently", "row %zu: %s", nr, what.c_str());
			nr++;
		}
	}
	if (np != d.pairs.size() || nr != d.rows.size()) fail("lines are lost in reading", "%zu of %zu pairs, %zu of %zu rows: %s", np, d.pairs.size(), nr, d.rows.size(), what.c_str());
	const char *need[] = { "wall start date", "algorithm", "initial heuristic", "initial distance", "final sol cost", "final sol length", "total nodes expanded", "total nodes generated", "total wall time" };
	for (const char *k : need) if (!d.has(k)) fail("missing pair", "%s: %s", k, what.c_str());
	stat("data files read");
	return d;
}

// Truncated anywhere, a file is incomplete.
inline void truncated(Rng &r, const std::string &out, const std::string &what) {
	const char *p = getenv("PROG_dfcmplt");
	if (!p) return;
	std::string path = scratch() + "/whole";
	for (int k = 0; k < 2; k++) {
		size_t n = k == 0 ? out.size() : r.in(0, 1) ? r.in(0, out.size() - 2) : out.size() - r.in(2, 30);
		writefile(path, out.substr(0, n));
		Child c = run({ p, path }, "", 20);
		if (!c.sane() || (c.code == 0) != (n == out.size())) fail("completeness of a solver's file", "%zu of %zu bytes %s: %s: %s", n, out.size(), c.code ? "rejected as incomplete" : "accepted as complete", c.describe().c_str(), what.c_str());
		stat("files judged complete or not");
	}
}

inline void malformed(Rng &r, const Opts &o, const std::string &name, const std::string &inst) {
	for (int k = 0; k < 8; k++) {
		Mut m;
		bool bad = r.in(0, 2) == 0 && invalidate(r, name, inst, m.text, m.how);
		if (bad) m.how = " " + m.how; else m = mutate(r, inst, o);
		Args a = { getenv("PROG_solver"), r.in(0, 1) ? "speedy" : "astar", "-gend", "300" };
		std::string in = m.text;
		if (o.lvl && r.in(0, 3) == 0) {
			std::string path = scratch() + "/level";
			writefile(path, m.text);
			a.push_back("-lvl"); a.push_back(path);
			in = "";
		}
		const char *vs = getenv("PROG_plainsolver");
		bool vg = vs && r.in(0, 39) == 0;
		if (vg) { a[0] = vs; Args b = { "/usr/bin/valgrind", "-q", "--error-exitcode=98", "--leak-check=no" }; b.insert(b.end(), a.begin(), a.end()); a = b; }
		std::string what = name + " " + showargs(a) + " with" + m.how + ": [" + dt::esc(m.text).substr(0, 600) + "]";
		note("%s", what.c_str());
		Child c = run(a, in, vg ? 60 : 10, scratch());
		stat(vg ? "malformed instances under valgrind" : "malformed instances");
		judged(c, m, true, what);
		if (c.code == 0 && c.exited) {
			if (bad || (o.valid && !o.valid(m.text))) fail("malformed input: an invalid instance is accepted", "%s", what.c_str());
			datafile(c.out, what);
		} else if (bad) { stat("invalid instances rejected"); stat("rejected:" + m.how); }
		sig(hashstr(what));
		if (wantsample()) sample("%s: exit %d %s", what.substr(0, 300).c_str(), c.code, c.err.substr(0, 100).c_str());
	}
	// Command lines
	for (int k = 0; k < 2; k++) {
		Cfg cf = mkcfg(r, ~0);
		Args a = cf.a;
		a[0] = getenv("PROG_solver");
		Args lims = { "-gend", "300", "-cputime", "1" };
		a.insert(a.begin() + 2, lims.begin(), lims.end());
		// At times all of it, and the limits are kept else.
		bool all = r.in(0, 3) == 0;
		int n = r.in(1, 3);
		for (int i = 0; i < n && a.size() > 1; i++) {
			if (!all && a.size() <= 6) a.push_back("-x");
			size_t at = r.in(all ? 1 : 6, a.size() - 1);
			static const char *vals[] = { "-1", "0", "1e9", "x", "", "-wt", "-cost", "-lvl", "nan", "-mem", "-walltime", "2x", "-d", "-gend", "-bins", "-heap", "astar", "-h", "--help", "-width", "-f", "-t", "-lookahead" };
			int op = r.in(0, 3);
			if (op == 0) a.erase(a.begin() + at); else if (op == 1) a.resize(at); else if (op == 2) a[at] = r.pick(std::vector<std::string>(vals, vals + sizeof vals / sizeof *vals)); else a.insert(a.begin() + at, vals[r.in(0, sizeof vals / sizeof *vals - 1)]);
		}
		std::string what = name + " " + showargs(a) + " on [" + dt::esc(inst).substr(0, 500) + "]";
		note("%s", what.c_str());
		Child c = run(a, inst, 10, scratch());
		stat("command lines");
		if (c.timeout && (cf.rt || all)) { stat("ran out of resources"); continue; }	// no other limit remained
		judged(c, Mut(), false, what);
		sig(hashstr(what));
	}
}

// Runs the program of a domain.  opt is the exact cost of a cheapest
// solution, infinite when there's none, NaN when it isn't known.
inline void solve(Rng &r, const Opts &o, const std::string &name, const std::string &inst, double opt, double eps) {
	if (ctx.prop == "P24") { malformed(r, o, name, inst); return; }
	const char *prog = getenv("PROG_solver");
	const unsigned long lim = 30000;
	int n = 1 + r.in(0, 3);
	for (int k = 0; k < n; k++) {
		Cfg c = mkcfg(r, ~0);
		if (c.name == "rtastar") continue;	// not offered by the programs
		Args a = c.a;
		a[0] = prog;
		a.push_back("-gend"); a.push_back(fmt("%lu", lim));
		// Real-time searches may wander for ever among known states when
		// there is no way out.
		if (c.rt) { a.push_back("-cputime"); a.push_back("2"); }
		std::string in = inst;
		if (o.lvl && r.in(0, 2) == 0) {
			std::string path = scratch() + "/level";
			writefile(path, inst);
			a.push_back("-lvl"); a.push_back(path);
			in = "";
		}
		std::string what = name + " " + showargs(a) + " on [" + dt::esc(inst).substr(0, 700) + "]";
		note("%s", what.c_str());
		Child ch = run(a, in, 60, scratch());
		stat("runs");
		stat("runs of " + c.name);
		const char *vs = getenv("PROG_plainsolver");
		if (vs && r.in(0, 29) == 0) {	// data that was never written
			Args b = { "/usr/bin/valgrind", "-q", "--error-exitcode=98", "--leak-check=no", vs };
			b.insert(b.end(), a.begin() + 1, a.end());
			b.push_back("-gend"); b.push_back("1000");
			Child v = run(b, in, 120, scratch());
			if (!v.sane() || v.code != 0) fail(c.name + ": memory errors under valgrind", "%s: %s", v.describe().c_str(), what.c_str());
			stat("runs under valgrind");
		}
		if (!ch.sane() || ch.code != 0) fail(c.name + ": the program failed", "%s: %s", ch.describe().c_str(), what.c_str());
		Data d = datafile(ch.out, what);
		if (ctx.prop == "P20") { truncated(r, ch.out, what); sig(mix(hashstr(inst), hashstr(showargs(c.a)))); continue; }
		double cost = strtod(d.get("final sol cost").c_str(), NULL), len = strtod(d.get("final sol length").c_str(), NULL), gend = strtod(d.get("total nodes generated").c_str(), NULL), expd = strtod(d.get("total nodes expanded").c_str(), NULL);
		bool limited = gend >= lim || (c.rt && strtod(d.get("total raw cpu time").c_str(), NULL) >= 1.5), solved = len > 0;
		double tol = 1e-5 + std::max(eps, 1e-6) * fabs(opt < INFINITY ? opt : 1);
		std::string alg = c.name;
		if (alg == "lsslrtastar2" && std::find(c.a.begin(), c.a.end(), "-complete") != c.a.end()) alg = "lsslrtastar-complete";
		if (d.get("algorithm") != alg) fail(c.name + ": algorithm printed", "%s: %s", d.get("algorithm").c_str(), what.c_str());
		if (solved ? cost < 0 : cost != -1) fail(c.name + ": cost and length disagree", "cost %g, length %g: %s", cost, len, what.c_str());
		if (limited) stat("cut short");
		if (solved) {
			stat("solved");
			if (opt == INFINITY) fail(c.name + ": solution of an unsolvable instance", "cost %g: %s", cost, what.c_str());
			if (cost < opt - tol) fail(c.name + ": cheaper than the optimum", "%.9g, optimum %.9g: %s", cost, opt, what.c_str());
			if (o.unit && cost != len - 1) fail(c.name + ": cost and length disagree", "cost %g, %g states: %s", cost, len, what.c_str());
			if (!limited && c.optimal && (!c.needcons || o.consistent) && cost > opt + tol) fail(c.name + ": not optimal", "%.9g, optimum %.9g: %s", cost, opt, what.c_str());
			if (!limited && c.w > 0 && (!c.needcons || o.consistent) && cost > c.w * opt + c.w * tol) fail(c.name + ": outside its bound", "%.9g, optimum %.9g, bound %g: %s", cost, opt, c.w, what.c_str());
			if (!limited && c.optimal && opt < INFINITY) stat("optimal costs compared");
			if (o.solution) o.solution(ch.out, cost, len, what);
		} else {
			if (!limited) stat("not solved");
			if (opt < INFINITY && !limited && c.complete && (!c.rt || o.reversible)) fail(c.name + ": no solution found", "optimum %.9g: %s", opt, what.c_str());
			if (opt == INFINITY && !limited) stat("unsolvable");
		}
		if (expd >= 3) sig(mix(hashstr(inst), hashstr(showargs(c.a))));
		if (wantsample()) sample("%s: cost %g, optimum %g, %g expanded", what.substr(0, 300).c_str(), cost, opt, expd);
	}
	stat("instances");
	if (opt < INFINITY) stat("instances with known optimum");
}

// The exact optimum by the rules, NaN if there are too many states.
inline double optimum(dt::Ref &r, size_t max) {
	if (ctx.prop == "P20" || ctx.prop == "P24") return NAN;
	std::unordered_map<std::string, double> g;
	typedef std::pair<double,std::string> P;
	std::priority_queue<P, std::vector<P>, std::greater<P> > pq;
	g[r.init()] = 0; pq.push(P(0, r.init()));
	std::vector<dt::Succ> ss;
	for (size_t n = 0; !pq.empty(); ) {
		P t = pq.top(); pq.pop();
		if (t.first > g[t.second]) continue;
		if (r.goal(t.second)) return t.first;
		if (n++ > max) return NAN;
		ss.clear();
		r.succs(t.second, ss);
		for (auto &s : ss) {
			auto it = g.find(s.key);
			double c = t.first + s.cost;
			if (it == g.end() || c < it->second) { g[s.key] = c; pq.push(P(c, s.key)); }
		}
	}
	return INFINITY;
}

// The cost of a cheapest path by the domain's own transitions, uniformly by
// cost without any heuristic.
template<class D> double ownoptimum(D &d, size_t max) {
	if (ctx.prop == "P20" || ctx.prop == "P24") return NAN;
	typedef typename D::State State;
	std::unordered_map<std::string, int> ids;
	std::vector<State> q;
	std::vector<double> g;
	typedef std::pair<double,int> P;
	std::priority_queue<P, std::vector<P>, std::greater<P> > pq;
	State s0 = d.initialstate();
	ids[dt::Traits<D>::key(dt::Traits<D>::text(d, s0))] = 0; q.push_back(s0); g.push_back(0); pq.push(P(0, 0));
	std::vector<char> done;
	for (size_t n = 0; !pq.empty(); ) {
		P t = pq.top(); pq.pop();
		if (t.first > g[t.second]) continue;
		State s = q[t.second];
		if (d.isgoal(s)) return t.first;
		if (n++ > max) return NAN;
		typename D::Operators ops(d, s);
		for (unsigned i = 0; i < ops.size(); i++) {
			typename D::Edge e(d, s, ops[i]);
			State k = e.state;
			double c = t.first + e.cost;
			std::string key = dt::Traits<D>::key(dt::Traits<D>::text(d, k));
			auto it = ids.find(key);
			if (it == ids.end()) { ids[key] = q.size(); pq.push(P(c, q.size())); q.push_back(k); g.push_back(c); }
			else if (c < g[it->second]) { g[it->second] = c; pq.push(P(c, it->second)); }
		}
	}
	return INFINITY;
}

// Applies the operators of a printed solution.
template<class D, class Ops> void replay(D &d, dt::Ref &ref, const Ops &ops, bool rules, double cost, size_t len, const std::string &what) {
	typename D::State s = d.initialstate();
	double c = 0;
	std::string k = dt::Traits<D>::key(dt::Traits<D>::text(d, s));
	if (ops.size() + 1 != len) fail("printed solution: length", "%zu operators, %zu states: %s", ops.size(), len, what.c_str());
	for (size_t i = 0; i < ops.size(); i++) {
		typename D::Operators av(d, s);
		bool ok = false;
		for (unsigned j = 0; j < av.size(); j++) if (av[j] == (typename D::Oper) ops[i]) ok = true;
		if (!ok) fail("printed solution: operator not applicable", "step %zu: %s", i, what.c_str());
		typename D::Edge e(d, s, ops[i]);
		typename D::State t = e.state;
		std::string kk = dt::Traits<D>::key(dt::Traits<D>::text(d, t));
		if (rules) {
			std::vector<dt::Succ> ss;
			ref.succs(k, ss);
			ok = false;
			for (auto &x : ss) if (x.key == kk && fabs(x.cost - e.cost) <= 1e-6 * (1 + x.cost)) ok = true;
			if (!ok) fail("printed solution: illegal step", "step %zu: %s", i, what.c_str());
		}
		c += e.cost;
		s = t; k = kk;
	}
	if (!ref.goal(k)) fail("printed solution: does not end in a goal", "%s", what.c_str());
	if (fabs(c - cost) > 1e-5 + 1e-6 * c) fail("printed solution: cost", "%.9g, printed %.9g: %s", c, cost, what.c_str());
	stat("printed solutions replayed");
}

inline bool wanted() { return ctx.prop == "P27" || ctx.prop == "P20" || ctx.prop == "P24"; }

}
