// The pancake domain against its rules.
#define VH_MAIN
#include <errno.h>
#include "solver.hpp"
#include "pancake/pancake.hpp"
using namespace vh;

static std::vector<int> parse(const std::string &k) { std::vector<int> v; const char *p = k.c_str(); char *e; for (;;) { long x = strtol(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } return v; }
static std::string show(const std::vector<int> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += fmt(i ? " %d" : "%d", v[i]); return s + "\n"; }

struct PRef : dt::Ref {
	std::vector<int> v;
	std::string init() { return show(v); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		std::vector<int> c = parse(k);
		for (size_t n = 2; n <= c.size(); n++) { std::vector<int> t = c; std::reverse(t.begin(), t.begin() + n); out.push_back(dt::Succ{show(t), 1}); }
	}
	bool goal(const std::string &k) { std::vector<int> c = parse(k); for (size_t i = 0; i < c.size(); i++) if (c[i] != (int) i) return false; return true; }
	double h(const std::string &k) {
		std::vector<int> c = parse(k);
		int g = c.back() != (int) c.size() - 1;
		for (size_t i = 0; i + 1 < c.size(); i++) if (abs(c[i] - c[i+1]) != 1) g++;
		return g;
	}
	double d(const std::string &k) { return h(k); }
};

static void instance(Rng &r) {
	PRef p;
	p.name = fmt("pancake%d", NCAKES);
	for (int i = 0; i < NCAKES; i++) p.v.push_back(i);
	switch (r.in(0, 3)) {
	case 0: break;
	case 1: { int n = r.in(1, 4); while (n--) std::reverse(p.v.begin(), p.v.begin() + r.in(2, NCAKES)); break; }
	default: for (int i = NCAKES - 1; i > 0; i--) std::swap(p.v[i], p.v[r.in(0, i)]);
	}
	p.inst = fmt("%d\n", NCAKES) + show(p.v);
	FILE *f = dt::memfile(p.inst);
	Pancake d(f);
	fclose(f);
	bool small = NCAKES <= 6;
	if (sv::wanted()) { sv::Opts o; o.valid = [](const std::string &t) { auto v = sv::numbers(t.c_str()); return !v.empty() && v[0] == (long) Pancake::Ncakes && sv::permutation(std::vector<long>(v.begin() + 1, v.end()), Pancake::Ncakes); }; o.consistent = o.reversible = o.unit = true; sv::solve(r, o, "pancake", p.inst, sv::optimum(p, 3000), 0); return; }
	dt::explore(d, p, r, small ? 800 : 0, small ? 800 : 12, small ? 0 : 2, 25);
}
std::vector<Kind> vh::kinds() { return { { "pancake", instance, 1 } }; }
