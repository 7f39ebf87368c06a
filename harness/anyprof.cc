// Anytime profiles, stopping policies, and monitored searches (P25).
#define VH_MAIN
#include "vh.hpp"
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include "search/anyprof/profile.hpp"
#include <cmath>
#include <sstream>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
using namespace vh;
typedef std::vector<std::string> Args;
typedef AnytimeProfile::SolutionStream Stream;
typedef std::vector<Stream> Streams;
typedef long double ld;

static std::string show(const Streams &ss) {
	std::string s;
	for (auto &x : ss) { s += "["; for (auto &y : x) s += fmt(" %.9g@%.9g", y.cost, y.time); s += " ]"; }
	return s.size() > 900 ? s.substr(0, 900) + "..." : s;
}
static const char *prog(const char *n) { return getenv((std::string("PROG_") + n).c_str()); }

// What the solutions say, counted from the definitions.
struct Ref {
	unsigned nc, nt;
	double minc = INFINITY, maxc = -INFINITY, mint = INFINITY, maxt = -INFINITY;
	std::vector<long> n, m;	// solutions by cost, and by cost after a time
	bool vague = false;	// a value too near to the edge of a bin

	long bin(ld x, ld width, ld range, unsigned bins) {
		if (x == range) return bins - 1;
		ld v = x / width;
		if (fabsl(v - roundl(v)) < 1e-9 && v != roundl(v)) vague = true;
		if (v == roundl(v) && range != width * bins) vague = true;
		return std::min<long>(v, bins - 1);
	}
	long cbin(double c) { return bin((ld) c - minc, ((ld) maxc - minc) / nc, (ld) maxc - minc, nc); }
	// Differences of times are rounded to doubles.
	long tbin(double dt) { double range = maxt - mint; return dt == range ? nt - 1 : bin(dt, (ld) range / nt, range, nt); }
	Ref(unsigned c, unsigned t, const Streams &ss) : nc(c), nt(t), n(c * t), m(c * c * t) {
		for (auto &s : ss) for (auto &x : s) {
			minc = std::min(minc, x.cost); maxc = std::max(maxc, x.cost);
			mint = std::min(mint, x.time); maxt = std::max(maxt, x.time);
		}
		for (auto &s : ss) for (size_t i = 0; i < s.size(); i++) for (unsigned dt = 0; dt < nt; dt++) {
			size_t best = i;
			for (size_t j = i + 1; j < s.size(); j++) if (tbin(s[j].time - s[i].time) <= (long) dt) best = j;
			long q = cbin(s[i].cost), qj = cbin(s[best].cost);
			n[q * nt + dt]++;
			m[(qj * nc + q) * nt + dt]++;
		}
	}
	double least() const {
		double l = INFINITY;
		for (unsigned q = 0; q < nc; q++) for (unsigned dt = 0; dt < nt; dt++) for (unsigned k = 0; k <= q; k++) {
			long c = m[(k * nc + q) * nt + dt];
			if (c) l = std::min(l, c / (double) n[q * nt + dt]);
		}
		return l;
	}
};

static Streams streams(Rng &r, unsigned nc, unsigned nt, bool exact) {
	Streams ss;
	int n = r.in(1, 8);
	double cw = exact ? std::ldexp(1, r.in(-3, 4)) : 0, tw = exact ? std::ldexp(1, r.in(-10, 2)) : 0;
	double lo = exact ? r.in(0, 100) * cw : r.real() * 100;
	double range = exact ? nc * cw : r.real() * 100 + 1e-3, trange = exact ? nt * tw : r.real() * 10 + 1e-3, t0 = exact ? r.in(0, 8) * tw : r.real();
	if (!exact && r.in(0, 9) == 0) { lo *= 1e8; range = std::max(range * 1e-5, lo * 1e-6); }
	for (int i = 0; i < n; i++) {
		Stream s;
		int k = r.in(1, 7);
		std::vector<double> c, t;
		for (int j = 0; j < k; j++) {
			// Eighths of bins are exact.
			c.push_back(exact ? lo + cw * r.in(0, 8 * nc) / 8 : lo + range * r.real());
			t.push_back(exact ? t0 + tw * r.in(0, 8 * nt) / 8 : t0 + trange * r.real());
		}
		if (i == 0) { c[0] = lo; t[0] = t0; if (k > 1) { c[1] = lo + range; t[1] = t0 + trange; } }
		std::sort(c.rbegin(), c.rend()); std::sort(t.begin(), t.end());
		if (r.in(0, 3) == 0 && k > 2) { t[1] = t[2]; if (r.in(0, 1)) c[1] = c[2]; }
		for (int j = 0; j < k; j++) { AnytimeProfile::Solution x; x.cost = c[j]; x.time = t[j]; s.push_back(x); }
		ss.push_back(s);
	}
	if (exact) { Stream s; AnytimeProfile::Solution a = { lo + range, t0 }, b = { lo, t0 + trange }; s.push_back(a); s.push_back(b); ss.push_back(s); }
	if (r.in(0, 3) == 0) ss.insert(ss.begin() + r.in(0, ss.size()), Stream());
	if (!exact && r.in(0, 19) == 0) { ss.resize(1); if (ss[0].empty()) { AnytimeProfile::Solution x = { 3, 1 }; ss[0].push_back(x); } ss[0].resize(1); }	// one solution
	return ss;
}

static void compare(const AnytimeProfile &p, const Ref &f, const char *which, const std::string &what) {
	if (p.ncost != f.nc || p.ntime != f.nt) fail(std::string(which) + ": bins", "%u %u: %s", p.ncost, p.ntime, what.c_str());
	if (p.mincost != f.minc || p.maxcost != f.maxc || p.mintime != f.mint || p.maxtime != f.maxt)
		fail(std::string(which) + ": extents", "%.17g %.17g %.17g %.17g: %s", p.mincost, p.maxcost, p.mintime, p.maxtime, what.c_str());
	double small = f.least();
	for (unsigned q = 0; q < f.nc; q++) for (unsigned dt = 0; dt < f.nt; dt++) {
		long n = f.n[q * f.nt + dt];
		if (!f.vague && p.qtcount(q, dt) != n) fail(std::string(which) + ": number of solutions", "cost %u time %u: %u, not %ld: %s", q, dt, p.qtcount(q, dt), n, what.c_str());
		double sum = 0;
		for (unsigned k = 0; k < f.nc; k++) {
			double pr = p.binprob(k, q, dt);
			if (!(pr >= 0 && pr <= 1) || (k > q && pr != 0) || (k <= q && pr == 0)) fail(std::string(which) + ": probability", "P(%u | %u, %u) = %g: %s", k, q, dt, pr, what.c_str());
			sum += pr;
			if (f.vague || k > q) continue;
			double want = ((n ? f.m[(k * f.nc + q) * f.nt + dt] / (double) n : 0) + small / 2);
			want /= (n ? 1 : 0) + (q + 1) * small / 2;
			if (fabs(pr - want) > 1e-12) fail(std::string(which) + ": probability", "P(%u | %u, %u) = %.17g, not %.17g: %s", k, q, dt, pr, want, what.c_str());
			stat("probabilities compared");
		}
		if (fabs(sum - 1) > 1e-9) fail(std::string(which) + ": probabilities do not sum to one", "cost %u time %u: %.17g: %s", q, dt, sum, what.c_str());
	}
	if (p.binprob(f.nc, 0, 0) || p.binprob(0, f.nc, 0) || p.binprob(0, 0, f.nt)) fail(std::string(which) + ": probability outside of the bins", "%s", what.c_str());
	stat(f.vague ? "profiles with vague bins" : "profiles compared");
}
static std::string saved(const AnytimeProfile &p) {
	char *b = NULL; size_t n = 0;
	FILE *f = open_memstream(&b, &n);
	p.save(f); fclose(f);
	std::string s(b, n); free(b);
	return s;
}

static void profiles(Rng &r) {
	unsigned nc = r.in(1, r.in(0, 3) ? 6 : 60), nt = r.in(1, r.in(0, 3) ? 6 : 60);
	bool exact = r.in(0, 1);
	Streams ss = streams(r, nc, nt, exact);
	std::string what = fmt("%u cost bins, %u time bins: ", nc, nt) + show(ss);
	note("%s", what.c_str());
	Ref f(nc, nt, ss);
	AnytimeProfile p(nc, nt, ss);
	compare(p, f, "profile", what);
	std::string t = saved(p), path = scratch() + "/p";
	writefile(path, t);
	FILE *in = strfile(t + (r.in(0, 1) ? "and more" : ""));
	AnytimeProfile a(in), b(path);
	fclose(in);
	compare(a, f, "profile read from a file", what);
	compare(b, f, "profile read from a path", what);
	if (saved(a) != t || saved(b) != t) fail("profile: saved differently after it was read", "%s", what.c_str());
	if (wantsample()) sample("%s", what.c_str());
	sig(hashstr(what));
}

// The best policy for a profile, by the probabilities it states.
struct Policy {
	const AnytimeProfile &p;
	unsigned nc, nt;
	ld wf, wt;
	std::vector<ld> val, edge;	// its value, and by how much to stop is better than to go on
	std::vector<char> stop;
	ld util(unsigned q, unsigned t) const {
		ld qw = ((ld) p.maxcost - p.mincost) / nc, tw = ((ld) p.maxtime - p.mintime) / nt;
		return -(wf * (p.mincost + q * qw + qw / 2) + wt * (p.mintime + t * tw + tw / 2));
	}
	Policy(const AnytimeProfile &pr, double f, double t0) : p(pr), nc(pr.ncost), nt(pr.ntime), wf(f), wt(t0), val(nc * nt), edge(nc * nt), stop(nc * nt) {
		for (long t = nt - 1; t >= 0; t--) for (unsigned q = 0; q < nc; q++) {
			ld s = util(q, t), g = -INFINITY;
			if (q > 0 && t < (long) nt - 1) { g = 0; for (unsigned k = 0; k <= q; k++) g += p.binprob(k, q, 1) * val[k * nt + t + 1]; }
			val[q * nt + t] = std::max(s, g);
			edge[q * nt + t] = s - g;
			stop[q * nt + t] = s >= g;
		}
	}
	bool sure(unsigned q, unsigned t) const { return fabsl(edge[q * nt + t]) > 1e-9 * (1 + fabsl(val[q * nt + t])); }
	// The value of some policy when it is followed.
	std::vector<ld> follow(const std::vector<char> &s) const {
		std::vector<ld> v(nc * nt);
		for (long t = nt - 1; t >= 0; t--) for (unsigned q = 0; q < nc; q++) {
			ld x = 0;
			if (s[q * nt + t] || q == 0 || t == (long) nt - 1) x = util(q, t);
			else for (unsigned k = 0; k <= q; k++) x += p.binprob(k, q, 1) * v[k * nt + t + 1];
			v[q * nt + t] = x;
		}
		return v;
	}
};

static double weight(Rng &r) { return r.in(0, 6) == 0 ? 0 : r.in(0, 1) ? r.in(1, 10) : std::exp((r.real() - 0.5) * 16); }
static void policies(Rng &r) {
	bool small = r.in(0, 1);
	unsigned nc = r.in(1, small ? 4 : r.in(0, 3) ? 8 : 40), nt = r.in(1, small ? 4 : r.in(0, 3) ? 8 : 40);
	Streams ss = streams(r, nc, nt, r.in(0, 1));
	AnytimeProfile p(nc, nt, ss);
	if (r.in(0, 1)) { std::string t = saved(p); FILE *f = strfile(t); p = AnytimeProfile(f); fclose(f); }
	double wf = weight(r), wt = weight(r);
	std::string what = fmt("%u cost bins, %u time bins, weights %g %g: ", nc, nt, wf, wt) + show(ss);
	note("%s", what.c_str());
	AnytimeMonitor mon(p, wf, wt);
	Policy ref(p, wf, wt);
	double qw = (p.maxcost - p.mincost) / nc, tw = (p.maxtime - p.mintime) / nt;
	if (fabs(mon.deltat() - tw) > 1e-12 * tw) fail("monitor: interval", "%g, not %g: %s", mon.deltat(), tw, what.c_str());
	std::vector<char> pol(nc * nt, 1);
	if (qw > 0 && tw > 0) {
		for (unsigned q = 0; q < nc; q++) for (unsigned t = 0; t < nt; t++) {
			bool first = true;
			for (double dq : { 0.5, 0.02, 0.98 }) for (double dt : { 0.5, 0.02, 0.98 }) {
				double c = p.mincost + (q + dq) * qw, tm = p.mintime + (t + dt) * tw;
				if (c >= p.maxcost || tm >= p.maxtime) continue;
				bool s = mon.stop(c, tm);
				if (first) pol[q * nt + t] = s;
				else if (s != (bool) pol[q * nt + t]) fail("policy: differs within a bin", "%g %g: %s", c, tm, what.c_str());
				first = false;
			}
			stat(pol[q * nt + t] ? "decisions to stop" : "decisions to go on");
			if (ref.sure(q, t) && pol[q * nt + t] != ref.stop[q * nt + t]) fail("policy: not the best decision", "%s at cost bin %u, time bin %u, to stop is worth %Lg more: %s", pol[q * nt + t] ? "stop" : "go on", q, t, ref.edge[q * nt + t], what.c_str());
		}
		// No policy at all is better.
		std::vector<ld> v = ref.follow(pol);
		int cells = (nc - 1) * (nt - 1);
		for (int k = 0; k < (cells <= 9 ? 1 << cells : 30); k++) {
			std::vector<char> o(nc * nt, 1);
			int b = 0;
			for (unsigned q = 1; q < nc; q++) for (unsigned t = 0; t + 1 < nt; t++) { o[q * nt + t] = cells <= 9 ? k >> b & 1 : r.in(0, 1); b++; }
			std::vector<ld> w = ref.follow(o);
			for (size_t i = 0; i < w.size(); i++) if (w[i] > v[i] + 1e-8 * (1 + fabsl(v[i]))) fail("policy: another one is better", "%Lg, not %Lg from cell %zu: %s", w[i], v[i], i, what.c_str());
			stat("policies it was compared with");
		}
		// It goes on when better or earlier than anything it knows.
		if (p.mincost > 0 && mon.stop(p.mincost - qw, p.mintime + tw / 2)) fail("policy: stops outside", "below the costs: %s", what.c_str());
		if (!mon.stop(p.mincost + qw / 2, p.maxtime + tw)) fail("policy: goes on outside", "after the times: %s", what.c_str());
		for (int k = 0; k < 50; k++) {	// anything near the edges of bins is some decision
			double c = p.mincost + qw * r.in(0, nc), t = p.mintime + tw * r.in(0, nt);
			for (int i = r.in(0, 2); i > 0; i--) { c = std::nextafter(c, r.in(0, 1) ? 1e300 : -1e300); t = std::nextafter(t, r.in(0, 1) ? 1e300 : -1e300); }
			mon.stop(c, t);
			stat("decisions at the edges");
		}
	} else stat("flat profiles");
	stat("policies compared");
	if (wantsample()) sample("%s", what.c_str());
	sig(hashstr(what));
}

static std::string datafile(Rng &r, const Stream &s, Stream &written, bool cut) {
	std::string t = "#start data file format 4\n#pair  \"algorithm\"\t\"arastar\"\n#pair  \"weight\"\t\"3\"\n";
	const char *name = r.in(0, 3) ? "incumbent" : "sol";
	t += fmt("#altcols  \"%s\"\t\"num\"\n", name);
	int k = 0;
	for (auto &x : s) {
		if (r.in(0, 3) == 0) t += "#altrow  \"other\"\t1\t2\t3\t4\t5\t6\t7\t8\n";
		if (r.in(0, 5) == 0) t += "#pair  \"incumbent\"\t\"3\"\n";
		std::string c = fmt("%g", x.cost), tm = fmt("%g", x.time);
		t += fmt("#altrow  \"%s\"\t%d\t%d\t%d\t3\t3\t%s\t%s\n", name, ++k, (int) r.in(1, 99), (int) r.in(1, 99), c.c_str(), tm.c_str());
		AnytimeProfile::Solution y = { strtod(c.c_str(), NULL), strtod(tm.c_str(), NULL) };
		written.push_back(y);
	}
	return t + (cut ? "" : "#end data file format 4\n");
}

// mkprof, sptcounts and sptpolicy over a results database.
static void programs(Rng &r) {
	unsigned nc = r.in(1, 6), nt = r.in(1, 6);
	Streams ss = streams(r, nc, nt, r.in(0, 1)), all;
	std::string root = scratch() + "/db";
	mkdir(root.c_str(), 0777);
	struct Clean { std::string d; ~Clean() { wipe(d); } } clean = { root };
	bool two = r.in(0, 1);
	for (size_t i = 0; i < ss.size(); i++) {
		Stream w;
		bool other = r.in(0, 4) == 0;
		std::string t = datafile(r, ss[i], w, r.in(0, 9) == 0);
		RdbAttrs a;
		a.push_back("alg", other ? "other" : "ara");
		if (two) a.push_back("dom", "tiles");
		a.push_back("num", fmt("%zu", i));
		writefile(pathfor(root.c_str(), a), t);
		if (!other) all.push_back(w);
	}
	size_t n = 0;
	for (auto &s : all) n += s.size();
	std::string what = fmt("%u cost bins, %u time bins: ", nc, nt) + show(all);
	note("%s", what.c_str());
	Args av = { prog("mkprof"), root, fmt("%u", nc), fmt("%u", nt), "alg=ara" };
	if (two && r.in(0, 1)) av.push_back("dom=tiles");
	Child c = run(av, "", 20, scratch());
	if (!c.sane()) fail("mkprof: the program failed", "%s: %s", c.describe().c_str(), what.c_str());
	stat("runs of mkprof");
	if (n == 0) { if (c.code == 0) fail("mkprof: a profile of nothing", "%s", what.c_str()); return; }
	if (c.code) fail("mkprof: the program failed", "%s %s: %s", c.describe().c_str(), c.out.c_str(), what.c_str());
	RdbAttrs a;
	a.push_back("alg", "ara.profile"); a.push_back("cost bins", fmt("%u", nc)); a.push_back("time bins", fmt("%u", nt));
	std::vector<std::string> ps = withattrs(root, a);
	if (ps.size() != 1) fail("mkprof: the profile is not found", "%zu files: %s", ps.size(), what.c_str());
	Ref f(nc, nt, all);
	AnytimeProfile p(ps[0]);
	compare(p, f, "mkprof", what);
	Child d = run({ prog("sptcounts"), ps[0] }, "", 20, scratch());
	if (!d.sane() || d.code) fail("sptcounts: the program failed", "%s: %s", d.describe().c_str(), what.c_str());
	std::map<std::pair<unsigned,unsigned>, unsigned> got;
	std::stringstream in(d.out);
	std::string l;
	while (std::getline(in, l)) { unsigned x, y, z; char e; if (sscanf(l.c_str(), " (%u %u %u%c", &x, &y, &z, &e) == 4 && e == ')') got[std::make_pair(x, y)] = z; }
	if (got.size() != nc * nt) fail("sptcounts: points", "%zu of them: %s", got.size(), what.c_str());
	for (auto &x : got) if (x.first.second >= nc || x.first.first >= nt || x.second != p.qtcount(x.first.second, x.first.first)) fail("sptcounts: count", "time %u cost %u: %u: %s", x.first.first, x.first.second, x.second, what.c_str());
	double wf = r.in(0, 5), wt = r.in(0, 20);
	Child s = run({ prog("sptpolicy"), ps[0], fmt("%g", wf), fmt("%g", wt) }, "", 20, scratch());
	if (!s.sane() || s.code) fail("sptpolicy: the program failed", "%s: %s", s.describe().c_str(), what.c_str());
	double qw = (p.maxcost - p.mincost) / nc, tw = (p.maxtime - p.mintime) / nt;
	if (qw <= 1e-4 * fabs(p.maxcost) || tw <= 1e-4 * p.maxtime) return;	// not told apart by what is printed
	Policy ref(p, wf, wt);
	int list = 0; size_t pts = 0;
	std::stringstream in2(s.out);
	while (std::getline(in2, l)) {
		double t, q;
		if (l.find("(stop-pts") != std::string::npos) list = 1;
		else if (l.find("(go-pts") != std::string::npos) list = 2;
		else if (sscanf(l.c_str(), "\t\t(%lf %lf)", &t, &q) == 2 && l.find(":") == std::string::npos) {
			if (!list) fail("sptpolicy: point", "%s: %s", l.c_str(), what.c_str());
			double fq = (q - p.mincost) / qw - 0.5, ft = (t - p.mintime) / tw - 0.5;
			long iq = lround(fq), it = lround(ft);
			if (fabs(fq - iq) > 0.1 || fabs(ft - it) > 0.1 || iq < 0 || it < 0 || iq >= (long) nc || it >= (long) nt) fail("sptpolicy: point", "%s: %s", l.c_str(), what.c_str());
			if (ref.sure(iq, it) && (list == 1) != (bool) ref.stop[iq * nt + it]) fail("sptpolicy: not the best decision", "%s %s, weights %g %g: %s", list == 1 ? "stop" : "go on", l.c_str(), wf, wt, what.c_str());
			pts++;
		}
	}
	if (pts != nc * nt) fail("sptpolicy: points", "%zu of them: %s", pts, what.c_str());
	stat("printed policies");
	if (wantsample()) sample("%s", what.c_str());
	sig(hashstr(what));
}

// A monitored search follows its policy.  The times of the profile are so
// long that each decision is one of the first time bin.
static void monitored(Rng &r) {
	const int N = 6;
	std::vector<int> cakes(N);
	for (int i = 0; i < N; i++) cakes[i] = i;
	for (int i = N - 1; i > 0; i--) std::swap(cakes[i], cakes[r.in(0, i)]);
	std::string inst = fmt("%d\n", N);
	for (int x : cakes) inst += fmt("%d ", x);
	unsigned nc = r.in(1, 8), nt = r.in(1, 5);
	Streams ss;
	double lo = r.in(0, 3), hi = lo + r.in(1, 9);
	for (int i = r.in(1, 5); i >= 0; i--) {
		Stream s;
		double c = i ? hi - r.in(0, 3) : hi, t = 0;
		for (int k = r.in(1, 4); k >= 0 && c >= lo; k--) { AnytimeProfile::Solution x = { c, t }; s.push_back(x); c -= r.in(1, 4) / 2.0; t += r.in(1, 10) * 1e5; }
		if (!s.empty()) ss.push_back(s);
	}
	{ Stream s; AnytimeProfile::Solution a = { lo, 0 }, b = { lo, 1e7 }; s.push_back(a); s.push_back(b); ss.push_back(s); }
	AnytimeProfile p(nc, nt, ss);
	std::string path = scratch() + "/profile";
	writefile(path, saved(p));
	double wf = r.in(0, 20), wt = r.in(0, 2) ? r.real() * 1e-6 * r.in(1, 20) : r.in(0, 1);
	Policy pol(p, wf, wt);
	// 1: stop, 0: go on, -1: either
	auto decision = [&](double c) {
		if (c < p.mincost) return 0;
		if (c >= p.maxcost) return -1;	// worse than anything it knows
		double b = (c - p.mincost) / ((p.maxcost - p.mincost) / nc);
		if (fabs(b - round(b)) < 1e-6 && b != round(b)) return -1;
		unsigned q = std::min<unsigned>(b, nc - 1);
		return pol.sure(q, 0) ? (int) pol.stop[q * nt] : -1;
	};
	double w0[] = { 1, 2, 5, 20 }, dw[] = { 0.1, 0.5, 2 };
	Args a = { prog("solver"), "arastarmon", "-p", path, "-wf", fmt("%.17g", wf), "-wt", fmt("%.17g", wt), "-wt0", fmt("%g", w0[r.in(0, 3)]), "-dwt", fmt("%g", dw[r.in(0, 2)]) };
	if (r.in(0, 3) == 0) { a.push_back("-cost"); a.push_back("sum"); }
	std::string what; for (size_t i = 1; i < a.size(); i++) what += a[i] + " ";
	what += "on " + inst + fmt("; %u %u bins ", nc, nt) + show(ss);
	for (char &c : what) if (c == '\n') c = ' ';
	note("%s", what.c_str());
	Child c = run(a, inst, 20, scratch());
	if (!c.sane() || c.code) fail("monitored search: the program failed", "%s: %s", c.describe().c_str(), what.c_str());
	Child o = run({ prog("solver"), "astar" }, inst, 20, scratch());
	std::vector<double> rows; double fin = -1, opt = -1; std::string conv;
	auto each = [&](const std::string &text, double &cost, bool main) {
		FILE *f = strfile(text);
		struct X { std::vector<double> *rows; double *cost; std::string *conv; bool main; } x = { &rows, &cost, &conv, main };
		dfread(f, [](std::vector<std::string> &t, void *v) {
			X *x = (X*) v;
			if (t.size() > 2 && t[0] == "#pair" && t[1] == "final sol cost") *x->cost = strtod(t[2].c_str(), NULL);
			if (x->main && t.size() > 2 && t[0] == "#pair" && t[1] == "converged") *x->conv = t[2];
			if (x->main && t.size() > 8 && t[0] == "#altrow" && t[1] == "incumbent") x->rows->push_back(strtod(t[7].c_str(), NULL));
		}, &x, NULL);
		fclose(f);
	};
	each(c.out, fin, true); each(o.out, opt, false);
	stat("monitored searches");
	if (fin < 0 || rows.empty()) fail("monitored search: stopped without a solution", "cost %g, %zu incumbents: %s", fin, rows.size(), what.c_str());
	if (rows.back() != fin) fail("monitored search: not the last incumbent", "%g, not %g: %s", fin, rows.back(), what.c_str());
	if (fin < opt) fail("monitored search: cheaper than the optimum", "%g, not %g: %s", fin, opt, what.c_str());
	for (size_t i = 0; i < rows.size(); i++) {
		if (i && rows[i] > rows[i - 1]) fail("monitored search: incumbents get worse", "%g after %g: %s", rows[i], rows[i - 1], what.c_str());
		if (i + 1 < rows.size() && rows[i + 1] != rows[i] && decision(rows[i]) == 1) fail("monitored search: went on against its policy", "at cost %g: %s", rows[i], what.c_str());
	}
	if (decision(fin) == 0) {
		// It may only have stopped as there was nothing left to find.
		if (fin > opt) fail("monitored search: stopped against its policy", "cost %g, optimum %g: %s", fin, opt, what.c_str());
		stat("searches that went on to the end");
	}
	if (decision(fin) == 1) stat("searches that were stopped");
	if (conv == "yes" && fin != opt) fail("monitored search: converged to a worse solution", "%g, optimum %g: %s", fin, opt, what.c_str());
	if (fin > opt) stat("searches stopped before the optimum");
	if (wantsample()) sample("%s: cost %g optimum %g converged %s", what.c_str(), fin, opt, conv.c_str());
	sig(hashstr(what));
}

std::vector<Kind> vh::kinds() { return { { "profiles", profiles, 8 }, { "policies", policies, 8 }, { "programs", programs, 2 }, { "monitored", monitored, 2 } }; }
