// Random command lines of the search algorithms, and what they promise.
#pragma once
#include "vh.hpp"
#include "search/anyprof/profile.hpp"
using namespace vh;

typedef std::vector<std::string> Args;
struct Cfg {
	Args a;
	std::string name;
	bool optimal = false;		// returns optimal solutions (admissible h)
	bool needcons = false;		// ... or only with a consistent h
	bool complete = true;
	bool anytime = false, rt = false, idastar = false, reopens = false, bestfirst = true;
	bool needpos = false;		// cycles of cost zero are outside its contract
	double w = 0;			// suboptimality bound promised
	bool samples = false;
};

static std::string num(double x) { return fmt("%g", x); }

static std::string profilepath(Rng &r) {
	std::string p = scratch() + fmt("/prof%ld", ctx.cur);
	std::vector<AnytimeProfile::SolutionStream> ss;
	int n = r.in(1, 5);
	for (int i = 0; i < n; i++) {
		AnytimeProfile::SolutionStream s;
		int m = r.in(2, 5); double c = r.in(20, 60), t = 0;
		for (int j = 0; j < m; j++) { AnytimeProfile::Solution x; x.cost = c; x.time = t; s.push_back(x); c -= r.in(1, 6); t += r.in(1, 20) * 0.001; }
		ss.push_back(s);
	}
	AnytimeProfile pr(r.in(2, 6), r.in(2, 6), ss);
	FILE *f = fopen(p.c_str(), "w"); pr.save(f); fclose(f);
	return p;
}

enum { Best = 1, Ida = 2, Any = 4, Beam = 8, Rt = 16, Bug = 32, AnyMon = 64, Dump = 128 };

static Cfg mkcfg(Rng &r, int groups) {
	for (;;) {
		Cfg c; c.a.push_back("prog");
		int k = r.in(0, 15);
		auto add = [&](const std::string &s) { c.a.push_back(s); };
		switch (k) {
		case 0: if (!(groups & Best)) continue; add("astar"); c.optimal = true; c.w = 1; c.reopens = true; break;
		case 1: if (!(groups & Ida)) continue; add("idastar"); c.optimal = true; c.w = 1; c.idastar = true; c.needpos = true; break;
		case 2: if (!(groups & Best)) continue; add("astar-dump"); c.optimal = true; c.w = 1; c.reopens = true; break;
		case 3: case 4: { if (!(groups & Best)) continue; add("wastar"); add("-wt"); double ws[] = { 1, 1, 1.1, 1.5, 2, 3, 10 }; double w = ws[r.in(0, 6)]; add(num(w)); c.reopens = true;
			if (r.p(0.2)) { add("-dropdups"); } else { c.w = w; c.optimal = w == 1; } break; }
		case 5: if (!(groups & Best)) continue; add("greedy"); if (r.p(0.3)) add("-dropdups"); c.reopens = true; break;
		case 6: if (!(groups & Best)) continue; add("speedy"); if (r.p(0.3)) add("-dropdups"); c.reopens = true; break;
		case 7: { if (!(groups & Bug)) continue; add("bugsy"); add("-wf"); add(num(r.in(0, 3))); add("-wt"); add(num(r.in(0, 3)));
			if (r.p(0.2)) add("-noresort"); if (r.p(0.3)) add("-expdelay"); if (r.p(0.3)) add("-hhat"); if (r.p(0.3)) add("-dhat");
			if (r.p(0.2)) add("-dropdups"); if (r.p(0.2)) add("-interph");
			if (r.p(0.15)) { add("-hlms"); add("1.1,0.1,0.2,0.05"); } if (r.p(0.15)) { add("-dlms"); add("0.1,0.1,1,0.1"); }
			if (c.a[c.a.size()-1][0] == '-' ) add("-x");
			c.reopens = true; break; }
		case 8: if (!(groups & Bug)) continue; add("bugsy-slim"); add("-wf"); add(num(r.in(0, 3))); add("-wt"); add(num(r.in(0, 3))); c.reopens = true; break;
		case 9: case 10: { if (!(groups & Any)) continue; add("arastar"); double w0[] = { 1, 1.5, 2, 3, 5, 10 }, dw[] = { 0.1, 0.25, 0.5, 1, 4 }; add("-wt0"); add(num(w0[r.in(0, 5)])); add("-dwt"); add(num(dw[r.in(0, 4)]));
			c.anytime = true; c.needcons = true; c.optimal = true; c.w = 1; break; }
		case 11: { if (!(groups & AnyMon)) continue; double w0[] = { 1, 1.5, 2, 3, 5 }, dw[] = { 0.1, 0.25, 0.5, 1 };
			if (r.p(0.6)) { add("arastarnora"); double la[] = { 0.01, 1, 100, 1e9 }; add("-lambda"); add(num(la[r.in(0, 3)])); }
			else { add("arastarmon"); add("-p"); add(profilepath(r)); }
			add("-wt0"); add(num(w0[r.in(0, 4)])); add("-dwt"); add(num(dw[r.in(0, 3)])); add("-wf"); add(num(r.in(1, 3))); add("-wt"); add(num(r.in(1, 50)));
			c.anytime = true; c.needcons = true; break; }
		case 12: { if (!(groups & Beam)) continue; add("beam"); add("-width"); int w[] = { 1, 2, 3, 5, 20, 1000 }; add(num(w[r.in(0, 5)])); if (r.p(0.4)) add("-dropdups"); c.complete = false; c.reopens = true; break; }
		case 13: { if (!(groups & Rt)) continue; add("lsslrtastar2"); add("-lookahead"); int l[] = { 1, 2, 3, 5, 10, 100 }; add(num(l[r.in(0, 5)]));
			if (r.p(0.4)) add("-onestep"); if (r.p(0.25)) add("-complete"); if (r.p(0.15)) { add("-wt"); add(num(r.in(1, 3))); } c.rt = true; c.bestfirst = false; break; }
		case 14: { if (!(groups & Rt)) continue; if (r.p(0.6)) { add("fhatlrtastar"); add("-lookahead"); int l[] = { 1, 2, 3, 5, 10, 100 }; add(num(l[r.in(0, 5)])); if (r.p(0.4)) add("-onestep"); }
			else { add("rtastar"); add("-d"); add(num(r.in(0, 4))); } c.rt = true; c.bestfirst = false; break; }
		default: { if (!(groups & Dump)) continue; add("dtastar-dump"); add("-lookahead"); add(num(r.in(1, 12))); add("-samplep"); double sp[] = { 0.1, 0.5, 1 }; add(num(sp[r.in(0, 2)])); add("-horizon"); add(num(r.in(1, 5)));
			c.rt = true; c.samples = true; c.bestfirst = false; break; }
		}
		c.name = c.a[1];
		return c;
	}
}

