// Instances that are certainly malformed, by the format that they are in (P24).
#pragma once
#include "vh.hpp"
#include <sstream>

namespace sv {
using namespace vh;

typedef std::vector<std::string> Lines;
inline Lines lines(const std::string &t) { Lines v; std::stringstream ss(t); std::string l; while (std::getline(ss, l)) v.push_back(l); return v; }
inline std::string text(const Lines &v) { std::string t; for (auto &l : v) t += l + "\n"; return t; }
inline Lines toks(const std::string &t) { Lines v; std::stringstream ss(t); std::string l; while (ss >> l) v.push_back(l); return v; }
inline std::string join(const Lines &v) { std::string t; for (auto &l : v) t += (t.empty() ? "" : " ") + l; return t; }
inline std::string outofrange(Rng &r, long n) {
	switch (r.in(0, 3)) { case 0: return "-1"; case 1: return fmt("%ld", n + (long) r.in(1, 9)); default: return fmt("%ld", n); }
}

// The rows of a map, from line a on, that end in a new line.
inline const char *badrows(Rng &r, Lines &l, size_t a, size_t n, const char *none) {
	if (!n) return NULL;
	std::string &s = l[a + r.in(0, n - 1)];
	switch (r.in(0, 2)) {
	case 0: s += s.empty() ? '#' : s[r.in(0, s.size() - 1)]; return "a longer row";
	case 1: if (s.empty()) return NULL; s.erase(r.in(0, s.size() - 1), 1); return "a shorter row";
	default: if (s.empty()) return NULL; s[r.in(0, s.size() - 1)] = none[r.in(0, strlen(none) - 1)]; return "no such cell";
	}
}
inline const char *badvacuum(Rng &r, Lines &l) {
	if (l.size() < 3) return NULL;
	switch (r.in(0, 3)) {
	case 0: for (size_t i = 2; i < l.size(); i++) for (char &c : l[i]) if (c == '@') c = '_'; return "no start";
	case 1: l[r.in(0, 1)] = r.in(0, 1) ? "x" : ""; if (l[0].empty()) l.erase(l.begin()); return "no size";
	default: return badrows(r, l, 2, l.size() - 3, " .x0\t?");	// what follows the last row is not read
	}
}
inline const char *badgridmap(Rng &r, Lines &l, bool locs) {
	if (l.empty()) return NULL;
	bool ruml = isdigit((unsigned char) l[0][0]), oct = l[0].compare(0, 4, "type") == 0;
	size_t a = oct ? 4 : 2, w = 0, h = 0;
	if (oct) { h = atoi(l[1].c_str() + 7); w = atoi(l[2].c_str() + 6); }
	else if (ruml) { auto t = toks(l[0]); h = atoi(t[0].c_str()); w = atoi(t[1].c_str()); }
	else { auto t = toks(l[0]); if (t.size() < 4) return NULL; w = atoi(t[2].c_str()); h = atoi(t[3].c_str()); }
	if (locs && r.in(0, 1)) {
		auto t = toks(l.back());
		if (t.size() != 4) return NULL;
		int i = r.in(0, 3);
		if (r.in(0, 2) || !(oct || ruml)) { t[i] = outofrange(r, i % 2 ? h : w); l.back() = join(t); return "a location outside of the map"; }
		for (size_t y = a; y < a + h && y < l.size(); y++) for (char &c : l[y]) c = oct ? '@' : '#';
		return "blocked locations";
	}
	switch (r.in(0, 3)) {
	case 0: {
		static const char *hs[] = { "x", "tiles", "Type octile", "type hexagonal", "type octil", "seed", "-1 -1" };
		l[0] = hs[r.in(0, 6)]; return "no such map"; }
	case 1:
		if (oct) { l[r.in(1, 3)] = "x"; return "a bad header"; }
		if (ruml) { size_t i = a + h + r.in(0, 1); if (i >= l.size()) return NULL; l[i] = i == a + h ? "Xcost" : "Six-way"; return "no such costs or moves"; }
		l[r.in(1, 2)] = "Other"; return "no such costs or moves";
	default:
		if (!(oct || ruml) || a + h > l.size()) return NULL;
		return badrows(r, l, a, h, oct ? " xg#?" : ".@x?");
	}
}
inline const char *badlvl(Rng &r, Lines &l, bool game) {
	size_t a = 0;
	while (a < l.size() && toks(l[a]).size() < 3) a++;
	if (a >= l.size()) return NULL;
	auto hd = toks(l[a]);
	size_t w = atoi(hd[1].c_str()), h = atoi(hd[2].c_str());
	a++;
	if (a + h > l.size() || !w || !h) return NULL;
	for (size_t i = a; i < a + h; i++) if (l[i].size() != w) return NULL;
	switch (r.in(0, game ? 6 : 2)) {
	case 0: hd[0] = r.in(0, 1) ? "2" : "0"; l[a - 1] = join(hd); return "another depth";
	case 1: case 2: return badrows(r, l, a, h, "x.@*?");
	case 3: case 4: {
		const char *c = r.in(0, 1) ? "dD" : "uU";
		std::vector<std::pair<size_t,size_t> > in;
		for (size_t y = 1; y + 1 < h; y++) for (size_t x = 1; x + 1 < w; x++) {
			if (strchr(c, l[a + y][x])) l[a + y][x] = ' ';
			else if (l[a + y][x] == ' ' || l[a + y][x] == '#' || l[a + y][x] == 'w') in.push_back(std::make_pair(x, y));
		}
		if (r.in(0, 1)) return "no start or goal";
		if (in.size() < 2) return NULL;
		size_t i = r.in(0, in.size() - 1), j = r.in(0, in.size() - 2);
		if (j >= i) j++;
		l[a + in[i].second][in[i].first] = c[r.in(0, 1)];
		l[a + in[j].second][in[j].first] = c[r.in(0, 1)];
		return "two starts or goals"; }
	default: {
		size_t x = r.in(0, w - 1), y = r.in(0, h - 1);
		if (r.in(0, 1)) x = r.in(0, 1) ? 0 : w - 1; else y = r.in(0, 1) ? 0 : h - 1;
		l[a + y][x] = " w"[r.in(0, 1)];
		return "an open border"; }
	}
}
inline const char *badtraffic(Rng &r, Lines &l) {
	if (l.size() < 2) return NULL;
	auto wh = toks(l[1]), s = toks(l[0]);
	if (wh.size() != 2 || s.size() != 4) return NULL;
	long w = atoi(wh[0].c_str()), h = atoi(wh[1].c_str());
	switch (r.in(0, 3)) {
	case 0: { int i = r.in(0, 3); s[i] = outofrange(r, i % 2 ? h : w); l[0] = join(s); return "a location outside of the map"; }
	case 1: wh[r.in(0, 1)] = "0"; l[1] = join(wh); return "no size";
	case 2: {
		size_t k = r.in(2, l.size());
		Lines o = { "0", "0", "1", "0" };
		int i = r.in(0, 1);
		o[i] = outofrange(r, i ? h : w);
		l.insert(l.begin() + k, join(o));
		return "an obstacle outside of the map"; }
	default: {
		Lines o = { "0", "0", "1", "0" };
		if (r.in(0, 1)) { o.resize(r.in(1, 3)); l.push_back(join(o)); return "a part of an obstacle"; }
		o[r.in(0, 3)] = "x";
		l.insert(l.begin() + r.in(2, l.size()), join(o));
		return "an obstacle that is none"; }
	}
}
inline const char *badsegments(Rng &r, Lines &l) {
	size_t a = 0;
	while (a < l.size() && l[a][0] == '#') a++;
	if (a + 2 > l.size()) return NULL;
	auto hd = toks(l[a]);
	if (hd.size() != 3) return NULL;
	long w = atoi(hd[0].c_str()), h = atoi(hd[1].c_str()), na = atoi(hd[2].c_str());
	size_t n = atoi(l[a + 1].c_str());
	if (n && a + 2 + n <= l.size() && r.in(0, 3)) {
		std::string &s = l[a + 2 + r.in(0, n - 1)];
		auto t = toks(s);
		if (t.size() != 7) return NULL;
		int g = r.in(0, 1) * 3;
		switch (r.in(0, 3)) {
		case 0: t[0] = std::vector<std::string>{ "-1", "nan", "inf", "-0.5", "x" }[r.in(0, 4)]; s = join(t); return "no radius";
		case 1: t[3 + g] = outofrange(r, na); s = join(t); return "a rotation that is none";
		case 2: t[1 + g] = r.in(0, 1) ? "-1" : fmt("%ld", w + (long) r.in(1, 3)); s = join(t); return "a segment outside";
		default: t[2 + g] = r.in(0, 1) ? "-1" : fmt("%ld", h + (long) r.in(1, 3)); s = join(t); return "a segment outside";
		}
	}
	switch (r.in(0, 2)) {
	case 0: hd[2] = fmt("%ld", 2 * (long) r.in(0, 9) + 1); l[a] = join(hd); return "an odd number of angles";
	case 1: hd[2] = "0"; l[a] = join(hd); return "no angles";
	default: l[a + 1] = fmt("%zu", n + 1 + r.in(0, 3)); return "fewer segments than announced";
	}
}
inline const char *baddrobot(Rng &r, Lines &l) {
	long n[5];	// locations, cranes, boxes, piles, robots
	for (int i = 0; i < 5; i++) { if (l.size() < 5) return NULL; auto t = toks(l[i]); if (t.size() != 2) return NULL; n[i] = atol(t[1].c_str()); }
	std::vector<size_t> loc, adj, piles, pile, goal;
	size_t boxes = 0;
	for (size_t i = 5; i < l.size(); i++) {
		auto t = toks(l[i]);
		if (t.empty()) continue;
		if (t[0] == "location") loc.push_back(i);
		else if (t[0] == "adjacent:") adj.push_back(i);
		else if (t[0] == "piles:") piles.push_back(i);
		else if (t[0] == "pile") { pile.push_back(i); if (i + 1 < l.size()) boxes += toks(l[i + 1]).size(); i++; }
		else if (t[0] == "container") goal.push_back(i);
	}
	auto pick = [&](const std::vector<size_t> &v) { return v[r.in(0, v.size() - 1)]; };
	switch (r.in(0, 12)) {
	case 0: l[4] = r.in(0, 1) ? "nrobots: 0" : "nrobots: 2"; return "another number of robots";
	case 1: { if (loc.empty()) return NULL; l[pick(loc)] = "location " + outofrange(r, n[0]); return "no such location"; }
	case 2: { if (adj.empty()) return NULL; auto &s = l[pick(adj)]; auto t = toks(s); if (r.in(0, 1)) t.push_back("1"); else t.pop_back(); s = join(t); return "an adjacency list of another length"; }
	case 3: { if (adj.empty()) return NULL; l.erase(l.begin() + pick(adj)); return "a location without neighbors"; }
	case 4: { if (piles.empty()) return NULL; l[pick(piles)] += " " + outofrange(r, n[3]); return "no such pile"; }
	case 5: { if (pile.empty()) return NULL; auto p = toks(l[pick(pile)])[1]; if (piles.empty()) return NULL; l[pick(piles)] += " " + p; return "a pile in two places"; }
	case 6: { if (pile.empty()) return NULL; l[pick(pile)] = "pile " + outofrange(r, n[3]); return "no such pile is described"; }
	case 7: { if (pile.size() < 2) return NULL; size_t i = pick(pile), j = pick(pile); if (i == j) return NULL; l[i] = l[j]; return "a pile described twice"; }
	case 8: { if (pile.empty()) return NULL; size_t i = pick(pile) + 1; if (i >= l.size()) return NULL; l[i] += " " + outofrange(r, n[2]); return "no such box"; }
	case 9: { if (!n[2] || pile.empty()) return NULL; size_t i = pick(pile) + 1; if (i >= l.size()) return NULL; l[i] += fmt(" %ld", (long) r.in(0, n[2] - 1)); return "a box in two places"; }
	case 10: { if (!n[2]) return NULL; l[2] = fmt("ncontainers: %ld", n[2] + (long) r.in(1, 3)); return "a box in no place"; }
	case 11: { if (goal.empty()) return NULL; auto &s = l[pick(goal)]; auto t = toks(s); int i = r.in(0, 1) ? 1 : 3; t[i] = outofrange(r, i == 1 ? n[2] : n[0]); s = join(t); return "a goal of nothing"; }
	default: { if (goal.empty()) return NULL; auto &s = l[pick(goal)]; auto t = toks(s); if (r.in(0, 1)) t.push_back("1"); else t.pop_back(); s = join(t); return "a goal of another length"; }
	}
}
// Polygons, and the graph and the locations that may follow them.
inline const char *badpolys(Rng &r, Lines &l, bool graph, bool locs) {
	size_t a = 0;
	if (a < l.size() && l[a].compare(0, 6, "bound:") == 0) a++;
	if (a >= l.size()) return NULL;
	size_t n = atoi(l[a].c_str()), v = a + 1 + n;
	if (l.size() < v || (graph && l.size() <= v)) return NULL;
	if (locs && r.in(0, 5) == 0) { auto t = toks(l.back()); t[r.in(0, 3)] = "x"; l.back() = join(t); return "a location that is none"; }
	size_t nv = graph ? atoi(l[v].c_str()) : 0;
	if (graph && nv && l.size() >= v + 1 + nv && r.in(0, 1)) {
		std::string &s = l[v + 1 + r.in(0, nv - 1)];
		auto t = toks(s);
		if (t.size() < 4) return NULL;
		size_t e = (t.size() - 4) / 3;
		switch (r.in(0, 2)) {
		case 0: t[0] = fmt("%ld", atol(t[0].c_str()) + (r.in(0, 1) ? 1 : (long) nv)); s = join(t); return "another vertex";
		case 1: if (!e) return NULL; t[4 + 3 * r.in(0, e - 1)] = fmt("%ld", (atol(t[0].c_str()) + 1) % (long) (nv + 1)); s = join(t); return "an edge of another vertex";
		default: if (!e) return NULL; t[5 + 3 * r.in(0, e - 1)] = fmt("%zu", nv + r.in(0, 2)); s = join(t); return "an edge to no vertex";
		}
	}
	if (!n) return NULL;
	std::string &s = l[a + 1 + r.in(0, n - 1)];
	auto t = toks(s);
	switch (r.in(0, 3)) {
	case 0: t.resize(5); t[0] = "2"; s = join(t); return "a polygon of two vertices";
	case 1: t[0] = "0"; t.resize(1); s = join(t); return "an empty polygon";
	case 2: t[r.in(0, t.size() - 1)] = "x"; s = join(t); return "a polygon with what is no number";
	default: l[a] = r.in(0, 1) ? "x polygons" : "polygons"; return "no number of polygons";
	}
}

// Makes a well-formed text malformed.
inline bool invalidate(Rng &r, const std::string &name, const std::string &in, std::string &out, std::string &how) {
	Lines l = lines(in);
	const char *w = NULL;
	if (name == "vacuum" || name == "cs730") w = badvacuum(r, l);
	else if (name == "gridnav") w = badgridmap(r, l, true);
	else if (name == "grid2poly" || name == "gridrand" || name == "gridmap") w = badgridmap(r, l, false);
	else if (name == "plat2d") w = badlvl(r, l, true);
	else if (name == "plat2poly") w = badlvl(r, l, false);
	else if (name == "traffic") w = badtraffic(r, l);
	else if (name == "segments") w = badsegments(r, l);
	else if (name == "drobot") w = baddrobot(r, l);
	else if (name == "visnav") w = badpolys(r, l, true, true);
	else if (name == "vinst") w = badpolys(r, l, true, false);
	else if (name == "mkgraph") w = badpolys(r, l, false, false);
	else if (name == "pbm2poly" && !l.empty()) {
		if (r.in(0, 1)) { static const char *h[] = { "P2", "P4", "p1", "1", "P" }; l[0] = h[r.in(0, 4)]; w = "another kind of image"; }
		else { std::string &s = l.back(); size_t at = s.find_first_of("01"); if (at == std::string::npos) return false; s[at] = "2x-.a"[r.in(0, 4)]; w = "no such pixel"; }
	} else if (name == "ppm2grid" && l.size() > 3) {
		switch (r.in(0, 2)) {
		case 0: { static const char *h[] = { "P2", "P6", "p3", "3", "P3x" }; l[0] = h[r.in(0, 4)]; w = "another kind of image"; break; }
		case 1: l[r.in(1, 2)] = "x"; w = "a bad header"; break;
		default: { size_t i = r.in(3, l.size() - 1); auto t = toks(l[i]); if (t.empty()) return false; t[r.in(0, t.size() - 1)] = "x"; l[i] = join(t); w = "no such color"; }
		}
	} else if ((name == "scenario" || name == "scenario2rdb") && l.size() > 1) {
		if (r.in(0, 1)) { static const char *h[] = { "version 2", "version", "Version 1", "1", "version x", "version 1.5" }; l[0] = h[r.in(0, 5)]; w = "another version"; if (l[0] == "version" && name == "scenario2rdb") return false; }
		else if (name == "scenario") {
			auto &s = l[r.in(1, l.size() - 1)];
			auto t = toks(s);
			if (t.size() != 9) return false;
			if (r.in(0, 1)) { int i = r.in(4, 7); t[i] = i % 2 ? fmt("%ld", atol(t[3].c_str()) + (long) r.in(0, 2)) : fmt("%ld", atol(t[2].c_str()) + (long) r.in(0, 2)); w = "a location outside of the map"; }
			else { t[std::vector<int>{ 2, 3, 4, 5, 6, 7, 8 }[r.in(0, 6)]] = "x"; w = "an entry with what is no number"; }
			s = join(t);
		} else return false;
	}
	if (!w) return false;
	out = text(l);
	how = w;
	return true;
}

}
