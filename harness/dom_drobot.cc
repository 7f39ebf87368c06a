// The dock worker robot domain against its rules.
#define VH_MAIN
#include "solver.hpp"
#include "drobot/drobot.hpp"
#include <set>
using namespace vh;
namespace dt {
// The estimates that are cached in a state are not part of it.
template<> struct Traits<DockRobot> {
	static std::string text(DockRobot &d, DockRobot::State &s) { return dumped(d, s); }
	static bool nop(const DockRobot::Oper &o) { return o == DockRobot::Nop; }
	static std::string key(const std::string &s) { size_t i = s.find("robot location"); return i == std::string::npos ? s : s.substr(i); }
};
}
typedef std::vector<int> Ints;
struct St { int rloc, rbox; std::vector<std::set<int> > cranes; std::vector<std::set<Ints> > piles; };
struct DRef : dt::Ref {
	int nloc, nbox;
	Ints ncranes, npiles, goalloc;
	std::vector<std::vector<float> > adj;
	St start;
	DRef() { name = "drobot"; eps = 2e-5; }
	std::string show(const St &s) {
		int left = 0;
		auto out = [&](int b, int l) { if (goalloc[b] >= 0 && goalloc[b] != l) left++; };
		if (s.rbox >= 0) out(s.rbox, s.rloc);
		std::string t;
		for (int l = 0; l < nloc; l++) {
			t += fmt("loc %d:\n", l);
			for (int b : s.cranes[l]) { t += fmt("\tcrane: %d\n", b); out(b, l); }
			for (auto &p : s.piles[l]) { t += "\tpile:"; for (int b : p) { t += fmt(" %d", b); out(b, l); } t += "\n"; }
		}
		return fmt("robot location: %d\nrobot contents: %d\nout of place boxes: %d\n", s.rloc, s.rbox, left) + t;
	}
	St parse(const std::string &k) {
		St s; s.cranes.resize(nloc); s.piles.resize(nloc);
		int loc = -1;
		size_t i = 0;
		while (i < k.size()) {
			size_t e = k.find('\n', i); std::string l = k.substr(i, e - i); i = e + 1;
			int v;
			if (sscanf(l.c_str(), "robot location: %d", &v) == 1) s.rloc = v;
			else if (sscanf(l.c_str(), "robot contents: %d", &v) == 1) s.rbox = v;
			else if (sscanf(l.c_str(), "loc %d:", &v) == 1) loc = v;
			else if (sscanf(l.c_str(), "\tcrane: %d", &v) == 1) s.cranes[loc].insert(v);
			else if (l.compare(0, 6, "\tpile:") == 0) {
				Ints p; const char *c = l.c_str() + 6; char *ce;
				for (;;) { long x = strtol(c, &ce, 10); if (ce == c) break; p.push_back(x); c = ce; }
				s.piles[loc].insert(p);
			}
		}
		return s;
	}
	std::string init() { return show(start); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		St s = parse(k);
		int l = s.rloc;
		bool room = (int) s.cranes[l].size() < ncranes[l];
		for (int b : s.cranes[l]) {
			St base = s; base.cranes[l].erase(b);
			for (auto &p : s.piles[l]) {	// put it on a pile
				St t = base; Ints q = p; q.push_back(b);
				t.piles[l].erase(p); t.piles[l].insert(q);
				out.push_back(dt::Succ{show(t), 0.05 * (p.size() + 1)});
			}
			if ((int) s.piles[l].size() < npiles[l]) {	// on the ground
				St t = base; t.piles[l].insert(Ints(1, b));
				out.push_back(dt::Succ{show(t), 0.05});
			}
			if (s.rbox < 0) { St t = base; t.rbox = b; out.push_back(dt::Succ{show(t), 0.01}); }
		}
		if (room) {
			for (auto &p : s.piles[l]) {	// take the top box off
				St t = s; Ints q = p; int b = q.back(); q.pop_back();
				t.piles[l].erase(p); if (!q.empty()) t.piles[l].insert(q);
				t.cranes[l].insert(b);
				out.push_back(dt::Succ{show(t), 0.05 * (p.size() + 1)});
			}
			if (s.rbox >= 0) { St t = s; t.cranes[l].insert(s.rbox); t.rbox = -1; out.push_back(dt::Succ{show(t), 0.01}); }
		}
		for (int j = 0; j < nloc; j++) if (j != l) { St t = s; t.rloc = j; out.push_back(dt::Succ{show(t), adj[l][j]}); }
	}
	bool goal(const std::string &k) {
		St s = parse(k);
		for (int b = 0; b < nbox; b++) {
			if (goalloc[b] < 0) continue;
			int l = goalloc[b];
			bool ok = (s.rbox == b && s.rloc == l) || s.cranes[l].count(b);
			for (auto &p : s.piles[l]) if (std::count(p.begin(), p.end(), b)) ok = true;
			if (!ok) return false;
		}
		return true;
	}
};

static void instance(Rng &r) {
	DRef t;
	bool small = ctx.prop == "P14" || sv::wanted();
	t.nloc = r.in(1, small ? 3 : 4); t.nbox = r.in(0, small ? 3 : 7);
	if (small && t.nloc == 3 && t.nbox == 3 && r.in(0, 4)) t.nbox = 2;
	std::vector<std::vector<std::pair<int,Ints> > > piles(t.nloc);	// number, boxes
	int np = 0, nc = 0;
	t.adj.assign(t.nloc, std::vector<float>(t.nloc, 0));
	bool sym = r.in(0, 1);
	for (int i = 0; i < t.nloc; i++) for (int j = 0; j < t.nloc; j++) if (i != j) t.adj[i][j] = sym && j < i ? t.adj[j][i] : r.in(1, 400) / 8.0f / (r.in(0, 3) ? 1 : 10);
	for (int i = 0; i < t.nloc; i++) { t.ncranes.push_back(r.in(i == 0 ? 1 : 0, 2)); nc += t.ncranes[i]; t.npiles.push_back(r.in(i == 0 ? 1 : 0, 3)); np += t.npiles[i]; }
	// Piles are numbered in any order.
	Ints num; for (int i = 0; i < np; i++) num.push_back(i);
	bool shuf = r.in(0, 1);
	if (shuf) for (int i = np - 1; i > 0; i--) std::swap(num[i], num[r.in(0, i)]);
	int k = 0;
	std::vector<std::pair<int,int> > slots;
	for (int i = 0; i < t.nloc; i++) for (int p = 0; p < t.npiles[i]; p++) { piles[i].push_back(std::make_pair(num[k++], Ints())); slots.push_back(std::make_pair(i, p)); }
	Ints boxes; for (int b = 0; b < t.nbox; b++) boxes.push_back(b);
	for (int i = t.nbox - 1; i > 0; i--) std::swap(boxes[i], boxes[r.in(0, i)]);
	for (int b : boxes) { auto s = slots[r.in(0, slots.size() - 1)]; piles[s.first][s.second].second.push_back(b); }
	for (int b = 0; b < t.nbox; b++) t.goalloc.push_back(r.in(0, 3) ? r.in(0, t.nloc - 1) : -1);

	t.inst = fmt("nlocations: %d\nncranes: %d\nncontainers: %d\nnpiles: %d\nnrobots: 1\n", t.nloc, nc, t.nbox, np);
	int crane = 0;
	for (int i = 0; i < t.nloc; i++) {
		t.inst += fmt("location %d\n\tadjacent:", i);
		for (int j = 0; j < t.nloc; j++) t.inst += fmt(" %g", t.adj[i][j]);
		t.inst += "\n\tcranes:";
		for (int c = 0; c < t.ncranes[i]; c++) t.inst += fmt(" %d", crane++);
		t.inst += "\n\tpiles:";
		for (auto &p : piles[i]) t.inst += fmt(" %d", p.first);
		t.inst += "\n";
	}
	t.start.rloc = 0; t.start.rbox = -1; t.start.cranes.resize(t.nloc); t.start.piles.resize(t.nloc);
	std::map<int, Ints> bynum;
	for (int i = 0; i < t.nloc; i++) for (auto &p : piles[i]) { bynum[p.first] = p.second; if (!p.second.empty()) t.start.piles[i].insert(p.second); }
	for (auto &p : bynum) {
		t.inst += fmt("pile %d\n\t", p.first);
		for (size_t i = 0; i < p.second.size(); i++) t.inst += fmt("%s%d", i ? " " : "", p.second[i]);
		t.inst += "\n";
	}
	for (int b = 0; b < t.nbox; b++) if (t.goalloc[b] >= 0) t.inst += fmt("container %d at %d\n", b, t.goalloc[b]);
	for (int i = 0; i < t.nloc; i++) for (int j = 0; j < t.nloc; j++) t.adj[i][j] = strtof(fmt("%g", t.adj[i][j]).c_str(), NULL);
	FILE *f = dt::memfile(t.inst);
	DockRobot d(f);
	fclose(f);
	if (sv::wanted()) { sv::Opts o; o.consistent = false; o.tail = 1; 
		// Up to the last container in a pile: piles may be empty, and containers have no goals.
		o.head = [](const std::string &t) {
			std::stringstream ss(t);
			std::string l;
			size_t n = 0, head = 0;
			bool pile = false;
			while (std::getline(ss, l)) {
				size_t k = sv::words(l).size();
				n += k;
				if (l.find("adjacent:") != std::string::npos || (pile && k)) head = n;
				pile = !pile && l.compare(0, 5, "pile ") == 0;
			}
			return head;
		}; sv::solve(r, o, "drobot", t.inst, sv::optimum(t, 20000), 1e-5); return; }
	dt::explore(d, t, r, small ? 6000 : 0, small ? 600 : 120, small ? 0 : 1, 60);
}
std::vector<Kind> vh::kinds() { return { { "drobot", instance, 1 } }; }
