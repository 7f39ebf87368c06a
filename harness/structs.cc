// Monitors of the data structures: P08 (queues), P09 (tables), P10 (kd-tree),
// P11 (pool, disjoint sets), P12 (temporal networks).  Every operation of a
// random history is applied to the real structure and to a naive model.
#define VH_MAIN
#include "vh.hpp"
#include <memory>
#include "utils/utils.hpp"
#include "search/search.hpp"
#include "structs/binheap.hpp"
#include "structs/intpq.hpp"
#include "structs/htable.hpp"
#include "search/closedlist.hpp"
#include "structs/kdtree.hpp"
#include "structs/djset.hpp"
#include "utils/pool.hpp"
#include "structs/stn.hpp"
using namespace vh;

unsigned long search_verif_closed_max = ~0UL;

// Names of the last few operations of a history, for the message.
struct Hist {
	std::vector<std::string> h; uint64_t dig = 0; long n = 0;
	void add(const std::string &s) { n++; dig = mix(dig, hashstr(s)); h.push_back(s); if (h.size() > 60) h.erase(h.begin()); if (n <= 60) note("%s", str().c_str()); }
	std::string str() const { std::string s; for (auto &x : h) s += x + "; "; return s; }
};

// ---- P08
struct HE { long prio; long ind; int id; };
struct HOps {
	static bool pred(HE *a, HE *b) { return a->prio < b->prio; }
	static void setind(HE *e, long i) { e->ind = i; }
};
static void kbinheap(Rng &r) {
	int n = r.in(1, 40); long range = r.p(0.3) ? 3 : r.p(0.5) ? 20 : 1000000;
	std::vector<HE> es(n);
	for (int i = 0; i < n; i++) es[i] = HE{r.in(-range, range), -1, i};
	BinHeap<HOps, HE*> h; std::set<HE*> in; Hist hi;
	int nops = r.in(5, ctx.thorough ? 400 : 120), popb = r.in(1, 4);
	for (int s = 0; s < nops; s++) {
		int op = r.in(0, 10 + popb);
		HE *e = &es[r.in(0, n-1)];
		if (op <= 3) {
			if (in.count(e)) continue;
			e->prio = r.in(-range, range);
			hi.add(fmt("push %d:%ld", e->id, e->prio));
			if (r.p(0.5)) h.push(e); else h.pushupdate(e, e->ind);
			in.insert(e);
		} else if (op <= 6) {
			if (!in.count(e)) continue;
			e->prio = r.p(0.2) ? e->prio : r.in(-range, range);
			hi.add(fmt("update %d:%ld", e->id, e->prio));
			if (r.p(0.5)) h.update(e->ind); else h.pushupdate(e, e->ind);
		} else if (op == 7) {
			if (!r.p(0.3)) continue;
			std::vector<HE*> v;
			for (auto &x : es) if (!in.count(&x) && r.p(0.4)) { x.prio = r.in(-range, range); v.push_back(&x); }
			std::string d; for (auto x : v) d += fmt(" %d:%ld", x->id, x->prio);
			hi.add("append" + d);
			h.append(v);
			in.insert(v.begin(), v.end());
		} else if (op == 8) {
			if (!r.p(0.3)) continue;
			hi.add("reorder");
			for (auto x : in) x->prio = r.in(-range, range);
			if (r.p(0.5)) { std::vector<HE*> v = h.data(); r.shuffle(v); h.data() = v; }
			h.reinit();
		} else if (op == 9) {
			if (!r.p(0.08)) continue;
			hi.add("clear"); h.clear(); for (auto x : in) x->ind = -1; in.clear();
		} else {
			hi.add("pop");
			boost::optional<HE*> p = h.pop();
			if (in.empty()) { if (p) fail("binheap: pop of an empty heap", "%s", hi.str().c_str()); continue; }
			if (!p) fail("binheap: lost elements", "pop finds nothing, %zu held: %s", in.size(), hi.str().c_str());
			if (!in.count(*p)) fail("binheap: popped an element not held", "%d: %s", (*p)->id, hi.str().c_str());
			for (auto x : in) if (x->prio < (*p)->prio) fail("binheap: popped element is not the best", "%ld, %ld held: %s", (*p)->prio, x->prio, hi.str().c_str());
			if ((*p)->ind != -1) fail("binheap: popped element still marked", "index %ld: %s", (*p)->ind, hi.str().c_str());
			in.erase(*p); stat("pops");
		}
		if ((size_t) h.size() != in.size() || h.empty() != in.empty()) fail("binheap: size", "%ld, %zu held: %s", h.size(), in.size(), hi.str().c_str());
		for (auto &x : es) {
			if (!in.count(&x)) { if (x.ind != -1) fail("binheap: index of an element not held", "%d has %ld: %s", x.id, x.ind, hi.str().c_str()); continue; }
			if (x.ind < 0 || x.ind >= h.size() || h.at(x.ind) != &x) fail("binheap: index of a held element is wrong", "%d has %ld: %s", x.id, x.ind, hi.str().c_str());
		}
		boost::optional<HE*> f = h.front();
		if ((bool) f != !in.empty()) fail("binheap: front", "%s", hi.str().c_str());
		if (f) for (auto x : in) if (x->prio < (*f)->prio) fail("binheap: front is not the best", "%ld, %ld held: %s", (*f)->prio, x->prio, hi.str().c_str());
	}
	if (hi.n >= 5) sig(hi.dig);
	stat("operations", hi.n);
	if (wantsample()) sample("binheap %s", hi.str().substr(0, 200).c_str());
}

struct ON { int f, g; int ind; int id; double ff; };
struct OOps {
	static bool pred(ON *a, ON *b) { if (a->f == b->f) return a->g > b->g; return a->f < b->f; }
	static int prio(ON *n) { return n->f; }
	static int tieprio(ON *n) { return n->g; }
	static void setind(ON *n, int i) { n->ind = i; }
	static int getind(const ON *n) { return n->ind; }
};
template<class OL> static void openlist(Rng &r, const char *name) {
	int n = r.in(1, 40); int fr = r.p(0.3) ? 2 : r.p(0.5) ? 20 : 260, gr = r.p(0.3) ? 2 : r.p(0.5) ? 20 : 260;
	std::vector<ON> ns(n);
	for (int i = 0; i < n; i++) { ns[i].ind = -1; ns[i].id = i; ns[i].f = ns[i].g = 0; }
	OL o; std::set<ON*> in; Hist hi;
	int nops = r.in(5, ctx.thorough ? 400 : 150), popb = r.in(1, 6);
	auto keys = [&](ON *e) { e->f = r.in(0, fr); e->g = r.in(0, gr); };
	std::string nm = name;
	for (int s = 0; s < nops; s++) {
		int op = r.in(0, 8 + popb);
		ON *e = &ns[r.in(0, n-1)];
		if (op <= 3) {
			if (in.count(e)) continue;
			keys(e); hi.add(fmt("push %d:%d/%d", e->id, e->f, e->g));
			if (r.p(0.5)) o.push(e); else { o.pre_update(e); o.post_update(e); }
			in.insert(e);
		} else if (op <= 7) {
			if (!in.count(e)) continue;
			o.pre_update(e); keys(e); hi.add(fmt("update %d:%d/%d", e->id, e->f, e->g)); o.post_update(e);
		} else if (op == 8) {
			if (!r.p(0.08)) continue;
			hi.add("clear"); o.clear(); in.clear(); stat("clears");
		} else {
			if (in.empty()) continue;
			hi.add("pop");
			ON *p = o.pop();
			if (!p || !in.count(p)) fail(nm + ": popped an element not held", "%s", hi.str().c_str());
			for (auto x : in) if (OOps::pred(x, p)) fail(nm + ": popped element is not the best", "%d/%d, %d/%d held: %s", p->f, p->g, x->f, x->g, hi.str().c_str());
			in.erase(p); stat("pops");
		}
		if (o.empty() != in.empty()) fail(nm + ": emptiness", "%zu held: %s", in.size(), hi.str().c_str());
		for (auto &x : ns) if (o.mem(&x) != (in.count(&x) > 0)) fail(nm + ": membership", "%d mem %d: %s", x.id, (int) o.mem(&x), hi.str().c_str());
	}
	while (!in.empty()) {
		if (o.empty()) fail(nm + ": lost elements", "%zu held: %s", in.size(), hi.str().c_str());
		ON *p = o.pop();
		if (!p || !in.count(p)) fail(nm + ": popped an element not held", "%s", hi.str().c_str());
		for (auto x : in) if (OOps::pred(x, p)) fail(nm + ": popped element is not the best", "draining: %d/%d, %d/%d held: %s", p->f, p->g, x->f, x->g, hi.str().c_str());
		in.erase(p);
	}
	if (!o.empty()) fail(nm + ": holds elements never put in", "%s", hi.str().c_str());
	if (hi.n >= 5) sig(hi.dig);
	stat("operations", hi.n);
	if (wantsample()) sample("%s %s", name, hi.str().substr(0, 200).c_str());
}
static void kopenheap(Rng &r) { openlist<OpenList<OOps, ON, double> >(r, "open list (heap)"); }
static void kopenint(Rng &r) { openlist<OpenList<OOps, ON, IntOpenCost> >(r, "open list (buckets)"); }

struct PE { IntpqEntry<PE> ent; unsigned prio; int id; };
struct POps { static IntpqEntry<PE> &entry(PE *e) { return e->ent; } };
static void kintpq(Rng &r) {
	int n = r.in(1, 30); unsigned range = r.p(0.3) ? 2 : r.p(0.5) ? 30 : 5000;
	std::vector<PE> es(n);
	for (int i = 0; i < n; i++) es[i].id = i;
	unsigned sz[] = { 1, 2, 16, 1024 };
	Intpq<POps, PE> q(sz[r.in(0, 3)]); std::set<PE*> in; Hist hi;
	int nops = r.in(5, ctx.thorough ? 400 : 150), popb = r.in(1, 4);
	for (int s = 0; s < nops; s++) {
		int op = r.in(0, 7 + popb);
		PE *e = &es[r.in(0, n-1)];
		if (op <= 4) {
			if (in.count(e)) continue;
			e->prio = r.in(0, range); hi.add(fmt("push %d:%u", e->id, e->prio));
			q.push(e, e->prio); in.insert(e);
		} else if (op <= 6) {
			if (!in.count(e)) continue;
			hi.add(fmt("rm %d:%u", e->id, e->prio)); q.rm(e, e->prio); in.erase(e); stat("removals");
			if (r.p(0.5)) { e->prio = r.in(0, range); hi.add(fmt("push %d:%u", e->id, e->prio)); q.push(e, e->prio); in.insert(e); }
		} else if (op == 7) {
			if (!r.p(0.08)) continue;
			hi.add("clear"); q.clear(); in.clear(); stat("clears");
		} else {
			hi.add("pop");
			PE *p = q.pop();
			if (in.empty()) { if (p) fail("intpq: pop of an empty queue", "%s", hi.str().c_str()); continue; }
			if (!p || !in.count(p)) fail("intpq: popped an element not held", "%s", hi.str().c_str());
			for (auto x : in) if (x->prio < p->prio) fail("intpq: popped element is not the best", "%u, %u held: %s", p->prio, x->prio, hi.str().c_str());
			in.erase(p); stat("pops");
		}
		if (q.empty() != in.empty()) fail("intpq: emptiness", "%zu held: %s", in.size(), hi.str().c_str());
		for (auto &x : es) if (q.mem(&x) != (in.count(&x) > 0)) fail("intpq: membership", "%d mem %d: %s", x.id, (int) q.mem(&x), hi.str().c_str());
	}
	while (!in.empty()) {
		PE *p = q.pop();
		if (!p || !in.count(p)) fail("intpq: lost elements", "%zu held: %s", in.size(), hi.str().c_str());
		for (auto x : in) if (x->prio < p->prio) fail("intpq: popped element is not the best", "draining: %u, %u held: %s", p->prio, x->prio, hi.str().c_str());
		in.erase(p);
	}
	if (!q.empty() || q.pop()) fail("intpq: holds elements never put in", "%s", hi.str().c_str());
	if (hi.n >= 5) sig(hi.dig);
	stat("operations", hi.n);
}

// ---- P09
static int hmode;
static unsigned long hfun(int k) {
	switch (hmode) {
	case 0: return k;
	case 1: return 42;
	case 2: return k % 3;
	case 3: return (unsigned long) k * 0x9e3779b97f4a7c15UL;
	case 4: return ~0UL - k;
	case 5: return (unsigned long) k << 40;
	default: return k * 1024UL;
	}
}
struct TE { HtableEntry<TE> ent; int key; int id; };
struct TOps {
	static unsigned long hash(int k) { return hfun(k); }
	static int key(const TE *e) { return e->key; }
	static HtableEntry<TE> &entry(TE *e) { return e->ent; }
};
static long pairnum(const std::string &out, const std::string &key) {
	std::string pre = "\"" + key + "\"\t\"";
	size_t p = out.find(pre);
	if (p == std::string::npos) return -1;
	return atol(out.c_str() + p + pre.size());
}
static void khtable(Rng &r) {
	hmode = r.in(0, 6);
	int n = r.in(1, 80), range = r.p(0.3) ? 4 : 200;
	bool uniq = r.p(0.7);
	std::vector<TE> es(n);
	for (int i = 0; i < n; i++) es[i].id = i, es[i].key = -1;
	unsigned sz[] = { 1, 2, 3, 16, 1024 };
	unsigned s0 = sz[r.in(0, 4)];
	Htable<TOps, int, TE> t(s0); std::set<TE*> in; Hist hi;
	hi.add(fmt("hash mode %d size %u", hmode, s0));
	int nops = r.in(5, ctx.thorough ? 600 : 200);
	auto count = [&](int k) { int c = 0; for (auto x : in) c += x->key == k; return c; };
	for (int s = 0; s < nops; s++) {
		int op = r.in(0, 9);
		if (op <= 4) {
			TE *e = &es[r.in(0, n-1)];
			if (in.count(e)) continue;
			int k = r.in(0, range);
			if (uniq && count(k)) continue;
			e->key = k; hi.add(fmt("add %d:%d", e->id, k));
			if (r.p(0.5)) t.add(e); else t.add(e, hfun(k));
			in.insert(e);
		} else if (op <= 8) {
			int k = r.in(0, range);
			if (r.p(0.6) && !in.empty()) { auto it = in.begin(); std::advance(it, r.in(0, in.size()-1)); k = (*it)->key; }
			int before = count(k);
			TE *f = t.find(k);
			hi.add(fmt("rm %d", k));
			bool ok = r.p(0.5) ? t.rm(k) : t.rm(k, hfun(k));
			if (ok != (before > 0)) fail("htable: rm result", "%d, %d elements had key %d: %s", (int) ok, before, k, hi.str().c_str());
			if (!ok) continue;
			stat("removals");
			if (before == 1) { in.erase(f); continue; }
			// One of several elements of the key is gone; find out which by removing the others.
			std::set<TE*> of; for (auto x : in) if (x->key == k) of.insert(x);
			std::vector<TE*> left;
			while (TE *x = t.find(k)) { if (!of.count(x)) fail("htable: found an element not held", "%s", hi.str().c_str()); if (!t.rm(k)) fail("htable: rm result", "%s", hi.str().c_str()); left.push_back(x); of.erase(x); if ((int) left.size() > before) break; }
			if ((int) left.size() != before - 1) fail("htable: rm of a repeated key", "%zu of %d left: %s", left.size(), before, hi.str().c_str());
			if (of.size() == 1) in.erase(*of.begin());
			for (auto x : left) t.add(x);
		} else {
			if (!r.p(0.05)) continue;
			hi.add("clear"); t.clear(); in.clear();
		}
		if (s % 4 == 0 || s < 20) for (int k = 0; k <= range; k++) {
			TE *f = r.p(0.5) ? t.find(k) : t.find(k, hfun(k));
			int c = count(k);
			if ((f != NULL) != (c > 0)) fail(f ? "htable: found a key not held" : "htable: lost a key", "key %d: %s", k, hi.str().c_str());
			if (f && (!in.count(f) || f->key != k)) fail("htable: found the wrong element", "key %d: %s", k, hi.str().c_str());
		}
		if (s % 16 == 0) {
			capbegin(); t.prstats(stdout, "pre "); std::string o = capend();
			if (pairnum(o, "pre fill") != (long) in.size()) fail("htable: fill", "%ld, %zu held: %s", pairnum(o, "pre fill"), in.size(), hi.str().c_str());
			if (pairnum(o, "pre resizes") > 0) stat("tables seen grown");
		}
	}
	if (hi.n >= 5) sig(hi.dig);
	stat("operations", hi.n);
	if (wantsample()) sample("htable %s", hi.str().substr(0, 200).c_str());
}

struct CD;
struct CN;
struct CPS {
	int key;
	unsigned long hash(CD*) { return hfun(key); }
	bool eq(CD*, const CPS &o) const { return key == o.key; }
};
struct CD { typedef CPS PackedState; };
struct CN { CPS st; ClosedEntry<CN, CD> ent; int id; };
struct COps {
	static CPS &key(CN *n) { return n->st; }
	static ClosedEntry<CN, CD> &closedentry(CN *n) { return n->ent; }
};
static void kclosed(Rng &r) {
	hmode = r.in(0, 6);
	int n = r.in(1, 120), range = r.p(0.3) ? 6 : 200;
	std::vector<CN> ns(n);
	for (int i = 0; i < n; i++) ns[i].id = i, ns[i].st.key = -1;
	unsigned long sz[] = { 1, 2, 3, 7, 64, 1024 };
	unsigned long s0 = sz[r.in(0, 5)];
	ClosedList<COps, CN, CD> c(s0); CD d; c.init(d);
	std::map<int, CN*> in; Hist hi;
	hi.add(fmt("hash mode %d size %lu", hmode, s0));
	int nops = r.in(5, ctx.thorough ? 600 : 200);
	for (int s = 0; s < nops; s++) {
		int op = r.in(0, 9);
		CPS k; k.key = r.in(0, range);
		if (op <= 5) {
			CN *e = NULL; for (int t = 0; t < 5 && !e; t++) { CN *x = &ns[r.in(0, n-1)]; bool held = false; auto it = in.find(x->st.key); held = it != in.end() && it->second == x; if (!held) e = x; }
			if (!e || in.count(k.key)) continue;
			e->st = k; hi.add(fmt("add %d:%d", e->id, k.key));
			if (r.p(0.5)) c.add(e); else c.add(e, hfun(k.key));
			in[k.key] = e;
		} else if (op <= 7) {
			if (r.p(0.6) && !in.empty()) { auto it = in.begin(); std::advance(it, r.in(0, in.size()-1)); k.key = it->first; }
			hi.add(fmt("remove %d", k.key));
			CN *x = r.p(0.5) ? c.remove(k) : c.remove(k, hfun(k.key));
			CN *want = in.count(k.key) ? in[k.key] : NULL;
			if (x != want) fail("closed list: remove result", "%s", hi.str().c_str());
			in.erase(k.key); if (x) stat("removals");
		} else if (op == 8) {
			if (!r.p(0.1)) continue;
			unsigned ns = r.in(1, 300); hi.add(fmt("resize %u", ns)); c.resize(ns); stat("resizes");
		} else {
			if (!r.p(0.05)) continue;
			hi.add("clear"); c.clear(); in.clear();
		}
		if (s % 4 == 0 || s < 20) {
			for (int q = 0; q <= range; q++) {
				CPS kk; kk.key = q;
				CN *f = r.p(0.5) ? c.find(kk) : c.find(kk, hfun(q));
				CN *want = in.count(q) ? in[q] : NULL;
				if (f != want) fail(!want ? "closed list: found a key not held" : f ? "closed list: found the wrong node" : "closed list: lost a node", "key %d: %s", q, hi.str().c_str());
			}
			std::set<CN*> seen;
			size_t steps = 0;
			for (auto it = c.begin(); it != c.end(); ++it) {
				CN *x = *it;
				if (++steps > in.size()) fail("closed list: iteration visits too many nodes", "%zu held: %s", in.size(), hi.str().c_str());
				if (!x || !in.count(x->st.key) || in[x->st.key] != x) fail("closed list: iteration visits a node not held", "%s", hi.str().c_str());
				if (!seen.insert(x).second) fail("closed list: iteration repeats a node", "%s", hi.str().c_str());
			}
			if (seen.size() != in.size()) fail("closed list: iteration misses nodes", "%zu of %zu: %s", seen.size(), in.size(), hi.str().c_str());
			stat("iterations");
		}
		if (c.getFill() != in.size() || c.empty() != in.empty()) fail("closed list: fill", "%lu, %zu held: %s", c.getFill(), in.size(), hi.str().c_str());
		if (s % 16 == 0) {
			capbegin(); c.prstats(stdout, "pre "); std::string o = capend();
			long fl = pairnum(o, "pre fill"), mx = pairnum(o, "pre max bucket fill"), nb = pairnum(o, "pre buckets");
			if (fl != (long) in.size()) fail("closed list: reported fill", "%ld, %zu held: %s", fl, in.size(), hi.str().c_str());
			if (nb < 1 || mx > fl || mx * nb < fl) fail("closed list: reported bucket fill", "max %ld of %ld in %ld buckets: %s", mx, fl, nb, hi.str().c_str());
			if (pairnum(o, "pre resizes") > 0) stat("tables seen grown");
		}
	}
	if (hi.n >= 5) sig(hi.dig);
	stat("operations", hi.n);
}

// ---- P10
template<unsigned K> static void kd(Rng &r) {
	int n = r.p(0.02) ? 0 : r.p(0.5) ? r.in(1, 12) : r.in(1, ctx.thorough ? 600 : 150);
	int mode = r.in(0, 7);
	std::vector<std::vector<double> > pts;
	uint64_t dig = mix(K, mode);
	auto gen = [&](int i) {
		std::vector<double> p(K);
		switch (mode) {
		case 0: for (auto &x : p) x = r.in(0, 3); break;				// many duplicates
		case 1: for (auto &x : p) x = r.real(); break;
		case 2: { double t = r.in(-8, 8); for (auto &x : p) x = t; break; }		// diagonal
		case 3: for (unsigned k = 0; k < K; k++) p[k] = k == 0 ? r.in(0, 20) : 1; break;	// axis line
		case 4: for (auto &x : p) x = i; break;						// sorted
		case 5: for (auto &x : p) x = (r.p(0.5) ? 1 : -1) * std::pow(10.0, r.in(-12, 12)); break;
		case 6: for (auto &x : p) x = r.real(-1, 1) * (r.p(0.1) ? 1000 : 1); break;	// clusters
		default: for (auto &x : p) x = r.in(-100, 100) / 4.0; break;
		}
		return p;
	};
	Kdtree<K, int> t;
	std::map<int, std::vector<double> > all;
	for (int i = 0; i < n; i++) {
		std::vector<double> p = i && r.p(0.1) ? pts[r.in(0, i-1)] : gen(i);
		pts.push_back(p);
		for (double x : p) { uint64_t u; memcpy(&u, &x, 8); dig = mix(dig, u); }
		double b[K]; for (unsigned k = 0; k < K; k++) b[k] = p[k];
		t.insert(b, 1000 + i);
		for (unsigned k = 0; k < K; k++) b[k] = 1e9;	// the tree keeps its own copy
		if (t.size() != (unsigned long) i + 1) fail("kdtree: size", "%lu after %d insertions", t.size(), i + 1);
		if (!(n < 30 || r.p(0.05) || i == n-1)) continue;
		int nq = i == n-1 ? 40 : 2;
		for (int q = 0; q < nq; q++) {
			double c[K]; auto g = r.p(0.3) ? pts[r.in(0, i)] : gen(r.in(0, n));
			for (unsigned k = 0; k < K; k++) c[k] = g[k] + (r.p(0.3) ? r.real(-2, 2) : r.p(0.2) ? 0.5 : 0);
			double best = HUGE_VAL;
			for (auto &x : pts) { double d = 0; for (unsigned k = 0; k < K; k++) d += (x[k] - c[k]) * (x[k] - c[k]); best = std::min(best, d); }
			auto *nd = t.nearest(c);
			std::string id = fmt("K=%u mode %d, %d points", K, mode, i + 1);
			if (!nd) fail("kdtree: no nearest point", "%s", id.c_str());
			int id2 = nd->data - 1000;
			if (id2 < 0 || id2 > i) fail("kdtree: payload", "%d: %s", nd->data, id.c_str());
			double d = 0;
			for (unsigned k = 0; k < K; k++) {
				if (nd->point[k] != pts[id2][k]) fail("kdtree: payload belongs to another point", "%s", id.c_str());
				d += (nd->point[k] - c[k]) * (nd->point[k] - c[k]);
			}
			if (d > best * (1 + 1e-12)) fail("kdtree: not the nearest point", "squared distance %.17g, nearest %.17g: %s", d, best, id.c_str());
			stat("queries");
		}
	}
	if (n == 0) { double c[K] = {}; if (t.nearest(c) || t.size() || t.begin() != t.end()) fail("kdtree: empty tree", "."); return; }
	std::vector<char> seen(n, 0); int cnt = 0;
	for (auto it = t.begin(); it != t.end(); ++it) {
		int id = (*it)->data - 1000;
		if (++cnt > n || id < 0 || id >= n || seen[id]) fail("kdtree: iteration", "visit %d of %d points, payload %d", cnt, n, id);
		seen[id] = 1;
		for (unsigned k = 0; k < K; k++) if ((*it)->point[k] != pts[id][k]) fail("kdtree: iteration", "wrong point");
	}
	if (cnt != n) fail("kdtree: iteration misses points", "%d of %d", cnt, n);
	unsigned dp = t.depth();
	if (dp > (unsigned) n || (dp < 20 && (1UL << dp) - 1 < (unsigned long) n)) fail("kdtree: depth", "%u for %d points", dp, n);
	if (n >= 3) sig(dig);
	if (wantsample()) sample("kdtree K=%u mode %d %d points depth %u", K, mode, n, dp);
}
static void kkd(Rng &r) { int k = r.in(1, 4); if (k == 1) kd<1>(r); else if (k == 2) kd<2>(r); else if (k == 3) kd<3>(r); else kd<5>(r); }

// ---- P11
static long ctors, dtors; static void *lastd;
template<int SZ, int AL> struct alignas(AL) PO {
	unsigned char b[SZ];
	PO() { ctors++; memset(b, 0xA5, SZ); }
	~PO() { dtors++; lastd = this; }
};
template<class O> static void pool(Rng &r, const char *nm) {
	unsigned sz[] = { 1, 2, 3, 7, 64, 1024 };
	unsigned bs = sz[r.in(0, 5)];
	ctors = dtors = 0;
	long told = 0, made = 0;
	Hist hi; hi.add(fmt("%s block %u", nm, bs));
	{
		Pool<O> p(bs);
		struct L { O *o; unsigned char tag; bool raw; };
		std::vector<L> live; std::map<char*, size_t> iv;
		int nops = r.in(5, ctx.thorough ? 1000 : 250);
		unsigned char tag = 0;
		double pa = r.p(0.5) ? 0.6 : 0.75;
		for (int s = 0; s < nops; s++) {
			if (live.empty() || r.p(pa)) {
				bool raw = r.p(0.15);
				hi.add(raw ? "get" : "construct");
				O *o = raw ? p.get() : p.construct();
				if (!raw) { made++; for (size_t k = 0; k < sizeof o->b; k++) if (o->b[k] != 0xA5) fail("pool: object not constructed", "%s", hi.str().c_str()); }
				if (ctors != made) fail("pool: constructor runs", "%ld for %ld objects: %s", ctors, made, hi.str().c_str());
				if ((uintptr_t) o % alignof(O)) fail("pool: misaligned object", "%p: %s", (void*) o, hi.str().c_str());
				char *c = (char*) o;
				auto it = iv.lower_bound(c);
				if (it != iv.end() && it->first < c + sizeof(O)) fail("pool: live objects overlap", "%s", hi.str().c_str());
				if (it != iv.begin()) { --it; if (it->first + sizeof(O) > c) fail("pool: live objects overlap", "%s", hi.str().c_str()); }
				iv[c] = 1;
				memset((void*) o, ++tag, sizeof(O));
				live.push_back(L{o, tag, raw});
			} else {
				size_t i = r.in(0, live.size()-1);
				L l = live[i]; live[i] = live.back(); live.pop_back();
				for (size_t k = 0; k < sizeof(O); k++) if (((unsigned char*) l.o)[k] != l.tag) fail("pool: a live object was overwritten", "%s", hi.str().c_str());
				iv.erase((char*) l.o);
				if (l.raw) { hi.add("put"); p.put(l.o); }
				else { hi.add("destruct"); lastd = NULL; p.destruct(l.o); told++; if (lastd != l.o) fail("pool: destructor not run", "%s", hi.str().c_str()); }
				stat("objects returned");
				if (dtors != told) fail("pool: destructor runs", "%ld, told %ld: %s", dtors, told, hi.str().c_str());
			}
			if (p.blocks() * bs < live.size()) fail("pool: blocks", "%lu blocks of %u hold %zu objects: %s", p.blocks(), bs, live.size(), hi.str().c_str());
		}
		for (auto &l : live) for (size_t k = 0; k < sizeof(O); k++) if (((unsigned char*) l.o)[k] != l.tag) fail("pool: a live object was overwritten", "at the end: %s", hi.str().c_str());
	}
	if (dtors != told || ctors != made) fail("pool: teardown", "%ld destructor runs, told %ld: %s", dtors, told, hi.str().c_str());
	sig(hi.dig); stat("operations", hi.n);
	if (wantsample()) sample("pool %s", hi.str().substr(0, 160).c_str());
}
static void kpool(Rng &r) {
	switch (r.in(0, 6)) {
	case 0: pool<PO<1, 1> >(r, "size 1"); break;
	case 1: pool<PO<3, 1> >(r, "size 3"); break;
	case 2: pool<PO<8, 8> >(r, "size 8"); break;
	case 3: pool<PO<9, 1> >(r, "size 9"); break;
	case 4: pool<PO<16, 16> >(r, "size 16 align 16"); break;
	case 5: pool<PO<48, 16> >(r, "size 48 align 16"); break;
	default: pool<PO<300, 4> >(r, "size 300"); break;
	}
}
static void kdjset(Rng &r) {
	int n = r.in(1, ctx.thorough ? 200 : 60);
	std::vector<Djset> s(n); std::vector<int> m(n); Hist hi;
	for (int i = 0; i < n; i++) { m[i] = i; if (s[i].aux) fail("djset: aux", "not NULL"); s[i].aux = &m[i]; }
	int nops = r.in(1, 3 * n); long joins = 0;
	bool chain = r.p(0.3);
	for (int k = 0; k < nops; k++) {
		if (r.p(0.01)) { hi.add("clear"); for (int i = 0; i < n; i++) { s[i].clear(); m[i] = i; } }
		int a = chain ? k % n : r.in(0, n-1), b = chain && r.p(0.7) ? (k + 1) % n : r.in(0, n-1);
		if (r.p(0.75)) { hi.add(fmt("join %d %d", a, b)); s[a].join(s[b]); int x = m[a], y = m[b]; joins += x != y; for (auto &v : m) if (v == y) v = x; }
		else { hi.add(fmt("find %d", a)); s[a].find(); }
		int trials = k == nops - 1 ? n * n : 6;
		for (int q = 0; q < trials; q++) {
			int u = k == nops-1 ? q / n : r.in(0, n-1), v = k == nops-1 ? q % n : r.in(0, n-1);
			Djset *fu = s[u].find(), *fv = s[v].find();
			if ((fu == fv) != (m[u] == m[v])) fail("djset: wrong answer", "%d and %d %s: %s", u, v, fu == fv ? "joined" : "separate", hi.str().c_str());
			if (fu < &s[0] || fu > &s[n-1] || m[fu - &s[0]] != m[u] || fu->find() != fu) fail("djset: representative outside its set", "%d: %s", u, hi.str().c_str());
			stat("queries");
		}
	}
	for (int i = 0; i < n; i++) if (s[i].aux != &m[i]) fail("djset: aux", "changed");
	if (joins >= 2) sig(hi.dig);
	stat("operations", hi.n);
}

// ---- P12
typedef __int128 I;
struct SC { unsigned i, j; long a, b; };
struct SM {	// reference network
	unsigned n = 0;
	std::vector<SC> cs;
	bool solve(std::vector<long> *lo, std::vector<long> *hi) const {
		// T_i in [neginf, inf], T_0 = 0, a <= T_j - T_i <= b
		std::vector<I> l(n, (I) Stn::neginf()), h(n, (I) Stn::inf());
		l[0] = h[0] = 0;
		for (unsigned it = 0; ; it++) {
			bool ch = false;
			auto up = [&](unsigned v, I x) { if (x > l[v]) { l[v] = x; ch = true; } };
			auto dn = [&](unsigned v, I x) { if (x < h[v]) { h[v] = x; ch = true; } };
			for (auto &c : cs) {
				if (c.a > Stn::neginf()) { up(c.j, l[c.i] + c.a); dn(c.i, h[c.j] - c.a); }
				if (c.b < Stn::inf()) { up(c.i, l[c.j] - c.b); dn(c.j, h[c.i] + c.b); }
			}
			for (unsigned v = 0; v < n; v++) if (l[v] > h[v]) return false;
			if (!ch) break;
			if (it > n + 2) return false;	// positive cycle
		}
		if (lo) { lo->clear(); hi->clear(); for (unsigned v = 0; v < n; v++) { lo->push_back((long) l[v]); hi->push_back((long) h[v]); } }
		return true;
	}
	std::string str() const { std::string s = fmt("%u nodes:", n); for (auto &c : cs) s += fmt(" (%u,%u,%ld,%ld)", c.i, c.j, c.a, c.b); return s; }
};
static void checkstn(const Stn &s, const SM &m, const std::string &hist, const char *when) {
	std::vector<long> lo, hi;
	if (s.nnodes() != m.n) fail("stn: number of nodes", "%u, expected %u: %s", s.nnodes(), m.n, hist.c_str());
	if (!m.solve(&lo, &hi)) fail("oracle", "inconsistent model");
	for (unsigned v = 0; v < m.n; v++) if (s.lower(v) != lo[v] || s.upper(v) != hi[v])
		fail(std::string("stn: bounds") + when, "node %u [%ld,%ld], exact [%ld,%ld]: %s: %s", v, s.lower(v), s.upper(v), lo[v], hi[v], m.str().c_str(), hist.c_str());
}
static void kstn(Rng &r) {
	unsigned n0 = r.in(1, 5);
	Stn s(n0); SM m; m.n = n0 + 1;
	Hist hi; hi.add(fmt("new %u", n0));
	long big = r.p(0.15) ? (1L << 58) : r.p(0.5) ? 6 : 40;
	int nops = r.in(3, ctx.thorough ? 60 : 30);
	long rejected = 0, accepted = 0;
	struct Snap { Stn s; SM m; };
	std::vector<Snap> snaps;
	std::vector<Stn> before;	// the network before each accepted addition
	for (int k = 0; k < nops; k++) {
		int op = r.in(0, 19);
		if (op <= 12) {
			SC c; c.i = r.in(0, m.n-1); c.j = r.in(0, m.n-1);
			if (c.i == c.j && r.p(0.9)) continue;
			long x = r.in(-big, big), y = x + r.in(0, big);
			if (r.p(0.05)) y = x - r.in(1, 3);	// nothing fits
			c.a = r.p(0.25) ? Stn::neginf() : x; c.b = r.p(0.25) ? Stn::inf() : y;
			if (c.a == Stn::neginf() && c.b == Stn::inf()) continue;
			SM m2 = m; m2.cs.push_back(c);
			bool want = m2.solve(NULL, NULL);
			Stn old(s);
			hi.add(fmt("add (%u,%u,%ld,%ld)", c.i, c.j, c.a, c.b));
			bool got;
			int how = r.in(0, 3);
			if (how == 0 && c.i == 0) got = c.b == Stn::inf() ? s.add(Stn::NoEarlier(c.j, c.a)) : c.a == Stn::neginf() ? s.add(Stn::NoLater(c.j, c.b)) : s.add(Stn::InWindow(c.j, c.a, c.b));
			else if (how == 1 && c.b == Stn::inf()) got = s.add(Stn::Before(c.i, c.j, c.a));
			else got = s.add(Stn::Constraint(c.i, c.j, c.a, c.b));
			if (got != want) fail(got ? "stn: accepted an inconsistent constraint" : "stn: rejected a consistent constraint", "(%u,%u,%ld,%ld) on %s: %s", c.i, c.j, c.a, c.b, m.str().c_str(), hi.str().c_str());
			if (got) { m = m2; before.push_back(old); accepted++; }
			else {
				rejected++;
				if (!s.eq(old) || !old.eq(s)) fail("stn: a rejected constraint changed the network", "%s", hi.str().c_str());
			}
			checkstn(s, m, hi.str(), got ? " after an addition" : " after a rejection");
		} else if (op <= 15) {
			if (m.cs.empty()) continue;
			hi.add("undo"); s.undo(); m.cs.pop_back();
			checkstn(s, m, hi.str(), " after an undo");
			if (before.back().nnodes() == s.nnodes() && (!s.eq(before.back()) || !before.back().eq(s))) fail("stn: undo does not restore the network", "%s", hi.str().c_str());
			before.pop_back(); stat("undos");
		} else if (op == 16) {
			if (m.n > 8) continue;
			unsigned g = r.in(1, 3); hi.add(fmt("grow %u", g)); s.grow(g); m.n += g; checkstn(s, m, hi.str(), " after growth"); stat("growths");
		} else if (op == 17) {
			hi.add("copy");
			if (r.p(0.5)) { Stn c(s); if (!c.eq(s) || !s.eq(c)) fail("stn: a copy differs", "%s", hi.str().c_str()); snaps.push_back(Snap{s, m}); s = c; }
			else snaps.push_back(Snap{Stn(s), m});
		} else if (op == 18) {
			if (snaps.empty()) continue;
			// An earlier copy is independent of what happened since.
			size_t i = r.in(0, snaps.size()-1); hi.add(fmt("return to copy %zu", i));
			checkstn(snaps[i].s, snaps[i].m, hi.str(), " of a copy");
			s = snaps[i].s; m = snaps[i].m; 
			// the undo history of the copy
			before.clear();
			{ Stn t(s); std::vector<Stn> b; for (size_t q = 0; q < m.cs.size(); q++) { t.undo(); b.push_back(t); } before.assign(b.rbegin(), b.rend()); }
			checkstn(s, m, hi.str(), " of a copy");
		} else {
			// networks with different constraints are not equal
			if (m.cs.empty()) continue;
			Stn t(m.n - 1); SM mt; mt.n = m.n;
			bool same = true; size_t alter = r.in(0, m.cs.size()-1);
			for (size_t q = 0; q < m.cs.size(); q++) {
				SC c = m.cs[q];
				if (q == alter) { if (c.b < Stn::inf()) c.b++; else c.a--; same = false; }
				SM m3 = mt; m3.cs.push_back(c);
				if (!m3.solve(NULL, NULL)) { same = true; break; }
				t.add(Stn::Constraint(c.i, c.j, c.a, c.b)); mt = m3;
			}
			if (!same && (t.eq(s) || s.eq(t))) fail("stn: different networks compare equal", "%s / %s", m.str().c_str(), mt.str().c_str());
			if (!same) stat("unequal networks");
		}
	}
	while (!m.cs.empty()) { s.undo(); m.cs.pop_back(); checkstn(s, m, hi.str(), " after undoing all"); }
	if (accepted >= 2) sig(hi.dig);
	stat("accepted", accepted); stat("rejected", rejected);
	if (wantsample()) sample("%s", hi.str().substr(0, 300).c_str());
}

std::vector<Kind> vh::kinds() {
	const std::string &p = ctx.prop;
	std::vector<Kind> k;
	if (p == "P08") { k.push_back(Kind{"binheap", kbinheap, 1}); k.push_back(Kind{"openheap", kopenheap, 1}); k.push_back(Kind{"openint", kopenint, 1}); k.push_back(Kind{"intpq", kintpq, 1}); }
	if (p == "P09") { k.push_back(Kind{"htable", khtable, 1}); k.push_back(Kind{"closed", kclosed, 1}); }
	if (p == "P10") k.push_back(Kind{"kdtree", kkd, 1});
	if (p == "P11") { k.push_back(Kind{"pool", kpool, 2}); k.push_back(Kind{"djset", kdjset, 1}); }
	if (p == "P12") k.push_back(Kind{"stn", kstn, 1});
	return k;
}
