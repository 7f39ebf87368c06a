From a5cacd62455f7c98dd8579100d92becf01bc46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 001/120] Guarded hook: cap the initial closed list size under
 SEARCH_VERIF

---
 search/closedlist.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..f66aa10 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -10,6 +10,12 @@ void dfpair(FILE *, const char *key, const char *fmt, ...);	// utils.hpp
 
 enum { FillFact = 0 };
 
+#ifdef SEARCH_VERIF
+// The verification harness caps the initial table size, so that
+// growth and collisions are observable on small problems.
+extern unsigned long search_verif_closed_max;
+#endif
+
 template<typename Node, typename D> struct ClosedEntry {
 	ClosedEntry() : nxt(NULL) { }
 	Node *nxt;
@@ -27,6 +33,10 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 
 	ClosedList(unsigned long szhint) :
 			fill(0), ncollide(0), nresize(0), nbins(0), fills(NULL), bins(NULL) {
+#ifdef SEARCH_VERIF
+		if (szhint > search_verif_closed_max)
+			szhint = search_verif_closed_max;
+#endif
 		resize(szhint);
 		nresize = 0;	// don't count the initial resize
 	}
-- 
2.43.0


From 75ba4b1380d9c622c752e1766fe53fca5cef6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 002/120] fix: bugsy: initialise the flags that select LMS
 distances and interpolation

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..fbb26e6 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From 7f3497c5475f48b100b215a6d0db23371b9ef0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 003/120] fix: beam: a missing -width is an error, not an
 uninitialised width

---
 search/beam.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..06bf366 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -63,6 +63,7 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 	BeamSearch(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv), closed(30000001) {
 		dropdups = false;
+		width = 0;
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-width") == 0)
 				width = atoi(argv[++i]);
-- 
2.43.0


From 73dbc5e0a6bffcdc17514ae8f409f6e86b6a106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 004/120] fix: open list: nodes dropped by clear are no longer
 members

---
 search/search.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/search/search.hpp b/search/search.hpp
index 48bc6be..0e4a323 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -130,6 +130,8 @@ public:
 	}
 
 	void clear() {
+		for (auto n : heap.data())
+			Ops::setind(n, -1);
 		heap.clear();
 	}
 
@@ -253,6 +255,12 @@ public:
 	}
 
 	void clear() {
+		for (auto &q : qs) {
+			for (auto &bkt : q.bkts) {
+				for (auto n : bkt)
+					Ops::setind(n, -1);
+			}
+		}
 		qs.clear();
 		min = 0;
 		fill = 0;
-- 
2.43.0


From adccafcab69b476dde1813182653cadbc6f98ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 005/120] fix: idastar: stop when the whole space was searched
 without a solution

---
 search/idastar.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..1b634e3 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,10 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			// Nothing lies beyond the bound: there is no solution.
+			if (minoob == Cost(-1))
+				break;
+
 			bound = minoob;
 		}
 
-- 
2.43.0


From a1710c9f3e1b7b5ff5b77715b4ded4ca496ddbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 006/120] fix: dtastar-dump: error message without a missing
 argument

---
 search/dtastar-dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 8547b5a..77a01fe 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -187,7 +187,7 @@ public:
 			}
 		}
 		if (samplep <= 0 || samplep > 1)
-			fatal("%g, Must specify sample probability in (0, 1] with -samplep");
+			fatal("Must specify sample probability in (0, 1] with -samplep");
 		if (horizon == 0)
 			fatal("Must specify sample lookahead horizon with -horizon");
 	}
-- 
2.43.0


From 29e55cbc4fc945a5b89d3febe55bafff6d90b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 007/120] fix: limits: a time limit that was reached does not
 stop the next search

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..9eea519 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -96,6 +96,7 @@ void Limit::timelimit(const char *tstr) {
 }
 
 void Limit::start() {
+	timeup = 0;
 	if (walltime == 0 && cputime == 0)
 		return;
 	if (!timed)
-- 
2.43.0


From 6f29dfc93a4bc69188fb844fb8a8dd038ee233a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 008/120] fix: rtastar: reset clears the previous result

---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 7733e21..d8187ea 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -88,6 +88,7 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 	}
 
 	virtual void reset() {
+		SearchAlgorithm<D>::reset();
 		seen.clear();
 		delete nodes;
 		nodes = new Pool<Node>();
-- 
2.43.0


From 8f53418988158ef0818e42428143b47320f5a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 009/120] fix: arastar: an interrupted search proves neither
 its weight nor optimality

---
 search/arastar.hpp | 48 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..4dff963 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -123,16 +123,15 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 
 		unsigned long n = 0;
 		do {
-			if (improve(d)) {
+			bool improved = improve(d);
+			bool complete = !goodnodes();
+			if (improved) {
 				n++;
-				double epsprime = wt == 1.0 ? 1.0 : findbound();
-				if (wt < epsprime)
-					epsprime = wt;
-				row(n, epsprime);
+				row(n, bound(complete));
 			}
 
 			if (wt <= 1.0) {
-				optimal = true;
+				optimal = complete;
 				break;
 			}
 			nextwt();
@@ -209,6 +208,18 @@ protected:
 		return !open.empty() && (cost == Cost(-1) || cost > (*open.front())->fprime);
 	}
 
+	// bound returns the suboptimality bound of the incumbent.
+	// The weight is a bound only if the search with this weight
+	// was complete, and wasn't stopped early.
+	double bound(bool complete) {
+		if (complete && wt == 1.0)
+			return 1.0;
+		double epsprime = findbound();
+		if (complete && wt < epsprime)
+			epsprime = wt;
+		return epsprime;
+	}
+
 	// findbound finds and returns the tightest bound for
 	// the current incumbent.
 	double findbound() {
@@ -241,6 +252,9 @@ protected:
 			if (f < min)
 				min = f;
 		}
+		// Nothing left can improve on the incumbent.
+		if (std::isinf(min))
+			return 1.0;
 		return cost / min;
 	}
 
@@ -388,15 +402,14 @@ template <class D> struct ArastarMon : public Arastar<D> {
 
 		unsigned long n = 0;
 		do {
-			if (improve(d)) {
+			bool improved = improve(d);
+			bool complete = !this->goodnodes();
+			if (improved) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
-					epsprime = this->wt;
-				this->row(n, epsprime);
+				this->row(n, this->bound(complete));
 			}
 			if (this->wt <= 1.0)
-				optimal = true;
+				optimal = complete;
 			if (this->wt <= 1.0 || shouldstop())
 				break;
 			this->nextwt();
@@ -503,16 +516,15 @@ template <class D> struct ArastarNORA : public Arastar<D> {
 
 		unsigned long n = 0;
 		do {
-			if (improve(d)) {
+			bool improved = improve(d);
+			bool complete = !this->goodnodes();
+			if (improved) {
 				n++;
-				double epsprime = this->wt == 1.0 ? 1.0 : this->findbound();
-				if (this->wt < epsprime)
-					epsprime = this->wt;
-				this->row(n, epsprime);
+				this->row(n, this->bound(complete));
 			}
 
 			if (this->wt <= 1.0) {
-				optimal = true;
+				optimal = complete;
 				break;
 			}
 			if (shouldstop())
-- 
2.43.0


From ca306ff4cb6fac5926eefba086a05bcfd1827017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 010/120] fix: arastar: the inconsistent list has its own hash
 chains

---
 search/arastar.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 4dff963..47a29f4 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -22,7 +22,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 	typedef typename D::Oper Oper;
 
 	struct Node {
-		ClosedEntry<Node, D> closedent;
+		ClosedEntry<Node, D> closedent, inconsent;
 		int openind;
 		Node *parent;
 		PackedState state;
@@ -56,6 +56,18 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		}
 	};
 	
+	// InconsOps link the nodes of the inconsistent list separately,
+	// since all of them are also on the closed list.
+	struct InconsOps {
+		static ClosedEntry<Node, D> &closedentry(Node *n) {
+			return n->inconsent;
+		}
+
+		static PackedState &key(Node *n) {
+			return n->state;
+		}
+	};
+
 	struct Incons {
 		Incons(unsigned long szhint) : mem(szhint) {
 		}
@@ -81,7 +93,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		}
 	
 	private:
-	 	ClosedList<Node, Node, D> mem;
+	 	ClosedList<InconsOps, Node, D> mem;
 		std::vector<Node*> incons;
 	};
 
-- 
2.43.0


From 0ea0b09eb21d416aaa1c5a0e6795ac981b1f225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 011/120] fix: real-time search: stop when the local search
 space has no frontier

---
 search/dtastar-dump.hpp | 2 ++
 search/fhatlrtastar.hpp | 2 ++
 search/lsslrtastar.hpp  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 77a01fe..72ee7c8 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -217,6 +217,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// Everything reachable was expanded.
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..27ec9ed 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -206,6 +206,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// Everything reachable was expanded.
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..244704d 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -230,6 +230,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// Everything reachable was expanded.
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
-- 
2.43.0


From 5861cf86601ef82bfcfc39076f3e16c84fb20b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 012/120] fix: real-time search: initialise the domain of the
 node tables

---
 search/dtastar-dump.hpp | 6 ++++++
 search/fhatlrtastar.hpp | 6 ++++++
 search/lsslrtastar.hpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 72ee7c8..fb4790a 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -84,6 +84,10 @@ private:
 			tbl.clear();
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		Node *get(D &d, State &s) {
 			Node *n = pool.construct();
 			d.pack(n->state, s);
@@ -206,6 +210,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 27ec9ed..588fdd2 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -84,6 +84,10 @@ private:
 			tbl.clear();
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		Node *get(D &d, State &s) {
 			Node *n = pool.construct();
 			d.pack(n->state, s);
@@ -197,6 +201,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 244704d..c213507 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -96,6 +96,10 @@ private:
 			tbl.clear();
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		Node *get(D &d, State &s) {
 			Node *n = pool.construct();
 			d.pack(n->state, s);
@@ -221,6 +225,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
-- 
2.43.0


From b00af3dd514fde0a256ebd78d43545d71f7c08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 013/120] fix: fhatlrtastar: initialise the parent that decides
 whether a node is a duplicate

---
 search/fhatlrtastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 588fdd2..2076170 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -114,7 +114,7 @@ private:
 	class LssNode {
 	public:
 
-		LssNode() : openind(-1), updated(false), closed(false) {
+		LssNode() : parent(NULL), openind(-1), updated(false), closed(false) {
 		}
 	
 		class Nodes {
-- 
2.43.0


From f938a6fc0628afbdfe4173422a075982aa60756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 014/120] fix: real-time search: reset forgets the steps of the
 previous search

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 2076170..33d5528 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -195,6 +195,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 		herror = 0;
 		derror = 0;
 	}
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index c213507..24157c2 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -221,6 +221,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
-- 
2.43.0


From 33c91e2b2e3ba63d38ca9e317c6d2ca4dc1b448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 015/120] fix: closed list: removing a node updates the fill of
 its bucket

---
 search/closedlist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index f66aa10..8398091 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -122,6 +122,7 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if(!p) return NULL;
 
 		this->fill--;
+		this->fills[bindex]--;
 		if(prev == p) { //head of the list
 			this->bins[bindex] = Ops::closedentry(p).nxt;
 		}
-- 
2.43.0


From 76a71253ee2d6abb79a3f4dad8396f865a4056b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 016/120] fix: dtastar: initialise the mean number of
 meta-level problems

---
 search/dtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 88dadab..56a3228 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -396,6 +396,7 @@ public:
 
 	Dtastar(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv),
+		avgmeta(0),
 		secpergen(0),
 		graph(*this, 30000001),
 		wf(0),
-- 
2.43.0


From 93927dad6c1713e76520ea1e26134ca0d388b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 017/120] fix: rrt: read the seed from the argument of -s

---
 search/rrt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 526d870..70cf8a2 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -30,9 +30,9 @@ public:
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-s") == 0) {
 				char *end = NULL;
-				seed = strtoull(argv[i++], &end, 10);
-				if (end == NULL)
-					fatal("Invalid seed: %s", argv[i-1]);
+				seed = strtoull(argv[++i], &end, 10);
+				if (end == argv[i])
+					fatal("Invalid seed: %s", argv[i]);
 			}
 		}
 		rng = Rand(seed);
-- 
2.43.0


From 0bb2b794ad165f2f87e237a7698aa5127ab44e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 018/120] fix: rrt: obey the search limits

---
 search/rrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/rrt.hpp b/search/rrt.hpp
index 70cf8a2..808a7cc 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -53,7 +53,7 @@ public:
 			root->point[i] = pt[i];
 		tree.insert(pt, root);
 
-		for ( ; ; ) {
+		while (!this->limit()) {
 			sample(pt);
 			auto near = tree.nearest(pt);
 			Node *node = near->data;
-- 
2.43.0


From 91654cf9f9e721c8d26fbac653265866fbb16d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 019/120] fix: rtastar: the second best of tied successors is
 their value, not infinity

---
 search/rtastar.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index d8187ea..4c9865b 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -123,14 +123,16 @@ private:
 			Cost h = heuristic(d, e.state, e.revop);
 			Cost f = h == Cost(-1) ? h : h + e.cost;
 
-			if (bests.empty() || better(f, bests[0].f)) {
+			if (bests.empty() || (f != bests[0].f && better(f, bests[0].f))) {
 				if (!bests.empty())
 					sndf = bests[0].f;
 				bests.clear();
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
 			} else if (bests[0].f == f) {
+				// With a tie, the second best is as good as the best.
 				assert (!bests.empty());
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
+				sndf = f;
 			} else if (better(f, sndf)) {
 				sndf = f;
 			}
-- 
2.43.0


From 82c6ef9fa807d69f770992ae385de0e79c82e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 020/120] fix: rtastar: learning updates the current state, not
 the start state too

---
 search/rtastar.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 4c9865b..4187357 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -54,15 +54,15 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 		this->start();
 		seen.init(d);
 		Current cur(s0, D::Nop, D::Nop, typename D::Cost(0), d.h(s0));
-		Cost *curh = storenode(d, cur.state, cur.f);
 
 		while (!d.isgoal(cur.state) && !this->limit()) {
-			std::vector<Current> bests = bestkids(d, cur, *curh);
+			Cost sndf;
+			std::vector<Current> bests = bestkids(d, cur, sndf);
 			if (bests.size() == 0) {
 				this->res.ops.clear();
 				break;	// deadend;
 			}
-			storenode(d, cur.state, *curh);
+			storenode(d, cur.state, sndf);
 			cur = bests.at(randgen.integer(0, bests.size()-1));
 			this->res.ops.push_back(cur.op);
 		}
@@ -187,10 +187,8 @@ private:
 	}
 
 	// storenode marks the node as seen if it is not already
-	// in the seen list and returns a pointer to the stored
-	// heuristic value.  This pointer can be used to update
-	// the value of this node without looking it up again.
-	Cost *storenode(D &d, State &cur, Cost h) {
+	// in the seen list and stores its heuristic value.
+	void storenode(D &d, State &cur, Cost h) {
 		Node *n = nodes->construct();
 		d.pack(n->packed, cur);
 		unsigned long hash = n->packed.hash(&d);
@@ -199,12 +197,11 @@ private:
 		if (dup) {
 			nodes->destruct(n);
 			dup->h = h;
-			return &dup->h;
+			return;
 		}
 
 		n->h = h;
 		seen.add(n, hash);
-		return &n->h;
 	}
 
 	// better returns true if a is better than b.
-- 
2.43.0


From 005590ea497c72476978c4ebcb6f2ad26e84f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 021/120] fix: real-time search: taking single steps with a
 goal in sight can not cycle

---
 search/dtastar-dump.hpp | 9 +++++++--
 search/fhatlrtastar.hpp | 8 +++++++-
 search/lsslrtastar.hpp  | 8 +++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index fb4790a..322e44c 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -225,8 +225,11 @@ public:
 				break;
 			if (!goal && lssOpen.empty())
 				break;	// Everything reachable was expanded.
-			if (!goal)
-				hCostLearning(d);
+			// After a single step, the goal may be out of sight again.
+			// So, learn, and go there only if it is best.
+			if (goal != *lssOpen.front())
+				goal = NULL;
+			hCostLearning(d);
 			auto m = move(cur, goal);
 
 			if (randgen.real() < samplep)
@@ -320,6 +323,8 @@ private:
 
 			if (s->node->goal) {
 				lssOpen.push(s);
+				s->closed = false;
+				nclosed--;
 				goal = s;
 				break;
 			}
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 33d5528..ced2398 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -217,7 +217,11 @@ public:
 				break;
 			if (!goal && lssOpen.empty())
 				break;	// Everything reachable was expanded.
-			if (!goal)
+			// With a single step, the goal may be out of sight again
+			// after it.  So, learn, and go there only if it is best.
+			if (onestep && goal != *lssOpen.front())
+				goal = NULL;
+			if (!goal || onestep)
 				hCostLearning(d);
 			auto m = move(cur, goal);
 			cur = m.first;
@@ -378,6 +382,8 @@ private:
 
 			if (s->node->goal) {
 				lssOpen.push(s);
+				s->closed = false;
+				nclosed--;
 				goal = s;
 				break;
 			}
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 24157c2..dcd8b99 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -241,7 +241,11 @@ public:
 				break;
 			if (!goal && lssOpen.empty())
 				break;	// Everything reachable was expanded.
-			if (!goal)
+			// With a single step, the goal may be out of sight again
+			// after it.  So, learn, and go there only if it is best.
+			if (onestep && goal != *lssOpen.front())
+				goal = NULL;
+			if (!goal || onestep)
 				hCostLearning(d);
 			auto m = move(cur, goal);
 			cur = m.first;
@@ -376,6 +380,8 @@ private:
 
 			if (s->node->goal) {
 				lssOpen.push(s);
+				s->closed = false;
+				nclosed--;
 				goal = s;
 				break;
 			}
-- 
2.43.0


From 830938ea7cb1d41f69e0bd7d1a564920714430da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 022/120] fix: htable: removing an element that is not first in
 its chain removes it

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From cbb3e3f394388062eeda07cc1062a7a6d927ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 023/120] fix: intpq: elements dropped by clear are no longer
 members

---
 structs/intpq.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structs/intpq.hpp b/structs/intpq.hpp
index e4daba5..55759bd 100644
--- a/structs/intpq.hpp
+++ b/structs/intpq.hpp
@@ -87,8 +87,14 @@ public:
 	void clear() {
 		fill = 0;
 		nresize = end = 0;
-		for (unsigned int i = 0; i < nbins; i++)
+		for (unsigned int i = 0; i < nbins; i++) {
+			Elm *nxt = NULL;
+			for (Elm *e = bins[i]; e; e = nxt) {
+				nxt = Ops::entry(e).nxt;
+				Ops::entry(e).prev = NULL;
+			}
 			bins[i] = NULL;
+		}
 	}
 
 private:
-- 
2.43.0


From 0ec3769fc001e00df2ae39758d78c991723a273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 024/120] fix: stn: assignment does not share nodes with the
 network assigned from

---
 structs/stn.cc  | 9 +++++++++
 structs/stn.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/structs/stn.cc b/structs/stn.cc
index fb304a8..1c47eb4 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -51,6 +51,15 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 	}
 }
 
+Stn &Stn::operator=(const Stn &o) {
+	if (this != &o) {
+		Stn copy(o);
+		nodes.swap(copy.nodes);
+		undos.swap(copy.undos);
+	}
+	return *this;
+}
+
 void Stn::grow(unsigned int num) {
 	unsigned int oldsz = nodes.size();
 	nodes.resize(oldsz + num);
diff --git a/structs/stn.hpp b/structs/stn.hpp
index 02cf282..853e8d1 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -12,6 +12,8 @@ public:
 
 	Stn(const Stn &);
 
+	Stn &operator=(const Stn &);
+
 	void grow(unsigned int);
 
 	void undo();
-- 
2.43.0


From ae0cdfbb5b90e08724c46c4f8c21bb285cc38d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 025/120] fix: stn: growing the network keeps its arcs and undo
 log

---
 structs/stn.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index 1c47eb4..81da294 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -61,10 +61,28 @@ Stn &Stn::operator=(const Stn &o) {
 }
 
 void Stn::grow(unsigned int num) {
-	unsigned int oldsz = nodes.size();
-	nodes.resize(oldsz + num);
+	// The nodes move, so everything that points to them has to follow.
+	std::vector<Node> old;
+	old.swap(nodes);
+	nodes.resize(old.size() + num);
+
+	for (unsigned int i = 0; i < old.size(); i++) {
+		nodes[i] = old[i];
+		for (Arc &a : nodes[i].out)
+			a.first = &nodes[a.first->id];
+		for (Arc &a : nodes[i].in)
+			a.first = &nodes[a.first->id];
+	}
+	for (Undo &u : undos) {
+		for (Node *&n : u.popout)
+			n = &nodes[n->id];
+		for (std::pair<Node*, Time> &p : u.prevto)
+			p.first = &nodes[p.first->id];
+		for (std::pair<Node*, Time> &p : u.prevfrom)
+			p.first = &nodes[p.first->id];
+	}
 
-	for (unsigned int i = oldsz; i < nodes.size(); i++)
+	for (unsigned int i = old.size(); i < nodes.size(); i++)
 		nodes[i].id = i;
 }
 
-- 
2.43.0


From 1354708225453ccc750957e4d204cbad0b14546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 026/120] fix: stn: networks are equal only if all of their
 arcs are

---
 structs/stn.cc | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index 81da294..b103255 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -153,32 +153,32 @@ bool Stn::eq(const Stn &o) const {
 	return true;
 }
 
-bool Stn::Node::eq(const Stn::Node &o) const {
-	if (id != o.id || tozero != o.tozero || fromzero != o.fromzero
-		|| out.size() != o.out.size() || in.size() != o.in.size())
+// samearcs returns true if both hold the same arcs, in any order.
+template<class Arcs> static bool samearcs(const Arcs &as, const Arcs &bs) {
+	if (as.size() != bs.size())
 		return false;
 
-	bool found = out.size() == 0;
-	for (unsigned int i = 0; i < out.size() && !found; i++) {
-	for (unsigned int j = 0; j < out.size() && !found; j++) {
-		if (out[i].first->id == o.out[j].first->id
-			 && out[i].second == o.out[j].second)
-			found = true;
-	}
+	std::vector<bool> used(bs.size(), false);
+	for (unsigned int i = 0; i < as.size(); i++) {
+		bool found = false;
+		for (unsigned int j = 0; j < bs.size() && !found; j++) {
+			if (used[j] || as[i].first->id != bs[j].first->id
+					|| as[i].second != bs[j].second)
+				continue;
+			found = used[j] = true;
+		}
+		if (!found)
+			return false;
 	}
-	if (!found)
-		return false;
+	return true;
+}
 
-	found = in.size() == 0;
-	for (unsigned int i = 0; i < in.size() && !found; i++) {
-	for (unsigned int j = 0; j < in.size() && !found; j++) {
-		if (in[i].first->id == o.in[j].first->id
-			 && in[i].second == o.in[j].second)
-			found = true;
-	}
-	}
+bool Stn::Node::eq(const Stn::Node &o) const {
+	if (id != o.id || tozero != o.tozero || fromzero != o.fromzero
+		|| out.size() != o.out.size() || in.size() != o.in.size())
+		return false;
 
-	return found;	
+	return samearcs(out, o.out) && samearcs(in, o.in);
 }
 
 bool Stn::Undo::eq(const Undo &o) const {
-- 
2.43.0


From 6b3f22ecff1f3a49af1d3acd12e2b57b1e28be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 027/120] fix: rank: free the tree as the array it is

---
 utils/rank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rank.cc b/utils/rank.cc
index abbf738..f360b56 100644
--- a/utils/rank.cc
+++ b/utils/rank.cc
@@ -21,7 +21,7 @@ Ranker::Ranker(unsigned int sz, unsigned int n) :
 }
 
 Ranker::~Ranker() {
-	delete tree;
+	delete[] tree;
 }
 
 unsigned long Ranker::rank(const unsigned int p[])
-- 
2.43.0


From 99617078b2883c0f211ea56cc8007d35fd43163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 028/120] fix: fallfact: x to the zero falling is one

---
 utils/math.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.cc b/utils/math.cc
index b2e1fab..953248c 100644
--- a/utils/math.cc
+++ b/utils/math.cc
@@ -46,8 +46,8 @@ unsigned long ipow(unsigned int b, unsigned int e) {
 }
 
 unsigned long fallfact(unsigned int x, unsigned int n) {
-	unsigned long f = x;
-	for (unsigned int i = 1; i < n; i++)
+	unsigned long f = 1;
+	for (unsigned int i = 0; i < n; i++)
 		f *= (x - i);
 	return f;
 }
-- 
2.43.0


From 431c7bd0421ca343f089799bc0bdc049cba72200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 029/120] fix: rand: no overflow on wide ranges, no seed that
 is stuck at zero

---
 utils/rand.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/rand.cc b/utils/rand.cc
index 278fcb4..b8268f1 100644
--- a/utils/rand.cc
+++ b/utils/rand.cc
@@ -15,6 +15,8 @@ static const double Fl = 5.42101086242752217e-20;
 
 Rand::Rand(uint64_t seed) : theseed(seed) {
 	v = Vini ^ seed;
+	if (v == 0)	// The generator never leaves zero.
+		v = Vini;
 	v = bits();
 }
 
@@ -30,7 +32,11 @@ int64_t Rand::integer(long min, long max) {
 	if (min == max)
 		return min;
 	
-	return bits() % ((max+1) - min) + min;
+	// Unsigned, as the size of the range may not fit a long.
+	uint64_t n = (uint64_t) max - (uint64_t) min + 1;
+	if (n == 0)	// All of the 64-bit integers.
+		return bits();
+	return bits() % n + (uint64_t) min;
 }
 
 double Rand::real() {
-- 
2.43.0


From 8fc2ab9c34bea38a7b0f2955a75dd5d5b5b1d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 030/120] fix: safeops: detect overflow exactly, and without
 overflowing

---
 utils/safeops.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index be90533..e1d4f05 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -37,26 +37,23 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(a > 0 && b < 0 && n::max() + b < a)
+			if(a >= 0 && b < 0 && n::max() + b < a)
 				throw BadFlow<N>(a, b, "-", true);
 			if(a < 0 && b > 0 && n::min() + b > a)
-				throw BadFlow<N>(a, b, "-", true);
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
 		static N mul(N a, N b){
 			if(a > 0 && b > 0 && n::max()/b < a)
 				throw BadFlow<N>(a, b, "*", true);
-			if(a < 0 && b > 0 && n::min()/a < b)
+			// Divide by the positive factor, as min/-1 overflows.
+			if(a < 0 && b > 0 && n::min()/b > a)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a > 0 && b < 0 && n::min()/b < a)
+			if(a > 0 && b < 0 && n::min()/a > b)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a < 0 && b < 0){
-				if(a == n::min() || b == n::min())
-					throw BadFlow<N>(a, b, "*", true);
-				if(-(n::min()/b) > a)
-					throw BadFlow<N>(a, b, "*", true);
-			}
+			if(a < 0 && b < 0 && n::max()/b > a)
+				throw BadFlow<N>(a, b, "*", true);
 			return a * b;
 		}
 	
@@ -79,8 +76,8 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(n::max() - b < a)
-				throw BadFlow<N>(a, b, "-", true);
+			if(b > a)
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
-- 
2.43.0


From 8ee5d76294e840d63c4c8019c649ffa6e3f80db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 031/120] fix: encode: malformed encodings are an error, not a
 read out of bounds

---
 utils/encode.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/encode.cc b/utils/encode.cc
index 0c01a3a..0e66508 100644
--- a/utils/encode.cc
+++ b/utils/encode.cc
@@ -64,7 +64,8 @@ std::string runlendec(const std::string &data) {
 
 		if (n < 0) {	// A run
 			int len = -n + 1;
-			assert (len <= Maxrun);
+			if (len > Maxrun || i >= data.size())
+				fatal("runlendec: malformed run");
 			for (int j = 0; j < len; j++)
 				dst.push_back(data[i]);
 			i++;
@@ -75,6 +76,8 @@ std::string runlendec(const std::string &data) {
 		assert (n + 1 >= 0);
 		assert (n + 1 <= Maxrun);
 		unsigned int end = i + n + 1;
+		if (end > data.size())
+			fatal("runlendec: truncated data");
 		for (; i < end; i++)
 			dst.push_back(data[i]);
 	}
@@ -174,12 +177,24 @@ std::string base64dec(const std::string &data) {
 	assert (sizeof(base64tab) / sizeof(base64tab[0]) == 64);
 
 	// Decoding table.  Initialized onec on call to base64dec.
-	static char tab[255];
+	static signed char tab[256];
 	if (tab[(int)'B'] != 1) {
+		for (unsigned int i = 0; i < 256; i++)
+			tab[i] = -1;
 		for (unsigned int i = 0; i < 64; i++)
 			tab[(int) base64tab[i]] = i;
 	}
 
+	if (data.size() % 4 != 0)
+		fatal("base64dec: the length is not a multiple of 4");
+	for (unsigned int i = 0; i < data.size(); i++) {
+		// Only the last one or two characters can be padding.
+		bool pad = data[i] == '=' &&
+			(i+1 == data.size() || (i+2 == data.size() && data[i+1] == '='));
+		if (!pad && tab[(unsigned char) data[i]] < 0)
+			fatal("base64dec: unexpected character at %u", i);
+	}
+
 	std::string dec;
 
 	for (unsigned int i = 0; i < data.size(); i += 4) {
-- 
2.43.0


From 8b8f5c715b6931f48af204cdaa5c66ab45d77204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 032/120] fix: fs: no read before the start of empty strings

---
 utils/fs.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 740c796..339a626 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -32,16 +32,14 @@ boost::optional<std::string> readline(FILE *in, FILE *echo) {
 		fputc('\n', echo);
 	}
 
-	if (line[line.size()-1] == '\n')
-		line.resize(line.size()-1);
-	if (line[line.size()-1] == '\r')
+	if (line.size() > 0 && line[line.size()-1] == '\r')
 		line.resize(line.size()-1);
 
 	return boost::optional<std::string>(line);
 }
 
 std::vector<std::string> readdir(std::string path, bool concat) {
-	if (path[path.length() - 1] != sepchar)
+	if (path.empty() || path[path.length() - 1] != sepchar)
 		path.push_back(sepchar);
 	DIR *dir =opendir(path.c_str());
 	if (!dir)
@@ -161,7 +159,7 @@ std::string dirname(const std::string &p) {
 }
 
 std::string pathcat(const std::string &dir, const std::string &base) {
-	if (dir[dir.length()-1] == sepchar)
+	if (!dir.empty() && dir[dir.length()-1] == sepchar)
 		return dir + base;
 	std::string s(dir);
 	s.push_back(sepchar);
@@ -176,7 +174,7 @@ std::string pathcatn(unsigned int n, ...) {
 	va_start(ap, n);
 	for (unsigned int i = 0; i < n; i++) {
 		const char *ent = va_arg(ap, const char *);
-		if (path[path.length()-1] != sepchar)
+		if (path.empty() || path[path.length()-1] != sepchar)
 			path.push_back(sepchar);
 		path += ent;
 	}
-- 
2.43.0


From bdce6ae505fcdb8abeac588bf3fa78cf911bb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 033/120] fix: rmrecur: remove symbolic links, not what they
 point to

---
 utils/fs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 339a626..f444374 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -98,7 +98,10 @@ void ensuredir(const std::string &p) {
 }
 
 bool rmrecur(const std::string &path) {
-	if (!isdir(path)) {
+	// Don't follow a link: what it points to is not part of the tree.
+	struct stat sb;
+	bool link = lstat(path.c_str(), &sb) == 0 && S_ISLNK(sb.st_mode);
+	if (link || !isdir(path)) {
 		if (remove(path.c_str()) != 0 && errno != ENOENT) {
 			warnx(errno, "failed to remove %s", path.c_str());
 			return false;
-- 
2.43.0


From c32ba91216c5994a1ff19ee650a210588fd5755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 034/120] fix: datafile: a line that is exactly one byte too
 long is not truncated

---
 utils/datafile.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..f270e41 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,15 +21,15 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
-		fatal("dfrowhdr: buffer is too small\n");
+	if (n >= Bufsz)
+		fatal("dfpair: buffer is too small\n");
 
 	va_list ap;
 	va_start(ap, fmt);
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -48,13 +48,14 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 	vsnprintf(buf+n, sz-n, fmt, ap);
 
 	fprintf(f, "%s\"\n", buf);
+	fflush(f);
 	delete[] buf;
 }
 
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +63,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz - n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +75,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +103,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From ab8c206937a71fc8645ce22132a3fc73855cebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 035/120] fix: commas: no comma between the sign and the first
 digit

---
 utils/testing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/testing.cc b/utils/testing.cc
index fe123e3..a1cd547 100644
--- a/utils/testing.cc
+++ b/utils/testing.cc
@@ -156,7 +156,7 @@ std::string commas(const char *fmt, ...) {
 	for (char *p = mid-1; p >= str; p--, cur--) {
 		*cur = *p;
 		tillcomma--;
-		if (tillcomma == 0 && p > str) {
+		if (tillcomma == 0 && p > str && p[-1] != '-') {
 			cur--;
 			*cur = ',';
 			tillcomma = 3;
-- 
2.43.0


From 7af6f8fa096eaef0c91057589fb0027dcfd458c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 036/120] fix: LineSg: a segment intersects a collinear segment
 that contains it

---
 utils/geom2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 4be0f81..3d9ca70 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -307,6 +307,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;	// It contains all of this one.
 				return Pt::inf();
 			}
 			if (doubleeq(m, o.m)) {
@@ -316,6 +318,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;	// It contains all of this one.
 				return Pt::inf();
 			}
 
-- 
2.43.0


From 9e4e5d4045d6a6da9a6d0f4906ab16bf26d3ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 037/120] fix: Arc: find intersections on both sides of the
 positive x axis

---
 utils/geom2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 3d9ca70..05f8afa 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -435,10 +435,13 @@ namespace geom2d {
 					tmax = t0;
 				}
 
-				if(tmax > 2*M_PI )
-					t += 2*M_PI;
+				// The first angle of the intersection that is not
+				// before the arc's, and the one of the turn before,
+				// since it may just miss the arc's by a rounding error.
+				t += 2*M_PI * ceil((tmin - t) / (2*M_PI));
 
-				if (l.within(is[i]) && between(tmin, tmax, t))
+				if (l.within(is[i]) && (between(tmin, tmax, t)
+						|| between(tmin, tmax, t - 2*M_PI)))
 					i++;
 			}
 
-- 
2.43.0


From 2077b476d1ad44011ab28599abe320948cf3db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 038/120] fix: Poly: polygons without three points that are not
 on a line are an error

---
 utils/geom2d.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 5534029..676a858 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -205,6 +205,8 @@ namespace geom2d {
 			else
 				i++;
 		}
+		if (verts.size() < 3)
+			fatal("A polygon needs at least 3 points that are not on a line");
 	}
 	
 	void Poly::initsides() {
-- 
2.43.0


From ef355c776883d341359311513ac459ca64ce6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 039/120] fix: Poly: write all digits of the vertices, so that
 they read back the same

---
 utils/geom2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 676a858..99c40aa 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -134,7 +134,7 @@ namespace geom2d {
 	void Poly::output(FILE *out) const {
 		fprintf(out, "%lu", (unsigned long) verts.size());
 		for (unsigned int i = 0; i < verts.size(); i++)
-			fprintf(out, " %g %g", verts[i].x, verts[i].y);
+			fprintf(out, " %.17g %.17g", verts[i].x, verts[i].y);
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
-- 
2.43.0


From 07e6e0321641d7c6c99f3793257d40c822e8ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 040/120] fix: image: the header of an EPS file has a single
 percent sign

---
 graphics/image.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphics/image.cc b/graphics/image.cc
index 2cf4fab..b4f8fef 100644
--- a/graphics/image.cc
+++ b/graphics/image.cc
@@ -90,12 +90,12 @@ void Image::write_epshdrletter(FILE *out, unsigned int marginpt) const {
 }
 
 void Image::write_epshdr(FILE *out, unsigned int marginpt) const {
-	fputs("%%!PS-Adobe-3.0\n", out);
-	fputs("%%%%Creator: UNH-AI C++ Search Framework\n", out);
+	fputs("%!PS-Adobe-3.0\n", out);
+	fputs("%%Creator: UNH-AI C++ Search Framework\n", out);
 	fprintf(out, "%%%%Title: %s\n", title.c_str());
 	fprintf(out, "%%%%BoundingBox: 0 0 %u %u\n",
 		width + 2 * marginpt, height + 2 * marginpt);
-	fputs("%%%%EndComments\n", out);
+	fputs("%%EndComments\n", out);
 	fprintf(out, "%u %u translate\n", marginpt, marginpt);
 }
 
-- 
2.43.0


From 2a45b02288f1e397d2ef557a408e279c039166e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 041/120] fix: pancake: unpack copies the state, since
 transitions change it in place

---
 pancake/pancake.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pancake/pancake.hpp b/pancake/pancake.hpp
index c3db048..e0733d4 100644
--- a/pancake/pancake.hpp
+++ b/pancake/pancake.hpp
@@ -113,8 +113,8 @@ public:
 		dst = s;
 	}
 
-	State &unpack(const State &dst, PackedState &pkd) const {
-		return pkd;
+	State &unpack(State &buf, PackedState &pkd) const {
+		return buf = pkd;
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 7beabb5c7e0b1ac12504ab93bdc8f33ad6b84711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 042/120] fix: gridnav, traffic: unpack does not keep the
 estimates of what the buffer held before

---
 gridnav/gridnav.hpp | 3 +--
 traffic/traffic.hpp | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..76b556d 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -239,8 +239,7 @@ struct GridNav {
 	}
 
 	State &unpack(State &buf, PackedState &pkd) const {
-		buf.loc = pkd.loc;
-		return buf;
+		return buf = State(pkd.loc);
 	}
 
 	void dumpstate(FILE *out, State &s) const {
diff --git a/traffic/traffic.hpp b/traffic/traffic.hpp
index 35a0c57..70e00b8 100644
--- a/traffic/traffic.hpp
+++ b/traffic/traffic.hpp
@@ -244,9 +244,7 @@ struct Traffic {
 	}
 
 	State &unpack(State &buf, PackedState &pkd) const {
-		buf.loc = pkd.loc;
-		buf.t = pkd.t;
-		return buf;
+		return buf = State(pkd.loc, pkd.t);
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 90f3fdbd0454b43072a6a6ff1ec02f67f878edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 043/120] fix: gridnav: the life-cost heuristic does not use
 the row below the last one, which gave -1 at goals

---
 gridnav/gridnav.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 76b556d..97b92f0 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -306,16 +306,16 @@ private:
 		auto c0 = map->coord(l0), c1 = map->coord(l1);
 		int x = c0.first - 1, gx = c1.first - 1;
 		int y = c0.second - 1, gy = c1.second - 1;
-		int h = map->h - 2;
+		int maxy = map->h - 2 - 1;
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, maxy) + costfrom(maxy, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
 
-		return std::make_pair(Cost(upoverdown), dx + h-1-y + h-1-gy);
+		return std::make_pair(Cost(upoverdown), dx + maxy-y + maxy-gy);
 	}
 
 	// life8cheap returns an admissible heuristic cost
-- 
2.43.0


From a68d15679ffd06a144e575cb9f3310d61e9a93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 044/120] fix: gridnav: in life-cost grids, the reverse of a
 move costs by the row that it leaves

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 97b92f0..85f2180 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From 824ba9c851f0f029a69e808d429ce2f560e6b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 045/120] fix: gridnav: initialise maps that are read from a
 file, octile ones have no cost type

---
 gridnav/gridmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..568feff 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,8 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) :
+		map(NULL), file(""), lifecost(false), nmvs(0), flags(NULL) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From 960399dcb5fbfa56b5d4e4bcf40c707f8978c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 046/120] fix: gridnav: unknown terrain characters are an error
 instead of indexing past an uninitialised table

---
 gridnav/gridmap.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index 017f618..8d8108f 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -213,8 +213,9 @@ void GridMap::load_sturtevant(FILE *in) {
 	}
 
 	const struct Terrain{
-		char flags[CHAR_MAX];
+		char flags[UCHAR_MAX + 1];
 		Terrain() {
+			memset(flags, 0, sizeof(flags));
 			flags[(int) '.'] = Passable;
 			flags[(int) 'G'] = Passable;
 			flags[(int) '@'] = OutOfBounds;
@@ -226,8 +227,12 @@ void GridMap::load_sturtevant(FILE *in) {
 	} terrain;
 
 	for (unsigned int y = 1; y < h-1; y++) {
-		for (unsigned int x = 1; x < w-1; x++)
+		for (unsigned int x = 1; x < w-1; x++) {
 			flags[y*w + x] = terrain.flags[(int) map[y*w + x]];
+			if (!flags[y*w + x])
+				readfail("x=%u, y=%u: Unexpected character [%c] in the map",
+					x, y, map[y*w + x]);
+		}
 	}
 
 	setoctile();
-- 
2.43.0


From d2a557ab41dc0b78fa9b45651fae667fec092253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 047/120] fix: gridnav: a map that is too big is an error
 message whichever way it is made

---
 gridnav/gridmap.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index 8d8108f..c736646 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -13,11 +13,7 @@
 
 GridMap::GridMap(unsigned int width, unsigned int height) :
 	map(NULL), file(""), lifecost(false), nmvs(0), flags(NULL) {
-	try {
-		setsize(width, height);
-	} catch (const safe::BadFlow<unsigned int>&) {
-		fatal("Grid is too big");
-	}
+	setsize(width, height);
 	setfourway();
 }
 
@@ -239,9 +235,13 @@ void GridMap::load_sturtevant(FILE *in) {
 }
 
 void GridMap::setsize(unsigned int width, unsigned int height) {
-	w = safe::add(width, (unsigned int) 2);
-	h = safe::add(height, (unsigned int) 2);
-	sz = safe::mul(w, h);
+	try {
+		w = safe::add(width, (unsigned int) 2);
+		h = safe::add(height, (unsigned int) 2);
+		sz = safe::mul(w, h);
+	} catch (const safe::BadFlow<unsigned int>&) {
+		fatal("Grid is too big");
+	}
 	map = new unsigned char[sz];
 	flags = new unsigned char[sz];
 
-- 
2.43.0


From be6ad454db166bd9ee01f3c7d2cd245a106acb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 048/120] fix: gridnav: start and goal locations must be on the
 map

---
 gridnav/main_gridnav.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridnav/main_gridnav.cc b/gridnav/main_gridnav.cc
index 1325cd4..b135d37 100644
--- a/gridnav/main_gridnav.cc
+++ b/gridnav/main_gridnav.cc
@@ -39,6 +39,10 @@ int main(int argc, const char *argv[]) {
 	dfpair(stdout, "goal x", "%u", xg);
 	dfpair(stdout, "goal y", "%u", yg);
 
+	if (x0 >= map.w-2 || y0 >= map.h-2)
+		fatal("The start location is outside of the map");
+	if (xg >= map.w-2 || yg >= map.h-2)
+		fatal("The goal location is outside of the map");
 	if (map.blkd(map.index(x0+1, y0+1)))
 		fatal("The start location is blocked");
 	if (map.blkd(map.index(xg+1, yg+1)))
-- 
2.43.0


From bde9ae1cfaab2f79efed2810e525d8823d667c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 049/120] fix: scenario: read the stream that is given, report
 entries without a path, reject malformed ones

---
 gridnav/scenario.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..faa3dc3 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -37,7 +37,9 @@ void Scenario::run(std::istream &in) {
 
 	SearchAlgorithm<GridNav> *srch = getsearch<GridNav>(argc, argv);
 	ScenarioEntry ent(*this);
-	while (in >> ent) {
+	while (in >> std::ws && !in.eof()) {
+		if (!(in >> ent))
+			fatal("Malformed entry %u", nentries);
 		nentries++;
 		if (entry >= 0 && nentries - 1 != entry)
 			continue;
@@ -54,8 +56,7 @@ void Scenario::run(std::istream &in) {
 void Scenario::checkver(std::istream &in) {
 	float ver;
 	std::string verstr;
-	std::cin >> verstr >> ver;
-	if (verstr != "version")
+	if (!(in >> verstr >> ver) || verstr != "version")
 		fatal("Expected a version header");
 	if (ver != 1.0)
 		fatal("Version %g is unsupported.  Latest supported version is 1.0", ver);
@@ -82,12 +83,17 @@ GridMap *Scenario::getmap(std::string mapfile) {
 ScenarioEntry::ScenarioEntry(Scenario &s) : scen(s) { }
 
 Result<GridNav> ScenarioEntry::run(unsigned int n, SearchAlgorithm<GridNav> *srch) {
-	GridNav d(scen.getmap(mapfile), x0, y0, x1, y1);
+	GridMap *map = scen.getmap(mapfile);
+	if (x0 >= map->w-2 || y0 >= map->h-2 || x1 >= map->w-2 || y1 >= map->h-2)
+		fatal("Entry %u: a location is outside of the map", n);
+	GridNav d(map, x0, y0, x1, y1);
 	GridNav::State s0 = d.initialstate();
 
 	srch->search(d, s0);
 	Result<GridNav> &res = srch->res;
-	GridNav::Cost cost = d.pathcost(res.path, res.ops);
+	GridNav::Cost cost(-1);
+	if (res.path.size() > 0)
+		cost = d.pathcost(res.path, res.ops);
 	// Scenario file has 0-cost for no-path.  We use -1.
 	if (fabs(cost - (double) opt) > Eps && !(opt == 0 && cost == GridNav::Cost(-1)))
 		fatal("Expected optimal cost of %g, got %g\n", opt, (double) cost);
-- 
2.43.0


From e59ed1dce6062fde68cc9ac61b2922edaa123d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 050/120] fix: scenario2rdb: values are not format strings, and
 a truncated entry is an error

---
 gridnav/scenario2rdb.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 7c38787..dce3355 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -22,8 +22,10 @@ int main(int argc, char *argv[]) {
 		std::string bucket, mapfile, width, height, x0, y0, x1, y1, cost;
 		in >> bucket >> mapfile >> width >> height >> x0 >> y0 >> x1 >> y1 >> cost;
 
-		if (mapfile == "")
+		if (bucket == "")
 			continue;
+		if (cost == "")
+			fatal("Malformed entry %u", n);
 
 		RdbAttrs attrs;
 		attrs.push_back("scenario file", basename(argv[2]));
@@ -45,14 +47,14 @@ int main(int argc, char *argv[]) {
 		if (!f)
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "#start data file format 4\n");
-		dfpair(f, "scenario file", argv[2]);
-		dfpair(f, "num", num);
-		dfpair(f, "map", mapfile.c_str());
-		dfpair(f, "optimal cost", cost.c_str());
-		dfpair(f, "start x", x0.c_str());
-		dfpair(f, "start y", y0.c_str());
-		dfpair(f, "goal x", x1.c_str());
-		dfpair(f, "goal y", y1.c_str());
+		dfpair(f, "scenario file", "%s", argv[2]);
+		dfpair(f, "num", "%s", num);
+		dfpair(f, "map", "%s", mapfile.c_str());
+		dfpair(f, "optimal cost", "%s", cost.c_str());
+		dfpair(f, "start x", "%s", x0.c_str());
+		dfpair(f, "start y", "%s", y0.c_str());
+		dfpair(f, "goal x", "%s", x1.c_str());
+		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
 		fclose(f);
 	}
-- 
2.43.0


From 9225be5f80ba80eca24fa52dc2cc418aa61e9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 051/120] fix: 2poly: index the bitmap by its column height,
 maps that are not square wrote out of bounds

---
 gridnav/2poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index 3db47d4..c8a3c0a 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -10,7 +10,7 @@ int main(int argc, char *argv[]) {
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
 	for (unsigned int i = 0; i < map.w; i++) {
-		unsigned int base = i * map.w;
+		unsigned int base = i * map.h;
 
 		for (unsigned int j = 0; j < map.h; j++)
 			blkd[base + j] = map.blkd(map.index(i, j));
-- 
2.43.0


From 71ff1650215c26d03b4691d02fa31ca343c0c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 052/120] fix: vacuum: the heuristic of a state without dirt
 does not read past the dirt locations

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..9728e6a 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return 0;
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From acc62b4b64b774ff52ea5daff8c8f1aba0c30ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 053/120] fix: traffic: obstacles in grids of a single column
 or row do not divide by zero

---
 traffic/gridmap.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/traffic/gridmap.hpp b/traffic/gridmap.hpp
index bbb0eaa..ef2f133 100644
--- a/traffic/gridmap.hpp
+++ b/traffic/gridmap.hpp
@@ -135,11 +135,18 @@ struct GridMap {
 			 int x_p = abs(x + dx * t);
 			 int y_p = abs(y + dy * t);
 
-			 int x_reflections = x_p / (w-1);
-			 int y_reflections = y_p/ (h-1);
+			 // There is nowhere to move on an axis with a single cell.
+			 if(w == 1) x_p = 0;
+			 if(h == 1) y_p = 0;
 
-			 int x_offset = x_p % (w-1);
-			 int y_offset = y_p % (h-1);
+			 int x_period = w > 1 ? w-1 : 1;
+			 int y_period = h > 1 ? h-1 : 1;
+
+			 int x_reflections = x_p / x_period;
+			 int y_reflections = y_p / y_period;
+
+			 int x_offset = x_p % x_period;
+			 int y_offset = y_p % y_period;
 
 			if(x_reflections % 2 == 0) newPoint.first = x_offset;
 			else newPoint.first = w - x_offset - 1;
-- 
2.43.0


From 2b2c4df4018cb7bcaa779b0213dc83ce83473052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 054/120] fix: traffic: reject locations outside of the map,
 empty maps and truncated obstacles

---
 traffic/gridmap.cc  | 10 ++++++++--
 traffic/traffic.hpp |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/traffic/gridmap.cc b/traffic/gridmap.cc
index b6cef77..64cdc69 100644
--- a/traffic/gridmap.cc
+++ b/traffic/gridmap.cc
@@ -14,13 +14,19 @@
 void GridMap::load(FILE *in) {
 	if (fscanf(in, "%u %u\n", &w, &h) != 2)
 		fatal("Failed to read map header");
+	if (w == 0 || h == 0 || w > INT_MAX / h)
+		fatal("Bad map size: %u by %u", w, h);
 
 	sz = w * h;
 
-	int x, y, dx, dy;
-	while(fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy) == 4) {
+	int x, y, dx, dy, n;
+	while((n = fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy)) == 4) {
+		if (x < 0 || y < 0 || x >= (int) w || y >= (int) h)
+			fatal("Obstacle %lu is outside of the map", (unsigned long) obstacles.size());
 		obstacles.emplace_back(x,y,dx,dy);
 	}
+	if (n != EOF)
+		fatal("Failed to read obstacle %lu", (unsigned long) obstacles.size());
 	setfourway();
 }
 
diff --git a/traffic/traffic.hpp b/traffic/traffic.hpp
index 70e00b8..ab2358e 100644
--- a/traffic/traffic.hpp
+++ b/traffic/traffic.hpp
@@ -96,12 +96,16 @@ struct Traffic {
 		unsigned int, unsigned int);
 
 	Traffic(FILE *in) {
-		int sx, sy, gx, gy;
+		unsigned int sx, sy, gx, gy;
 
 		if(fscanf(in, "%u %u %u %u\n", &sx, &sy, &gx, &gy) != 4)
 			fatal("improper file format");
 		
 		map = new GridMap(in);
+		if (sx >= map->w || sy >= map->h)
+			fatal("The start location is outside of the map");
+		if (gx >= map->w || gy >= map->h)
+			fatal("The goal location is outside of the map");
 
 		start = map->index(sx,sy);
 		finish = map->index(gx,gy);
-- 
2.43.0


From 8d0471ec2ef2044abab9364b22709987e6ea97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 055/120] fix: drobot: sort the initial piles, the search for a
 pile by its bottom box relies on it

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..2d72912 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// Piles are kept sorted by their bottom box.
+	for (unsigned int i = 0; i < nlocs; i++)
+		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From 3c05409ee75fce29fb2b45ead86cc23887d9d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 056/120] fix: drobot: reject instances with missing or
 repeated locations, piles and boxes instead of indexing out of bounds

---
 drobot/drobot.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 2d72912..0fe4f2e 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -78,7 +78,8 @@ DockRobot::DockRobot(FILE *in) {
 	maxcranes.resize(nlocs, 0);
 	maxpiles.resize(nlocs, 0);
 	goal.resize(nboxes, -1);
-	std::vector<unsigned int> pilelocs(npiles);
+	std::vector<unsigned int> pilelocs(npiles, nlocs);
+	std::vector<bool> havepile(npiles, false), havebox(nboxes, false);
 
 	long loc = -1;
 	boost::optional<std::string> line = readline(in);
@@ -87,13 +88,18 @@ DockRobot::DockRobot(FILE *in) {
 		if (toks.size() == 0)
 			goto reloop;
 
+		if (loc < 0 && (toks[0] == "adjacent:" || toks[0] == "cranes:" || toks[0] == "piles:"))
+			fatal("Expected a location before %s", toks[0].c_str());
+
 		if (toks[0] == "location") {
+			if (toks.size() != 2)
+				fatal("Malformed location");
 			loc = strtol(toks[1].c_str(), NULL, 10);
 			if (loc < 0 || loc >= nlocs)
 				fatal("Invalid location %d", loc);
 
 		} else if (toks[0] == "adjacent:") {
-			if (toks.size() != nlocs + 1)
+			if (toks.size() != nlocs + 1 || !adj[loc].empty())
 				fatal("Malformed adjacency list for location %ld", loc);
 
 			for (unsigned int i = 1; i < toks.size(); i++)
@@ -107,6 +113,8 @@ DockRobot::DockRobot(FILE *in) {
 				long p = strtol(toks[i].c_str(), NULL, 10);
 				if (p < 0 || p >= npiles)
 					fatal("Malformed pile list, pile %ld is out of bounds", p);
+				if (pilelocs[p] != nlocs)
+					fatal("Malformed pile list, pile %ld has two locations", p);
 				pilelocs[p] = loc;
 				maxpiles[loc]++;
 			}
@@ -118,6 +126,11 @@ DockRobot::DockRobot(FILE *in) {
 			long pnum = strtol(toks[1].c_str(), NULL, 10);
 			if (pnum < 0 || pnum >= npiles)
 				fatal("Malformed pile descriptor, pile %ld is out of bounds", pnum);
+			if (pilelocs[pnum] == nlocs)
+				fatal("Malformed pile descriptor, pile %ld has no location", pnum);
+			if (havepile[pnum])
+				fatal("Malformed pile descriptor, pile %ld is described twice", pnum);
+			havepile[pnum] = true;
 
 			line = readline(in);
 			if (!line)
@@ -128,6 +141,9 @@ DockRobot::DockRobot(FILE *in) {
 				long box = strtol(toks[i].c_str(), NULL, 10);
 				if (box < 0 || box >= nboxes)
 					fatal("Malformed pile, box %ld is out of bounds", box);
+				if (havebox[box])
+					fatal("Malformed pile, box %ld is in two places", box);
+				havebox[box] = true;
 				p.stack.push_back(box);
 			}
 			if (p.stack.size() > 0)
@@ -151,6 +167,17 @@ reloop:
 		line = readline(in);
 	}
 
+	if (nlocs == 0)
+		fatal("There are no locations");
+	for (unsigned int i = 0; i < nlocs; i++) {
+		if (adj[i].empty())
+			fatal("Location %u has no adjacency list", i);
+	}
+	for (unsigned int i = 0; i < nboxes; i++) {
+		if (!havebox[i])
+			fatal("Box %u is not in any pile", i);
+	}
+
 	// Piles are kept sorted by their bottom box.
 	for (unsigned int i = 0; i < nlocs; i++)
 		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
-- 
2.43.0


From 82f3bb085643437605ae3afad3f7d9aab797c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 057/120] fix: tiles: reject boards of another size and
 positions that are not a permutation of the cells

---
 tiles/tiles.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 7a93d6c..85991e6 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -33,27 +33,35 @@ void Tiles::readruml(FILE *in) {
 	if (!safe::can_mul(w, h))
 		fatal("The tiles board is too big");
 
-	if (w != Width && h != HEIGHT)
+	if (w != Width || h != Height)
 		fatal("Width and height instance/compiler option mismatch");
 
 	if (fscanf(in, " starting positions for each tile:") != 0)
 		fatal("Failed to read the starting position label");
 
+	bool used[Ntiles] = {};
 	for (Tile t = 0; t < Ntiles; t++) {
 		unsigned int p;
 		int r = fscanf(in, " %u", &p);
 		if (r != 1)
 			fatal("Failed to read the starting position for tile %d", t);
+		if (p >= Ntiles || used[p])
+			fatal("Invalid starting position %u for tile %d", p, t);
+		used[p] = true;
 		init[p] = t;
 	}
 
 	if (fscanf(in, " goal positions:") != 0)
 		fatal("Failed to read the goal position label");
 
+	bool goalused[Ntiles] = {};
 	for (Tile t = 0; t < Ntiles; t++) {
 		unsigned int p;
 		if (fscanf(in, " %u", &p) != 1)
 			fatal("Failed to read the goal position");
+		if (p >= Ntiles || goalused[p])
+			fatal("Invalid goal position %u for tile %d", p, t);
+		goalused[p] = true;
 		goalpos[t] = p;
 	}
 }
-- 
2.43.0


From fd038524f558edf95e321bccb409d79f2fd3819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 058/120] fix: tiles generator: find the row of the blank by
 the width, boards that are not square were unsolvable

---
 tiles/generator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..b8f78fb 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -36,7 +36,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// Add parity bits through puzzle
 	for (unsigned int i=0; i<ts.size(); i++) {
 		if (ts[i] == 0)
-			blankrow = i / (height) + 1;
+			blankrow = i / width;
 
 		for (unsigned int j=0; j<i; j++) {
 			if (ts[j] > ts[i] && ts[i] != 0)
@@ -44,10 +44,14 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 		}
 	}
 
+	// tiles cannot pass one another in a single row or column
+	if (width == 1 || height == 1)
+		return parity > 0;
+
 	// add parity bit if grid is even width & other bullshit, see:
 	// http://www.cs.bham.ac.uk/~mdr/teaching/modules04/java2/TilesSolvability.html
 	if (width % 2 == 0) {
-		if ((height-blankrow) % 2 == 0)
+		if (blankrow % 2 == 1)
 			parity += 1;
 	}
 
-- 
2.43.0


From 12130444410687616e54e0e076f20b50f024d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 059/120] fix: tiles generator: long directory names, flags
 without a value and failed writes

---
 tiles/generator.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index b8f78fb..4c924a4 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -9,8 +9,6 @@
 
 using namespace std;
 
-enum { BUFSZ = 100 };
-
 static Rand *r;
 
 static long unsigned int getrand(ptrdiff_t i) {
@@ -61,16 +59,14 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	unsigned int Ntiles = ts.size();
 	int output[Ntiles];
-	char fname[BUFSZ];
 	FILE *file = NULL;
 
+	string fname = string(dir) + "/" + to_string(n);
 
-	sprintf(fname, "%s/%d", dir, n);
-	
-	file = fopen(fname, "w");
+	file = fopen(fname.c_str(), "w");
 
 	if (!file) {
-		fatalx(errno, "Failed to open %s for writing", fname);
+		fatalx(errno, "Failed to open %s for writing", fname.c_str());
 	}
 
 	for (unsigned int i=0; i<Ntiles; i++) {
@@ -85,6 +81,8 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+	if (fclose(file) != 0)
+		fatalx(errno, "Failed to write %s", fname.c_str());
 }
 
 int main(int argc, char *argv[]) {
@@ -97,15 +95,15 @@ int main(int argc, char *argv[]) {
 	vector<int> puzzle;
 	
 	for (int i=0; i<argc; i++) {
-		if (strcmp(argv[i], "-w") == 0 && argc > i)
+		if (strcmp(argv[i], "-w") == 0 && i < argc-1)
 			width = atoi(argv[++i]);
-		if (strcmp(argv[i], "-h") == 0 && argc > i)
+		if (strcmp(argv[i], "-h") == 0 && i < argc-1)
 			height = atoi(argv[++i]);
-		if (strcmp(argv[i], "-n") == 0 && argc > i)
+		if (strcmp(argv[i], "-n") == 0 && i < argc-1)
 			n = atoi(argv[++i]);
-		if (strcmp(argv[i], "-d") == 0 && argc > i)
+		if (strcmp(argv[i], "-d") == 0 && i < argc-1)
 			dir = argv[++i];
-		if (strcmp(argv[i], "-seed") == 0 && argc > i) {
+		if (strcmp(argv[i], "-seed") == 0 && i < argc-1) {
 			seedval = atol(argv[++i]);
 			fprintf(stderr, "Using seed %ld\n", seedval);
 		}
-- 
2.43.0


From 9d63a73c7350d8079f8e1918a2fcac6f31127a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 060/120] fix: traffic randinst: check for all of the
 arguments, and for sizes that obstacles fit in

---
 traffic/randinst.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 859727d..08bdf3d 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -7,7 +7,7 @@
 
 int main(int argc, const char *argv[]) {
 	
-	if(argc < 4) {
+	if(argc < 5) {
 		fprintf(stderr, "usage: %s width height num_obs seed\n", argv[0]);
 		return 0;
 	}
@@ -17,6 +17,9 @@ int main(int argc, const char *argv[]) {
 	int num_obs = strtol(argv[3], NULL, 10);
 	int seed = strtol(argv[4], NULL, 10);
 
+	if(width < 2 || height < 2)
+		fatal("The width and height must be at least 2");
+
 	srand(seed);
 
 	while(true) {
-- 
2.43.0


From 3e9666549306dbb224fbefbf7547f5a136f12896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 061/120] fix: PolyMap::max: compare the upper bounds of the
 polygons

---
 visnav/polymap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/polymap.cc b/visnav/polymap.cc
index 5163d74..9d04c4e 100644
--- a/visnav/polymap.cc
+++ b/visnav/polymap.cc
@@ -104,7 +104,7 @@ geom2d::Pt PolyMap::max() const {
 	for (unsigned int i = 0; i < polys.size(); i++) {
 		if (polys[i].bbox.max.x > max.x)
 			max.x = polys[i].bbox.max.x;
-		if (polys[i].bbox.min.y > max.y)
+		if (polys[i].bbox.max.y > max.y)
 			max.y = polys[i].bbox.max.y;
 	}
 	return max;
-- 
2.43.0


From cf96c6ac511acf5395fc18c3bd0d7acdc2d36ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 062/120] fix: visnav: draw the map without a path when there
 is no solution

---
 visnav/visnav.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visnav/visnav.cc b/visnav/visnav.cc
index 0471ecf..731d1e2 100644
--- a/visnav/visnav.cc
+++ b/visnav/visnav.cc
@@ -36,7 +36,9 @@ void VisNav::save(const char *file, std::vector<State> path) {
 
 	g.draw(img, false);
 
-	geom2d::Pt p0 = g.verts[path[0].vert].pt;
+	geom2d::Pt p0;
+	if (path.size() > 0)
+		p0 = g.verts[path[0].vert].pt;
 	for (unsigned int i = 1; i < path.size(); i++) {
 		const geom2d::Pt &p1 = g.verts[path[i].vert].pt;
 		img.add(new Image::Line(p0, p1, Image::red, 3));
-- 
2.43.0


From 942e2e7f082014b743578ab6e8c509af8666c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 063/120] fix: visnav: do not report an edge as its own
 inverse, and tell edges apart by both ends

---
 visnav/visnav.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 586af4d..4794db1 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -14,7 +14,7 @@ struct VisNav {
 				return !other.edge;
 			if (!other.edge)
 				return false;
-			return other.edge->src == edge->src || other.edge->dst == edge->dst;
+			return other.edge->src == edge->src && other.edge->dst == edge->dst;
 		}
 		const VisGraph::Edge *edge;
 	};
@@ -87,7 +87,7 @@ struct VisNav {
 		State state;
 
 		Edge(VisNav &d, State &s, Oper op) :
-			cost(op.edge->dist), revop(op), revcost(op.edge->dist), state(op.edge->dst) { }
+			cost(op.edge->dist), revop(Nop), revcost(op.edge->dist), state(op.edge->dst) { }
 	};
 
 	void pack(PackedState &dst, State &src) {
-- 
2.43.0


From 4bc169c4ee3803eabd4cbe1862fc2126576bfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 064/120] fix: visgraph: write all digits of locations and
 distances, so that they read back the same

---
 visnav/visgraph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8b2ae..1c8bdee 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -39,7 +39,7 @@ VisGraph::Edge::Edge(FILE *in) {
 }
 
 void VisGraph::Edge::output(FILE *out) const {
-	fprintf(out, "%u %u %g", src, dst, dist);
+	fprintf(out, "%u %u %.17g", src, dst, dist);
 }
 
 VisGraph::Vert::Vert(FILE *in) {
@@ -55,7 +55,7 @@ VisGraph::Vert::Vert(FILE *in) {
 }
 
 void VisGraph::Vert::output(FILE *out) const {
-	fprintf(out, "%u %g %g %u", id, pt.x, pt.y, (unsigned int) edges.size());
+	fprintf(out, "%u %.17g %.17g %u", id, pt.x, pt.y, (unsigned int) edges.size());
 	for (unsigned int i = 0; i < edges.size(); i++) {
 		putc(' ', out);
 		edges[i].output(out);
-- 
2.43.0


From 09681cd2b26f941c873e2fde6e133a92a9c2e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 065/120] fix: visgraph: reject truncated graphs, and edges
 between vertices that do not exist

---
 visnav/visgraph.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8bdee..0dd8769 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -10,9 +10,18 @@ VisGraph::VisGraph(FILE *in) : map(in) {
 	int res = fscanf(in, " %u vertices\n", &nverts);
 	if (res == EOF && ferror(in))
 		fatalx(errno, "Failed to read the visibility graph");
-	if (res != EOF) {
-		for (unsigned int i = 0; i < nverts; i++)
-			verts.push_back(Vert(in));
+	if (res != 1)
+		fatal("Malformed visibility graph");
+
+	for (unsigned int i = 0; i < nverts; i++) {
+		verts.push_back(Vert(in));
+		if (verts[i].id != i)
+			fatal("Malformed visibility graph: vertex %u has ID %u", i, verts[i].id);
+		for (unsigned int j = 0; j < verts[i].edges.size(); j++) {
+			const Edge &e = verts[i].edges[j];
+			if (e.src != i || e.dst >= nverts)
+				fatal("Malformed visibility graph: bad edge from %u to %u", e.src, e.dst);
+		}
 	}
 }
 
-- 
2.43.0


From 16c8b2ad514867bd5af6e3747fb08b40cba2a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 066/120] fix: visnav rand: -o writes the map to the given file

---
 visnav/rand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..9f398e4 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
+		map.output(f);
 		fclose(f);
 	} else {
 		map.output(stdout);
-- 
2.43.0


From ea3b6a16a4b9a7d30ad1afd13651e7e3bbeb7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 067/120] fix: pbm2poly: an empty image is an error instead of
 a division by zero

---
 visnav/pbm2poly.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/visnav/pbm2poly.cc b/visnav/pbm2poly.cc
index 5710a44..517ab22 100644
--- a/visnav/pbm2poly.cc
+++ b/visnav/pbm2poly.cc
@@ -34,6 +34,8 @@ static void readpbm(FILE *in) {
 	if (res != 2)
 		fatal("Failed to read the pbm size");
 
+	if (w == 0 || h == 0)
+		fatal("The image is empty");
 	if (std::numeric_limits<unsigned int>::max() / w < h)
 		fatal("Image dimensions are too large");
 
-- 
2.43.0


From 9b5b277fcb172c2befef92595e1fa19f5f558cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 068/120] fix: segments: the arena is width by height, bounded
 on all four sides

---
 segments/segments.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..e056956 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -73,10 +73,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(width, 0));
+	bounds[1] = LineSg(Pt(width, 0), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(0, height));
+	bounds[3] = LineSg(Pt(0, height), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
@@ -108,7 +108,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 4eb78d11c29a4a0cfa1538a50384cd442514d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 069/120] fix: segments: a rotation reaches beyond the box
 around the ends of its arcs

---
 segments/segments.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index e056956..9de702d 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -202,22 +202,8 @@ Segments::Sweep Segments::Oper::rotatesweep(const Segments &dom, const State &s)
 	p.rot = wrapind(p.rot+delta, dom.nangles);
 	sweep.lines[0] = dom.line(dom.segs[seg], p);
 
-	Pt min = sweep.arcs[0].start();
-	Pt max = min;
-
-	Pt pts[] = { sweep.arcs[0].end(), sweep.arcs[1].start(), sweep.arcs[1].end() };
-
-	for (int i = 0; i < 3; i++) {
-		if (pts[i].x < min.x)
-			min.x = pts[i].x;
-		if (pts[i].y < min.y)
-			min.y = pts[i].y;
-		if (pts[i].x > max.x)
-			max.x = pts[i].x;
-		if (pts[i].y > max.y)
-			max.y = pts[i].y;
-	}
-	sweep.bbox = Bbox(min, max);
+	// The arcs may extend beyond the box of their end points.
+	sweep.bbox = Bbox(p.x - r, p.y - r, p.x + r, p.y + r);
 
 	return sweep;
 }
-- 
2.43.0


From 350243a0150a94667ce9faff75cf7b3d9793977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 070/120] fix: segments: recognize points in slices that begin
 or end beyond a full turn

---
 segments/segments.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 9de702d..29e064a 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -46,8 +46,8 @@ static bool slicecontains(const Arc &a, const Pt &p) {
 		tmax = a.t0;
 	}
 
-	if(tmax > 2*M_PI )
-		t += 2*M_PI;
+	// The first angle that is not before the slice's.
+	t += 2*M_PI * ceil((tmin - t) / (2*M_PI));
 
 	return between(tmin, tmax, t) && Pt::distance(a.c, p) <= a.r;
 }
-- 
2.43.0


From dbb821595f7044dae84f6177e71e35010ff3dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 071/120] fix: segments: reject instances without angles or
 with poses out of bounds, stop at the end of a comment

---
 segments/segments.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 29e064a..9b30984 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -58,7 +58,7 @@ Segments::Segments(FILE *in) {
 	while (c == '#') {
 		do {
 			c = fgetc(in);
-		} while (c != '\n');
+		} while (c != '\n' && c != EOF);
 		c = fgetc(in);
 	}
 	ungetc(c, in);
@@ -66,7 +66,7 @@ Segments::Segments(FILE *in) {
 	if (fscanf(in, "%u %u %u\n", &width, &height, &nangles) != 3)
 		fatal("Failed to read the turning angle step\n");
 
-	if (nangles % 2 != 0)
+	if (nangles == 0 || nangles % 2 != 0)
 		fatal("Angle step must partition a circle into an even number of segments");
 
 	dtheta = 2*M_PI / nangles;
@@ -90,6 +90,12 @@ Segments::Segments(FILE *in) {
 			fatal("Failed to read the %uth initial pose\n", i);
 		if (fscanf(in, " %u %u %u", &seg.goal.x, &seg.goal.y, &seg.goal.rot) != 3)
 			fatal("Failed to read the %uth goal pose\n", i);
+		if (!(seg.radius >= 0) || std::isinf(seg.radius))
+			fatal("The %uth radius is not a length\n", i);
+		if (seg.start.rot >= nangles || seg.goal.rot >= nangles)
+			fatal("The %uth rotation is out of bounds\n", i);
+		if (seg.start.x > width || seg.start.y > height || seg.goal.x > width || seg.goal.y > height)
+			fatal("The %uth segment is out of bounds\n", i);
 		segs.push_back(seg);
 	}
 }
-- 
2.43.0


From 945d746f17c896b05ae3f1d3b78de63ad947ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 072/120] fix: segments: no overflow in the heuristic of
 distant poses

---
 segments/segments.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 9b30984..77e2ced 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -353,8 +353,8 @@ Segments::Cost Segments::h(const State &s) const {
 		if (s.poses[i] == segs[i].goal)
 			continue;
 
-		double dx = abs((int)segs[i].goal.x - (int)s.poses[i].x);
-		double dy = abs((int)segs[i].goal.y - (int)s.poses[i].y);
+		double dx = fabs((double)segs[i].goal.x - s.poses[i].x);
+		double dy = fabs((double)segs[i].goal.y - s.poses[i].y);
 		double shorter = dx < dy ? dx : dy;
 		double longer = dx > dy ? dx : dy;
 		h += (longer-shorter) + shorter*sqrt(2.0);
-- 
2.43.0


From a5b1b2009e1fb96a71cbac5161a061916f4e7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 073/120] fix: segments: report an inverse only if it also
 returns the gripper

---
 segments/segments.cc  | 9 +++++++--
 segments/segments.hpp | 7 +++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 77e2ced..0b5c368 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -284,7 +284,8 @@ Segments::Operators::Operators(const Segments &dom, const State &s) {
 
 Segments::Edge::Edge(const Segments &dom, const State &s, Oper op) {
 	cost = op.cost(s);
-	revop = op.reverse();
+	revop = Nop;
+	revcost = -1;
 	state = s;
 
 	if (op.op == Oper::None)
@@ -313,7 +314,11 @@ Segments::Edge::Edge(const Segments &dom, const State &s, Oper op) {
 	else if (!wasgoal && isgoal)
 		state.nleft--;
 
-	revcost = revop.cost(state);
+	// The gripper doesn't return to where it came from.
+	if (s.poses[op.seg].x == s.x && s.poses[op.seg].y == s.y) {
+		revop = op.reverse();
+		revcost = revop.cost(state);
+	}
 }
 
 Segments::State Segments::initialstate() const {
diff --git a/segments/segments.hpp b/segments/segments.hpp
index 3a5b841..1176aea 100644
--- a/segments/segments.hpp
+++ b/segments/segments.hpp
@@ -177,10 +177,9 @@ public:
 		// reverse returns the operator that, if applied
 		// to the resulting state, would undo this operator.
 		//
-		// The reverse of a Gripper operation is the same
-		// operation, this works because all Gripper ops
-		// are equivalent.  This means that the Gripper is
-		// never moved twice in a row.
+		// This only holds if the gripper was at the segment
+		// before, as the reverse does not move it back to
+		// where it came from.
 		Oper reverse() const;
 
 		// cost returns the cost of applying this operator
-- 
2.43.0


From 09a91cc356a3e4c5afda232eef42d87da31b9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 074/120] fix: segments: write all of the initial state to the
 given file

---
 segments/segments.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 0b5c368..c772aff 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -441,9 +441,9 @@ void Segments::prinitial(FILE *out) const {
 			(unsigned int) sg->goal.y,
 			(unsigned int) sg->goal.rot);
 	}
-	dfpair(stdout, "width", "%u", width);
-	dfpair(stdout, "height", "%u", height);
-	dfpair(stdout, "number of angles", "%u", nangles);
+	dfpair(out, "width", "%u", width);
+	dfpair(out, "height", "%u", height);
+	dfpair(out, "number of angles", "%u", nangles);
 }
 
 std::vector<Segments::Oper> scanops(const std::string &str) {
-- 
2.43.0


From b16813a86dad8322d6972889be7a59deede745d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 075/120] fix: segments/mkinst: write the radius that was
 checked for overlap, -h may come last

---
 segments/mkinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segments/mkinst.cc b/segments/mkinst.cc
index ecb6f58..738538f 100644
--- a/segments/mkinst.cc
+++ b/segments/mkinst.cc
@@ -49,7 +49,7 @@ void parseargs(int argc, const char *argv[]) {
 		} else if (i < argc-1 && strcmp(argv[i], "-seed") == 0) {
 			Seed = strtoul(argv[++i], NULL, 10);
 
-		} else if (i < argc-1 && strcmp(argv[i], "-h") == 0) {
+		} else if (strcmp(argv[i], "-h") == 0) {
 			helpmsg(0);
 
 		} else {
@@ -128,7 +128,7 @@ void mkinst(FILE *out) {
 	fprintf(out, "%u\n", Nsegs);
 	for (unsigned int i = 0; i < dom.segs.size(); i++) {
 		const Segments::Seg &sg = dom.segs[i];
-		fprintf(out, "%g ", sg.radius);
+		fprintf(out, "%.17g ", sg.radius);
 		fprintf(out, "%u %u %u ", sg.start.x, sg.start.y, sg.start.rot);
 		fprintf(out, "%u %u %u\n", sg.goal.x, sg.goal.y, sg.goal.rot);
 	}
-- 
2.43.0


From c3301d5633545b260be1cdf18950aac95273bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 076/120] fix: segments/mkinst: reject sizes that leave no room
 for a segment

---
 segments/mkinst.cc   | 5 +++++
 segments/segments.cc | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/segments/mkinst.cc b/segments/mkinst.cc
index 738538f..1029f35 100644
--- a/segments/mkinst.cc
+++ b/segments/mkinst.cc
@@ -76,6 +76,11 @@ void mkinst(FILE *out) {
 	Rand rnd(Seed);
 	printf("# seed: %lu\n", Seed);
 
+	if (!(MinR >= 0) || !(MaxR >= MinR))
+		fatal("The radii are not a range of lengths");
+	if (2*ceil(MaxR) > Width || 2*ceil(MaxR) > Height)
+		fatal("The greatest segment does not fit");
+
 	Segments dom(Width, Height, Nangles, std::vector<Segments::Seg>());
 
 	std::vector<LineSg> lines;
diff --git a/segments/segments.cc b/segments/segments.cc
index c772aff..25288ec 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -104,7 +104,7 @@ Segments::Segments(FILE *in) {
 Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::vector<Seg> &s) :
 	width(w), height(h), nangles(t), segs(s) {
 
-	if (nangles % 2 != 0)
+	if (nangles == 0 || nangles % 2 != 0)
 		fatal("Angle step must partition a circle into an even number of segments");
 
 	dtheta = 2*M_PI / t;
-- 
2.43.0


From b7fabc8a7cec7bf8ead05f9c56c68b7099f76821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 077/120] fix: plat2d: recognize a second start location by
 both coordinates

---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From 5fdc0dc1009fcc0dcaf903a19797743429bb7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 078/120] fix: plat2d: packed states that are equal have equal
 hashes

---
 plat2d/plat2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..2be2be9 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -65,10 +65,10 @@ struct Plat2d {
 	struct PackedState {
 
 		bool eq(const Plat2d*, const PackedState &o) const {
+			// Exact, as states that are equal must have
+			// the same hash value.
 			return jframes == o.jframes &&
-				geom2d::doubleeq(x, o.x) &&
-				geom2d::doubleeq(y, o.y) &&
-				geom2d::doubleeq(dy, o.dy);
+				x == o.x && y == o.y && dy == o.dy;
 		}
 
 		unsigned long hash(const Plat2d*) {
-- 
2.43.0


From db7bad1119e403965e1a61d9d996b6f38b1a1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 079/120] fix: plat2d: unpacking does not keep the estimate of
 another state

---
 plat2d/plat2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 2be2be9..05dd1a9 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -195,6 +195,7 @@ struct Plat2d {
 		buf.player.body.bbox.min.y = pkd.y;
 		buf.player.body.bbox.max.x = pkd.x + Player::Width;
 		buf.player.body.bbox.max.y = pkd.y + Player::Height;
+		buf.h = -1;
 		return buf;
 	}
 
-- 
2.43.0


From 52d5c9fe9d3186aa6502cf2d73870e28f8ea0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 080/120] fix: plat2d: left and right are inverses only if the
 player returns

---
 plat2d/plat2d.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 05dd1a9..bb05832 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -158,13 +158,17 @@ struct Plat2d {
 			state.h = -1;
 			state.player.act(d.lvl, (unsigned int) op);
 			cost = 1; // geom2d::Pt::distance(s.player.body.bbox.min, state.player.body.bbox.min));
-			if (s.player.body.bbox.min.y == state.player.body.bbox.min.y) {
-				if (op == Player::Left) {
-					revop = Player::Right;
-					revcost = cost;
-				}
-				else if (op == Player::Right) {
-					revop = Player::Left;
+			if (op == Player::Left || op == Player::Right) {
+				// The opposite is only an inverse if neither
+				// a wall nor a fall gets in the way.
+				Oper opp = op == Player::Left ? Player::Right : Player::Left;
+				State back(state);
+				back.player.act(d.lvl, (unsigned int) opp);
+				PackedState a, b;
+				d.pack(a, back);
+				d.pack(b, s);
+				if (a.eq(&d, b)) {
+					revop = opp;
 					revcost = cost;
 				}
 			}
-- 
2.43.0


From 6e94d3e5897628b98bc8c36b70a39f2f3fa5a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 081/120] fix: plat2d: reject levels that the player can leave

---
 plat2d/plat2d.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index bdc5e1e..b29785a 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -38,6 +38,14 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 	if (x0 >= lvl.width() || y0 >= lvl.height())
 		fatal("No start location in the level");
 
+	for (unsigned int x = 0; x < lvl.width(); x++) {
+	for (unsigned int y = 0; y < lvl.height(); y++) {
+		bool border = x == 0 || y == 0 || x == lvl.width()-1 || y == lvl.height()-1;
+		if (border && !lvl.blocked(x, y))
+			fatal("The level is not enclosed by solid tiles");
+	}
+	}
+
 	gleft = gx * W;
 	gright = (gx + 1) * W;
 	gtop = gy * H;
-- 
2.43.0


From f579ef3a59b49ac1ef232e27a4e0ba4c0818b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 082/120] fix: plat2d: levels with walled-off regions, where
 the heuristic was read out of bounds

---
 plat2d/plat2d.cc  | 28 ++++++++++++++++++++++------
 plat2d/plat2d.hpp |  3 +++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index b29785a..00b1f7c 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -71,24 +71,40 @@ void Plat2d::initvg() {
 	double strt = walltime();
 	bool *blkd = new bool[lvl.width() * lvl.height()];
 	for (unsigned int i = 0; i < lvl.width() * lvl.height(); i++)
-		blkd[i] = false;
-	for (unsigned int i = 0; i < lvl.width(); i++) {
-	for (unsigned int j = 0; j < lvl.height(); j++)
-		blkd[i * lvl.height() + j] = lvl.blocked(i, j);
+		blkd[i] = true;
+
+	// The map has a single boundary, so only the tiles that are
+	// connected to the goal are open in it.
+	std::vector<unsigned int> todo;
+	blkd[gx * lvl.height() + gy] = false;
+	todo.push_back(gx * lvl.height() + gy);
+	while (!todo.empty()) {
+		unsigned int x = todo.back() / lvl.height();
+		unsigned int y = todo.back() % lvl.height();
+		todo.pop_back();
+		unsigned int xs[] = { x - 1, x + 1, x, x };
+		unsigned int ys[] = { y, y, y - 1, y + 1 };
+		for (unsigned int i = 0; i < 4; i++) {
+			unsigned int k = xs[i] * lvl.height() + ys[i];
+			if (!blkd[k] || lvl.blocked(xs[i], ys[i]))
+				continue;
+			blkd[k] = false;
+			todo.push_back(k);
+		}
 	}
 
 	vg = new VisGraph(PolyMap(blkd, lvl.width(), lvl.height()));
-	delete[]blkd;
 
 	for (unsigned int i = 0; i < lvl.width() * lvl.height(); i++) {
 		unsigned int x = i / lvl.height();
 		unsigned int y = i % lvl.height();
 		geom2d::Pt pt(x + 0.5, y + 0.5);
-		if (!vg->map.obstructed(pt))
+		if (!blkd[i] && !vg->map.obstructed(pt))
 			centers.push_back(vg->add(pt));
 		else
 			centers.push_back(-1);
 	}
+	delete[]blkd;
 
 	vg->scale(W, H);
 
diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index bb05832..b94e6d1 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -241,6 +241,9 @@ private:
 		loc.y /= Maxy;
 
 		int c = centers[bi.x * lvl.height() + bi.y];
+		if (c < 0)	// not connected to the goal
+			return 1;
+
 		geom2d::Pt g = goalpt(bi, loc);
 		if (togoal[c].prev == gcenter || vg->map.isvisible(loc, g)) {
 			double dx = fabs(g.x - loc.x);
-- 
2.43.0


From 9b3d0d7a07d9d31526a84bbf54618a1a6336d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 083/120] fix: plat2d: complain when no algorithm is given

---
 plat2d/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/main.cc b/plat2d/main.cc
index 8384492..bb0902b 100644
--- a/plat2d/main.cc
+++ b/plat2d/main.cc
@@ -45,7 +45,7 @@ static void parseargs(int argc, const char *argv[]) {
 }
 
 static SearchAlgorithm<Plat2d> *get(int argc, const char *argv[]) {
-	if (strcmp(argv[1], "rrt") == 0)
+	if (argc > 1 && strcmp(argv[1], "rrt") == 0)
 		return new RRT<Plat2d>(argc, argv);
 	return getsearch<Plat2d>(argc, argv);
 }
\ No newline at end of file
-- 
2.43.0


From b5398af0e23e35c729bd53bc26098c22ef078509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 084/120] fix: visgraph: adding vertices to a loaded graph
 considers the polygons of the others

---
 visnav/visgraph.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 0dd8769..6a4202c 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -23,6 +23,14 @@ VisGraph::VisGraph(FILE *in) : map(in) {
 				fatal("Malformed visibility graph: bad edge from %u to %u", e.src, e.dst);
 		}
 	}
+
+	// The vertices of the polygons come first, see populateverts.
+	for (unsigned int i = 0; i < map.polys.size(); i++) {
+		for (unsigned int j = 0; j < map.polys[i].verts.size(); j++) {
+			if (map.polys[i].isreflex(j) && polyno.size() < verts.size())
+				polyno.push_back(i);
+		}
+	}
 }
 
 VisGraph::VisGraph(const PolyMap &p) : map(p) {
-- 
2.43.0


From 4a687e59e3698dceeb7712ea1770c625a2dbbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:04 +0000
Subject: [PATCH 085/120] fix: geom2d: polygon containment of points that are
 almost level with a vertex

---
 utils/geom2d.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 99c40aa..b81e733 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -138,27 +138,20 @@ namespace geom2d {
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
-		bool even = true, isect = false;
-		Line ray(pt, Pt(pt.x + 1, pt.y));
+		bool even = true;
 	
 		for (unsigned int i = 0; i < sides.size(); i++) {
 			const LineSg &side = sides[i];
-			if (side.bbox.max.x < pt.x || side.bbox.max.y < pt.y || side.bbox.min.y > pt.y)
+			// The comparisons are exact, so that a ray past a vertex
+			// crosses either one or both or none of its sides.
+			if ((side.p0.y >= pt.y) == (side.p1.y >= pt.y))
 				continue;
-			Pt hit = ray.isect(side);
-	
-			if (hit.isinf() || hit.x <= pt.x || !side.within(hit))
-				continue;
-			else if (side.p0 == hit && side.p1.y >= hit.y)
-				continue;
-			else if (side.p1 == hit && side.p0.y >= hit.y)
-				continue;
-	
-			isect = true;
-			even = !even;
+			double t = (pt.y - side.p0.y) / (side.p1.y - side.p0.y);
+			if (side.p0.x + t*(side.p1.x - side.p0.x) > pt.x)
+				even = !even;
 		}
 	
-		return isect && !even;
+		return !even;
 	}
 	
 	std::vector<Pt> Poly::isects(const LineSg &l) const {
-- 
2.43.0


From b4a4071161da1e5f92980c5f724f016def63ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 086/120] fix: Poly: the sweep of a segment that moves along
 itself may be flat, only polygons from outside need an area

---
 utils/geom2d.cc  | 7 +++++++
 utils/geom2d.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index b81e733..668e4b2 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -17,6 +17,7 @@ namespace geom2d {
 		if (verts.size() < 3)
 			fatal("A polygon needs at least 3 points\n");
 		removecolinear();
+		checkverts();
 		initsides();
 	}
 	
@@ -53,6 +54,7 @@ namespace geom2d {
 		}
 		bbox = Bbox(verts);
 		removecolinear();
+		checkverts();
 		initsides();
 	}
 	
@@ -198,6 +200,11 @@ namespace geom2d {
 			else
 				i++;
 		}
+	}
+
+	// checkverts is for polygons that come from outside, where the
+	// sweep of a segment that moves along itself may be flat.
+	void Poly::checkverts() const {
 		if (verts.size() < 3)
 			fatal("A polygon needs at least 3 points that are not on a line");
 	}
diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 05f8afa..bd1f3db 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -576,6 +576,7 @@ namespace geom2d {
 	private:
 		double interangle(unsigned int) const;
 		void removecolinear();
+		void checkverts() const;
 		void initsides();
 	};
 };
-- 
2.43.0


From 09746fbf3679278acf7c8c6a0054ef32046dc60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 087/120] fix: plat2d: a frame at full speed may be rounded
 beyond it

---
 plat2d/plat2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index b94e6d1..e99802d 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -177,8 +177,8 @@ struct Plat2d {
 
 			double dy = fabs(s.player.body.bbox.center().y - state.player.body.bbox.center().y);
 			double dx = fabs(s.player.body.bbox.center().x - state.player.body.bbox.center().x);
-			assert (dx <= Maxx);
-			assert (dy <= Maxy);
+			assert (dx <= Maxx + geom2d::Threshold);
+			assert (dy <= Maxy + geom2d::Threshold);
 		}
 	};
 
-- 
2.43.0


From 2eb9a71c71c2a3f55fe7b9954d46c4d5cc17ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 088/120] fix: plat2d: leaving water does not let the player
 fall faster than the maximum

---
 plat2d/body.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plat2d/body.cc b/plat2d/body.cc
index bd83e7b..99fc7cb 100644
--- a/plat2d/body.cc
+++ b/plat2d/body.cc
@@ -70,6 +70,8 @@ void Body::dofall(const Lvl &lvl, const Isect &is) {
 	if (fall && dy < Maxdy) {
 		Lvl::Blkinfo bi = lvl.majorblk(bbox);
 		dy += bi.tile.gravity();
+		if (dy > Maxdy)
+			dy = Maxdy;
 	}
 }
 
-- 
2.43.0


From 90fee88abe0d3baaf0ada15d3a8a4ce9d019d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:19 +0000
Subject: [PATCH 089/120] fix: dtastar-dump: a sample is of the h value that
 its lookahead began with

---
 search/dtastar-dump.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 322e44c..10b89db 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -436,10 +436,12 @@ private:
  
 		for (unsigned long depth = 1; depth <= horizon; depth++) {
 
+			// Expanding nodes beneath the root may raise its h value.
+			double h = root->horig;
 			alpha = std::numeric_limits<double>::infinity();
-			dfs(d, a, root->horig, root->horig, depth);
-			assert (alpha + geom2d::Threshold >= root->horig);
-			dfrow(stdout, "sample", "gug", root->horig, depth, alpha);
+			dfs(d, a, h, h, depth);
+			assert (alpha + geom2d::Threshold >= h);
+			dfrow(stdout, "sample", "gug", h, depth, alpha);
 		}
 	} 
 
-- 
2.43.0


From 1cb1d8ba20adc6bfda7367e399da4c2e581d48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 090/120] fix: rdb: only a file that is named KEY= holds a key,
 not any path with KEY= in it

---
 rdb/rdb.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 6c33eab..aea6664 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -105,7 +105,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 }
 
 static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::string> &files) {
-	if (strstr(path.c_str(), "KEY=") != NULL)
+	if (hasprefix(basename(path).c_str(), "KEY="))
 		return;
 	if (!fileexists(path))
 		return;
@@ -160,13 +160,12 @@ static std::string makepath(std::string root, RdbAttrs attrs) {
 }
 
 static bool getkey(const std::string &p, std::string &key) {
-	std::vector<std::string> ents = readdir(p);
+	std::vector<std::string> ents = readdir(p, false);
 	for (unsigned int i = 0; i < ents.size(); i++) {
 		const char *fname = ents[i].c_str();
-		const char *keyfile = strstr(fname, "KEY=");
-		if (!keyfile)
+		if (!hasprefix(fname, "KEY="))
 			continue;
-		key = keyfile + strlen("KEY=");
+		key = fname + strlen("KEY=");
 		return true;
 	
 	}
-- 
2.43.0


From 12920f5e4a5f15d868840fc9cab083e1111966b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 091/120] fix: rdb: withattrs returns only files that have all
 of the given attributes

---
 rdb/rdb.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index aea6664..28e9e39 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -13,7 +13,7 @@ static std::string makepath(std::string, RdbAttrs);
 
 // collect collects all of the files with attributes matching the
 // given attribute list to the vector.
-static void collect(std::string, RdbAttrs&, std::vector<std::string>&);
+static void collect(std::string, RdbAttrs, std::vector<std::string>&);
 
 // addfiles adds the RDB entries matching the attribute list
 // beneath the given directory to the vector.
@@ -83,7 +83,7 @@ std::vector<std::string> withattrs(const std::string &root, RdbAttrs attrs) {
 	return files;
 }
 
-static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string> &files) {
+static void collect(std::string path, RdbAttrs attrs, std::vector<std::string> &files) {
 	if (!fileexists(path) || !isdir(path))
 		return;
 
@@ -96,6 +96,7 @@ static void collect(std::string path, RdbAttrs &attrs, std::vector<std::string>
 		if (k == "")
 			fatal("Empty value for key %s", curkey.c_str());
 		path = pathcat(path, k);
+		attrs.rm(curkey);
 		return addfiles(path, attrs, files);
 	}
 
@@ -111,7 +112,8 @@ static void addfiles(const std::string &path, RdbAttrs &attrs, std::vector<std::
 		return;
 	if (isdir(path))
 		return collect(path, attrs, files);
-	files.push_back(path);
+	if (attrs.size() == 0)	// it has all of the attributes
+		files.push_back(path);
 }
 
 std::string pathfor(const std::string &root, RdbAttrs attrs) {
-- 
2.43.0


From 592e11e85bda96b97bedd54be5e06738992e6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 092/120] fix: rdb: pathattrs stops at the current directory
 and the root

---
 rdb/rdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index 28e9e39..f0962a2 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -188,7 +188,7 @@ RdbAttrs pathattrs(std::string path) {
 		std::string dir = dirname(path);
 		std::string file = basename(path);
 		std::string key;
-		if (!getkey(dir, key))
+		if (dir == path || !getkey(dir, key))
 			break;
 		attrs.push_front(key, file);
 		path = dir;
-- 
2.43.0


From a9017429b5941e47727db1db624da39a74b933ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 093/120] fix: rdb: a value without a key is no access before
 the start of a string

---
 rdb/rdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.cc b/rdb/rdb.cc
index f0962a2..4e755b4 100644
--- a/rdb/rdb.cc
+++ b/rdb/rdb.cc
@@ -226,7 +226,7 @@ static int frontpair(int argc, const char *argv[], std::string &key, std::string
 		vl = arg.substr(eq + 1, arg.size() - eq - 1);
 		if (eq > 0)
 			key += arg.substr(0, eq);
-		else if (key[key.size()-1] == ' ')
+		else if (key.size() > 0 && key[key.size()-1] == ' ')
 			key.resize(key.size() - 1);
 		return i + 1;
 	}
-- 
2.43.0


From 90ed9816bbe3e48a4ef62589bbb8655c209c4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 094/120] fix: ppm2grid: read the maximum color value, it is
 not the first color

---
 gridnav/ppm2grid.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index eb94666..aa6ab51 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -4,18 +4,20 @@
 #include <cstdio>
 #include <string>
 
-unsigned int w, h;
+unsigned int w, h, maxval;
 FILE *in = stdin;
 FILE *out = stdout;
 
 static bool white();
 static void readsize();
+static void readmaxval();
 static std::string nextline();
 
 int main() {
 	if (nextline() != "P3")
 		fatal("Expected P3");
 	readsize();
+	readmaxval();
 	fprintf(out, "%u %u\nBoard:\n", h, w);
 	for (unsigned int y = 0; y < h; y++) {
 		for (unsigned int x = 0; x < w; x++)
@@ -28,7 +30,7 @@ static bool white() {
 	unsigned int r, g, b;
 	if (fscanf(in, " %u %u %u", &r, &g, &b) != 3)
 		fatal("Expected a color");
-	return r == 255 && g == 255 && b == 255;
+	return r == maxval && g == maxval && b == maxval;
 }
 
 static void readsize() {
@@ -38,6 +40,13 @@ static void readsize() {
 		fatal("Expected width and height, got [%s]\n", str);
 }
 
+static void readmaxval() {
+	auto l = nextline();
+	const char *str = l.c_str();
+	if (sscanf(str, "%u", &maxval) != 1)
+		fatal("Expected the maximum color value, got [%s]\n", str);
+}
+
 static std::string nextline() {
 	std::string line;
 	do {
-- 
2.43.0


From 898820ead2f053d3d62c5cb48ebdbf28aeb645c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 095/120] fix: gridnav randinst: choose locations on the map
 only

---
 gridnav/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 55dc805..8bcc884 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -37,8 +37,8 @@ int main(int argc, char *argv[]) {
 	unsigned int ys[2];
 	for (int i = 0; i < 2; i++) {
 again:
-		xs[i] = r.integer(1, map.w);
-		ys[i] = r.integer(1, map.h);
+		xs[i] = r.integer(1, map.w-2);
+		ys[i] = r.integer(1, map.h-2);
 		if (map.blkd(map.index(xs[i], ys[i])))
 			goto again;
 	}
-- 
2.43.0


From 54f5cef7fbae9cf8e7980b9d4668125e914c2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 096/120] fix: scenario2rdb: accept the version 1.0 of the
 scenario format

---
 gridnav/scenario2rdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index dce3355..b22ad1e 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -12,10 +12,10 @@ int main(int argc, char *argv[]) {
 	std::ifstream in(argv[2]);
 	
 	std::string verstr;
-	unsigned int vernum;
+	float vernum;
 	in >> verstr >> vernum;
 	if (verstr != "version" || vernum != 1)
-		fatal("Bad scenario version: %s %d", verstr.c_str(), vernum);
+		fatal("Bad scenario version: %s %g", verstr.c_str(), vernum);
 
 	unsigned int n = 0;
 	while (in) {
-- 
2.43.0


From 9b8201c251c56c2c95a0745f03f254644ef20eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 097/120] fix: mkseedinst: print the probability exactly,
 another one is another map

---
 gridnav/mkseedinst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/mkseedinst.cc b/gridnav/mkseedinst.cc
index 371bb8a..f69a0b6 100644
--- a/gridnav/mkseedinst.cc
+++ b/gridnav/mkseedinst.cc
@@ -42,7 +42,7 @@ int main(int argc, char *argv[]) {
 	if (i > 0)
 		putc('\n', stderr);
 
-	printf("seed %lu %u %u %f\n", (unsigned long) seed+i,
+	printf("seed %lu %u %u %.17g\n", (unsigned long) seed+i,
 		width, height, prob);
 	if (eightway)
 		puts("Eightway");
-- 
2.43.0


From 5ffc98f0d49cca8758fecf24caaaf7ce717fc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 098/120] fix: visnav inst: print the chosen locations exactly

---
 visnav/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/inst.cc b/visnav/inst.cc
index 3164bcd..a03d075 100644
--- a/visnav/inst.cc
+++ b/visnav/inst.cc
@@ -36,5 +36,5 @@ int main(int argc, char *argv[]) {
 	} while (g.map.obstructed(geom2d::Pt(x1, y1)));
 
 	g.output(stdout);
-	printf("%g %g %g %g\n", x0, y0, x1, y1);
+	printf("%.17g %.17g %.17g %.17g\n", x0, y0, x1, y1);
 }
\ No newline at end of file
-- 
2.43.0


From f090b8df49d18f97b5eaf1e3daf4d41e679b5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 099/120] fix: pancake: reject instances that are no
 permutation of the pancakes

---
 pancake/pancake.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pancake/pancake.cc b/pancake/pancake.cc
index 9b7ab57..c028c9d 100644
--- a/pancake/pancake.cc
+++ b/pancake/pancake.cc
@@ -13,9 +13,13 @@ Pancake::Pancake(FILE *in) {
 	if (ncakes != Ncakes)
 		fatal("Number of pancakes instance/compiler option mismatch");
 
+	bool used[Ncakes] = {};
 	for (unsigned int i = 0; i < Ncakes; i++) {
 		if (fscanf(in, " %d", init + i) != 1)
 			fatalx(errno, "Failed to read pancake number %d", i);
+		if (init[i] < 0 || (unsigned int) init[i] >= Ncakes || used[init[i]])
+			fatal("Invalid pancake %d", init[i]);
+		used[init[i]] = true;
 	}
 }
 
-- 
2.43.0


From 574898d3be326cfb4c2eb52db6952a1cbcecd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 100/120] fix: plat2d: reject the size of a level that is too
 big instead of aborting

---
 plat2d/lvl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plat2d/lvl.cc b/plat2d/lvl.cc
index 1d2721d..2bc603f 100644
--- a/plat2d/lvl.cc
+++ b/plat2d/lvl.cc
@@ -31,6 +31,8 @@ void Lvl::read(FILE *f)
 		fatal("Malformed level header");
 	if (d != 1)
 		fatal("Only levels with a depth of 1 are supported");
+	if (!safe::can_mul(w, h))
+		fatal("The level is too big");
 
 	blks = new Blk[safe::mul(w, h)];
 
-- 
2.43.0


From 98988075772c98306b2621481286e65026966f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 101/120] fix: traffic: the position of a fast obstacle does
 not overflow

---
 traffic/gridmap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traffic/gridmap.hpp b/traffic/gridmap.hpp
index ef2f133..f7d697c 100644
--- a/traffic/gridmap.hpp
+++ b/traffic/gridmap.hpp
@@ -132,8 +132,8 @@ struct GridMap {
 
 		std::pair<int, int> positionAt( int w,  int h, int t) const {
 			std::pair< int, int> newPoint(x,y);
-			 int x_p = abs(x + dx * t);
-			 int y_p = abs(y + dy * t);
+			 long long x_p = llabs(x + (long long) dx * t);
+			 long long y_p = llabs(y + (long long) dy * t);
 
 			 // There is nowhere to move on an axis with a single cell.
 			 if(w == 1) x_p = 0;
@@ -142,8 +142,8 @@ struct GridMap {
 			 int x_period = w > 1 ? w-1 : 1;
 			 int y_period = h > 1 ? h-1 : 1;
 
-			 int x_reflections = x_p / x_period;
-			 int y_reflections = y_p / y_period;
+			 long long x_reflections = x_p / x_period;
+			 long long y_reflections = y_p / y_period;
 
 			 int x_offset = x_p % x_period;
 			 int y_offset = y_p % y_period;
-- 
2.43.0


From 5a5b0cf13ef9ac980cdace18244f9da911336cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 102/120] fix: mkprof: do not iterate over keys that are
 already freed

---
 search/anyprof/mkprof.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 04a43e7..0db9ec1 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -30,7 +30,8 @@ int main(int argc, const char *argv[]) {
 
 	RdbAttrs attrs = attrargs(argc-4, argv+4);
 	printf("attributes:\n");
-	for (auto k = attrs.getkeys().begin(); k != attrs.getkeys().end(); k++)
+	const auto keys = attrs.getkeys();
+	for (auto k = keys.begin(); k != keys.end(); k++)
 		printf("\t%s=%s\n", k->c_str(), attrs.lookup(*k).c_str());
 	if (!attrs.mem("alg"))
 		fatal("alg attribute must be specified");
-- 
2.43.0


From b02d15b02eee6e0c2e8aae6b83e41c9f8afcad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 103/120] fix: mkprof: reject a number of bins that is no
 positive number

---
 search/anyprof/mkprof.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 0db9ec1..93518ac 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -5,6 +5,10 @@
 #include "../../utils/utils.hpp"
 #include <cerrno>
 
+// Maxbins is the greatest number of bins, it keeps the number
+// of cost, cost, time triples within an unsigned int.
+enum { Maxbins = 1000 };
+
 static unsigned long nsols;
 
 static void dfline(std::vector<std::string>&, void*);
@@ -18,15 +22,15 @@ int main(int argc, const char *argv[]) {
 
 	errno = 0;
 	char *end;
-	unsigned int ncost = strtol(argv[2], &end, 10);
-	if (end == argv[2])
+	long ncost = strtol(argv[2], &end, 10);
+	if (end == argv[2] || ncost <= 0 || ncost > Maxbins)
 		fatal("Invalid number of cost bins: %s", argv[2]);
-	printf("%u cost bins\n", ncost);
+	printf("%ld cost bins\n", ncost);
 
-	unsigned int ntime = strtol(argv[3], &end, 10);
-	if (end == argv[3])
+	long ntime = strtol(argv[3], &end, 10);
+	if (end == argv[3] || ntime <= 0 || ntime > Maxbins)
 		fatal("Invalid number of time bins: %s", argv[3]);
-	printf("%u time bins\n", ntime);
+	printf("%ld time bins\n", ntime);
 
 	RdbAttrs attrs = attrargs(argc-4, argv+4);
 	printf("attributes:\n");
-- 
2.43.0


From 22e8105ea4ef782afaaa1c0684500251d988f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 104/120] fix: mkprof: reject malformed solution rows instead
 of crashing

---
 search/anyprof/mkprof.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/mkprof.cc b/search/anyprof/mkprof.cc
index 93518ac..648f345 100644
--- a/search/anyprof/mkprof.cc
+++ b/search/anyprof/mkprof.cc
@@ -4,6 +4,7 @@
 #include "../../rdb/rdb.hpp"
 #include "../../utils/utils.hpp"
 #include <cerrno>
+#include <cmath>
 
 // Maxbins is the greatest number of bins, it keeps the number
 // of cost, cost, time triples within an unsigned int.
@@ -53,6 +54,10 @@ int main(int argc, const char *argv[]) {
 
 		AnytimeProfile::SolutionStream sols;
 		dfread(f, dfline, &sols, NULL);
+		for (unsigned int i = 1; i < sols.size(); i++) {
+			if (sols[i].time < sols[i-1].time || sols[i].cost > sols[i-1].cost)
+				fatal("%s: the solutions are not improving", p->c_str());
+		}
 		stream.push_back(sols);
 
 		fclose(f);
@@ -88,12 +93,16 @@ static void dfline(std::vector<std::string> &line, void *aux) {
 	// sol is the deprecated altrow name for ARA*
 	// incumbent solutions, incumbent is the new
 	// name.
-	if (line[0] != "#altrow" || (line[1] != "sol" && line[1] != "incumbent"))
+	if (line.size() < 2 || line[0] != "#altrow" || (line[1] != "sol" && line[1] != "incumbent"))
 		return;
+	if (line.size() < 9)
+		fatal("Malformed solution row: too few columns");
 
 	AnytimeProfile::Solution sol;
 	sol.cost = strtod(line[7].c_str(), NULL);
 	sol.time = strtod(line[8].c_str(), NULL);
+	if (!std::isfinite(sol.cost) || !std::isfinite(sol.time))
+		fatal("Malformed solution row: infinite cost or time");
 	sols->push_back(sol);
 	nsols++;
 }
\ No newline at end of file
-- 
2.43.0


From 37910d53c171d977d5a7d355d459f5d1c0dd7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 105/120] fix: anytime profile: solutions may have the same
 time

---
 search/anyprof/profile.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..08ca879 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -102,7 +102,9 @@ void AnytimeProfile::countsolutions(const std::vector<SolutionStream> &streams)
 			unsigned int curdt = 0;
 	
 			for (unsigned int j = i+1; j < stream.size(); j++) {
-				assert(stream[j].time > stream[i].time);
+				// Times are printed with a limited precision, so
+				// subsequent solutions may have the same time.
+				assert(stream[j].time >= stream[i].time);
 				assert(stream[j].cost <= stream[i].cost);
 	
 				unsigned int nextq = costbin(stream[j].cost);
-- 
2.43.0


From e0045e52d20c9cbf7243261f4676a5053d2a92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 106/120] fix: anytime profile: rounding does not lead beyond
 the last bin

---
 search/anyprof/profile.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/search/anyprof/profile.hpp b/search/anyprof/profile.hpp
index 99c77f5..e4a69ba 100644
--- a/search/anyprof/profile.hpp
+++ b/search/anyprof/profile.hpp
@@ -52,6 +52,12 @@ public:
 		return qqtprobs[qqtindex(q2, q1, dt)];
 	}
 
+	// lastbin returns the bin number, or the number of the
+	// last of the n bins if rounding led beyond it.
+	static unsigned int lastbin(double bin, unsigned int n) {
+		return bin < n ? bin : n - 1;
+	}
+
 	// ncost is the number of cost bins, and ntime
 	// is the number of time bins.
 	unsigned int ncost, ntime;
@@ -92,7 +98,7 @@ private:
 		if (c == maxcost)
 			return ncost-1;
 		double width = (maxcost-mincost)/ncost;
-		return (c-mincost)/width;
+		return lastbin((c-mincost)/width, ncost);
 	}
 
 	// timebin returns the bin into which the given
@@ -104,7 +110,7 @@ private:
 		if (dt == maxtime-mintime)
 			return ntime-1;
 		double width = (maxtime-mintime)/ntime;
-		return dt/width;
+		return lastbin(dt/width, ntime);
 	}
 
 	// qtcounts is an array of the number of solutions
@@ -144,10 +150,10 @@ public:
 		if (cost >= prof.maxcost || time >= prof.maxtime)
 			return true;
 
-		unsigned int q = (cost - prof.mincost) / qwidth;
+		unsigned int q = AnytimeProfile::lastbin((cost - prof.mincost) / qwidth, prof.ncost);
 		assert (q < prof.ncost);
 
-		unsigned int t = (time - prof.mintime) / twidth;
+		unsigned int t = AnytimeProfile::lastbin((time - prof.mintime) / twidth, prof.ntime);
 		assert (t < prof.ntime);
 
 		return policy[index(q, t)];
-- 
2.43.0


From f314eb1be84602ba4447e02435d4fd1cce3478cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 107/120] fix: anytime monitor: a profile may have a single
 time bin

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 08ca879..68efbc5 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -212,7 +212,7 @@ AnytimeMonitor::AnytimeMonitor(const AnytimeProfile &p, double fw, double tw) :
 	}
 
 	for (unsigned int q1 = 1; q1 < prof.ncost; q1++) {
-	for (long t = prof.ntime-2; t >= 0; t--) {
+	for (long t = (long) prof.ntime-2; t >= 0; t--) {
 
 		double vgo = 0;
 		double psum = 0;
-- 
2.43.0


From 0af41d87aa93e9b950ac5737ebe181c92c897f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 108/120] fix: anytime profile: save all digits of the extents
 and probabilities

---
 search/anyprof/profile.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 68efbc5..1860ca7 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -49,14 +49,14 @@ void AnytimeProfile::read(FILE *in) {
 
 void AnytimeProfile::save(FILE *out) const {
 	fprintf(out, "%u %u\n", ncost, ntime);
-	fprintf(out, "%g %g\n", mincost, maxcost);
-	fprintf(out, "%g %g\n", mintime, maxtime);
+	fprintf(out, "%.17g %.17g\n", mincost, maxcost);
+	fprintf(out, "%.17g %.17g\n", mintime, maxtime);
 	for (unsigned int i = 0; i < ncost*ntime; i++)
 		fprintf(out, "%u\n", qtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
 		fprintf(out, "%u\n", qqtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
-		fprintf(out, "%15.15g\n", qqtprobs[i]);
+		fprintf(out, "%.17g\n", qqtprobs[i]);
 }
 
 void AnytimeProfile::initbins(unsigned int cb, unsigned int tb) {
-- 
2.43.0


From 8172070fd03f2ca9d20a70aee7aa5bb6225be3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 109/120] fix: anytime profile: reject malformed profiles
 instead of crashing

---
 search/anyprof/profile.cc | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 1860ca7..74a823e 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -3,8 +3,12 @@
 #include "profile.hpp"
 #include "../../utils/utils.hpp"
 #include <limits>
+#include <cmath>
 #include <errno.h>
 
+// Maxentries is the greatest number of cost, cost, time triples.
+enum { Maxentries = 1u << 26 };
+
 AnytimeProfile::AnytimeProfile(unsigned int cb, unsigned int tb,
 		const std::vector<SolutionStream> &stream) {
 	initbins(cb, tb);
@@ -24,26 +28,45 @@ AnytimeProfile::AnytimeProfile(FILE *in) {
 }
 
 void AnytimeProfile::read(FILE *in) {
-	if (fscanf(in, "%u %u\n", &ncost, &ntime) != 2)
+	unsigned int nc, nt;
+	if (fscanf(in, "%u %u\n", &nc, &nt) != 2)
 		fatal("failed to read number of bins");
+	if (nc == 0 || nt == 0 || nc > Maxentries / nt || nc > Maxentries / (nc * nt))
+		fatal("invalid number of bins: %u %u", nc, nt);
 
 	if (fscanf(in, "%lg %lg\n", &mincost, &maxcost) != 2)
 		fatal("failed to read min and max cost");
 	if (fscanf(in, "%lg %lg\n", &mintime, &maxtime) != 2)
 		fatal("failed to read min and max time");
-
-	initbins(ncost, ntime);
+	if (!std::isfinite(mincost) || !std::isfinite(maxcost) || mincost > maxcost
+			|| !std::isfinite(maxcost - mincost))
+		fatal("invalid min and max cost: %g %g", mincost, maxcost);
+	if (!std::isfinite(mintime) || !std::isfinite(maxtime) || mintime > maxtime
+			|| !std::isfinite(maxtime - mintime))
+		fatal("invalid min and max time: %g %g", mintime, maxtime);
+
+	initbins(nc, nt);
 	for (unsigned int i = 0; i < ncost*ntime; i++) {
 		if (fscanf(in, "%u\n", &qtcounts[i]) != 1)
 			fatal("failed to read %uth qtcount", i);
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
 		if (fscanf(in, "%u\n", &qqtcounts[i]) != 1)
-			fatal("failed to read the %uth qqtcount");
+			fatal("failed to read the %uth qqtcount", i);
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
 		if (fscanf(in, "%lg\n", &qqtprobs[i]) != 1)
-			fatal("failed to read the %uth qqtprob");
+			fatal("failed to read the %uth qqtprob", i);
+	}
+
+	for (unsigned int qi = 0; qi < ncost; qi++) {
+	for (unsigned int dt = 0; dt < ntime; dt++) {
+		double sum = 0;
+		for (unsigned int qj = 0; qj <= qi; qj++)
+			sum += qqtprobs[qqtindex(qj, qi, dt)];
+		if (!(sum > 1-1e-8 && sum < 1+1e-8))
+			fatal("the probabilities for cost %u, time %u sum to %g", qi, dt, sum);
+	}
 	}
 }
 
-- 
2.43.0


From de7a94b4b04a11fa107d347271361c28abc15cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 110/120] fix: bestwt: print the usage if there are too few
 arguments

---
 search/anyprof/bestwt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/bestwt.cc b/search/anyprof/bestwt.cc
index 3e12356..3345060 100644
--- a/search/anyprof/bestwt.cc
+++ b/search/anyprof/bestwt.cc
@@ -19,7 +19,7 @@ struct Fields {
 };
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: bestwt <wf> <wt> <rdb root> [key=value*]");
 
 	char *end = NULL;
-- 
2.43.0


From 11ddb974acf01cf604b646fedd3411b082227f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 111/120] fix: bestwt: no crash if there are no data files or
 values

---
 search/anyprof/bestwt.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/search/anyprof/bestwt.cc b/search/anyprof/bestwt.cc
index 3345060..f07859f 100644
--- a/search/anyprof/bestwt.cc
+++ b/search/anyprof/bestwt.cc
@@ -67,6 +67,9 @@ int main(int argc, const char *argv[]) {
 		fclose(f);
 	}
 
+	if (avg.empty())
+		fatal("no data files");
+
 	double weight = avg.begin()->first;
 	for (auto i = avg.begin(); i != avg.end(); i++) {
 		if (i->second < avg[weight])
@@ -81,6 +84,8 @@ static void dfline(std::vector<std::string> &line, void *aux) {
 	const char *str;
 
 	Fields *fields = static_cast<Fields*>(aux);
+	if (line.size() < 3)
+		return;
 
 	if (line[0] == "#pair" && line[1] == "weight") {
 		str = line[2].c_str();
-- 
2.43.0


From a9edcb1febd3c840f2e3e823ff87b76932524339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 112/120] fix: addattrs: no crash if a pair has no key

---
 rdb/addattrs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/addattrs.cc b/rdb/addattrs.cc
index d5145df..2e97ef2 100644
--- a/rdb/addattrs.cc
+++ b/rdb/addattrs.cc
@@ -70,7 +70,7 @@ static void usage(int r) {
 }
 
 static void dfline(std::vector<std::string> &cols, void *aux) {
-	if (cols[0] != "#pair")
+	if (cols.size() < 2 || cols[0] != "#pair")
 		return;
 	std::pair<RdbAttrs*, const char*> *p = static_cast<std::pair<RdbAttrs*, const char*>*>(aux);
 	RdbAttrs *attrs = p->first;
-- 
2.43.0


From 0e8acc49248fbe0b764dfd0bc6685ffc48185eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 113/120] fix: runlendec: reject a literal that is too long
 instead of aborting

---
 utils/encode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/encode.cc b/utils/encode.cc
index 0e66508..87d1851 100644
--- a/utils/encode.cc
+++ b/utils/encode.cc
@@ -74,7 +74,8 @@ std::string runlendec(const std::string &data) {
 
 		// Not a run
 		assert (n + 1 >= 0);
-		assert (n + 1 <= Maxrun);
+		if (n + 1 > Maxrun)
+			fatal("runlendec: malformed literal");
 		unsigned int end = i + n + 1;
 		if (end > data.size())
 			fatal("runlendec: truncated data");
-- 
2.43.0


From a485c52760020cc2f06df0f60b66809577992717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 114/120] fix: gridnav randinst: reject a map without unblocked
 locations

---
 gridnav/randinst.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 8bcc884..819badd 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -31,6 +31,14 @@ int main(int argc, char *argv[]) {
 	GridMap map(mappath);
 	Rand r(seed);
 
+	bool anyopen = false;
+	for (unsigned int x = 1; x < map.w-1; x++) {
+		for (unsigned int y = 1; y < map.h-1; y++)
+			anyopen |= !map.blkd(map.index(x, y));
+	}
+	if (!anyopen)
+		fatal("%s: there are no unblocked locations", mappath.c_str());
+
 	// Get start and goal locations as any pair
 	// of unblocked locations.
 	unsigned int xs[2];
-- 
2.43.0


From 5bc533778ccb85595a952f35bcc7a421cbe3ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:54 +0000
Subject: [PATCH 115/120] fix: visnav rand: reject bad radii and vertex counts
 instead of aborting

---
 visnav/rand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index 9f398e4..010cb82 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -40,6 +40,11 @@ int main(int argc, char *argv[]) {
 			helpmsg(1);
 	}
 
+	if (!(Minrad >= 0 && Minrad < Maxrad && Maxrad < 0.5))
+		fatal("The radii must be between 0 and 0.5, and the minimum must be less than the maximum");
+	if (Maxverts < 3)
+		fatal("Polygons need at least 3 vertices");
+
 	if (stats)
 		fprintf(stderr, "seed: %llu\n", (long long unsigned int)randgen.seed());
 
-- 
2.43.0


From 8941f2d6e297308c85f6da2328c8cb0e01ff6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:54 +0000
Subject: [PATCH 116/120] fix: memory limit: reject values that are no number
 or out of range

---
 search/search.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/search/search.cc b/search/search.cc
index 9eea519..60f62d3 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -6,6 +6,7 @@
 #include <cstring>
 #include <cstdio>
 #include <cerrno>
+#include <limits>
 #include <sys/time.h>
 #include <sys/resource.h>
 #include "lsslrtastar.hpp"	// LookaheadLimit
@@ -61,15 +62,17 @@ void Limit::memlimit(const char *mstr) {
 	double m = strtod(mstr, &endptr);
 
 	if (*endptr == 'G')
-		mem = m * 1e9;
+		m *= 1e9;
 	else if (*endptr == 'M')
-		mem = m *1e6;
+		m *= 1e6;
 	else if (*endptr == 'K')
-		mem = m *1e3;
+		m *= 1e3;
  			else if (*endptr != '\0')
 		fatal("failed to parse memory value %s\n", mstr);
-	else
-		mem = m;
+
+	if (endptr == mstr || !(m >= 0 && m < (double) std::numeric_limits<rlim_t>::max()))
+		fatal("invalid memory value %s\n", mstr);
+	mem = m;
 
 	struct rlimit lim;
 	int r = getrlimit(RLIMIT_AS, &lim);
-- 
2.43.0


From b6b8fc3651eafda0b41c8e44ec45ffe9f371f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 117/120] fix: polygon maps: reject a bitmap without cells
 instead of dividing by zero

---
 visnav/grid2poly.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/visnav/grid2poly.cc b/visnav/grid2poly.cc
index 92a736c..60f77b3 100644
--- a/visnav/grid2poly.cc
+++ b/visnav/grid2poly.cc
@@ -140,7 +140,8 @@ struct Comp {
 };
 
 PolyMap::PolyMap(const bool blkd[], unsigned int w, unsigned int h) {
-
+	if (w == 0 || h == 0)
+		fatal("The map has no cells");
 	if (std::numeric_limits<unsigned int>::max() / h < w)
 		fatal("Map dimensions are too large");
 
-- 
2.43.0


From a6f9ca8a3f5a28ee9c45f47fcf33be1dd347f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 118/120] fix: polygon maps: reject a bitmap that has no
 outline instead of looping for ever

---
 visnav/grid2poly.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visnav/grid2poly.cc b/visnav/grid2poly.cc
index 60f77b3..7d4c66a 100644
--- a/visnav/grid2poly.cc
+++ b/visnav/grid2poly.cc
@@ -26,7 +26,11 @@ struct Comp {
 		Pose cur(minx, miny, Pose::Up);
 		pts.push_back(geom2d::Pt(minx, miny));
 
+		// Each cell is entered at most once from each side.
+		unsigned long nposes = 4ul * w * h;
 		for ( ; ; ) {
+			if (nposes-- == 0)
+				fatal("Failed to outline a component, the border of the map must be blocked");
 			Pose next = clockwise(cur);
 
 			if (cur.dir == next.dir) {
-- 
2.43.0


From d2932f17f793c005e326e79b8a1f7d64be78bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:55 +0000
Subject: [PATCH 119/120] fix: gridnav: no out of bounds access for a map type
 that begins with a zero byte

---
 gridnav/gridmap.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index c736646..15cdc45 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -190,8 +190,7 @@ void GridMap::load_sturtevant(FILE *in) {
 	char typ[128];
 	if (!fgets(typ, sizeof(typ), in))
 		readfail("Failed to read the map type");
-	if (typ[strlen(typ)-1] == '\n')
-		typ[strlen(typ)-1] = '\0';
+	typ[strcspn(typ, "\n")] = '\0';
 	if (strcmp(typ, "octile") != 0)
 		readfail("Unsupported map type [%s]", typ);
 
-- 
2.43.0


From 964e4bf8e9e6e913549286d67659c9da9fa5f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 120/120] fix: gridnav: life costs of tall maps do not overflow

---
 gridnav/gridnav.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 85f2180..567897f 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -18,7 +18,7 @@ struct GridNav {
 	struct Cost {
 		Cost() : units(0), sqrts(0), val(0) { }
 
-		explicit Cost(int u, int s = 0) : units(u), sqrts(s) { compute(); }
+		explicit Cost(long u, long s = 0) : units(u), sqrts(s) { compute(); }
 
 		Cost &operator=(const Cost &o) {
 			units = o.units;
@@ -81,7 +81,8 @@ struct GridNav {
 			val = units + sqrts * sqrt(2);
 		}
 
-		int units, sqrts;
+		// Life costs on a tall map do not fit in an int.
+		long units, sqrts;
 		double val;
 	};
 
@@ -281,19 +282,19 @@ private:
 	}
 
 	// lifecost is the cost of moving out of cell y.
-	int lifecost(int y) const {
-		return map->h - y - 3;
+	long lifecost(int y) const {
+		return (long) map->h - y - 3;
 	}
 
 	// sumbetween returns the sum of n numbers
 	// between a and b, inclusive.
-	int sumbetween(int a, int b, int n) const {
+	long sumbetween(long a, long b, long n) const {
 		return (a + b)*n / 2;
 	}
 
 	// costfrom returns the life cost for moving between
 	// y0 and y1.
-	int costfrom(int y0, int y1) const {
+	long costfrom(int y0, int y1) const {
 		int last = y1;
 		if (y0 > y1)
 			last++;
@@ -311,9 +312,9 @@ private:
 		int y = c0.second - 1, gy = c1.second - 1;
 		int maxy = map->h - 2 - 1;
 		int dx = abs(gx - x);
-		int overcost = lifecost(y > gy ? y : gy);
-		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, maxy) + costfrom(maxy, gy);
+		long overcost = lifecost(y > gy ? y : gy);
+		long upover = dx*overcost + costfrom(y, gy);
+		long upoverdown = costfrom(y, maxy) + costfrom(maxy, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
@@ -340,7 +341,7 @@ private:
 		int up = maxup < extra/2 ? maxup : extra/2;
 		int highy = (y > gy ? y : gy) + up;
 		int across = extra - 2*up;
-		int c = costfrom(y, highy) + across*lifecost(highy) + costfrom(highy, gy);
+		long c = costfrom(y, highy) + across*lifecost(highy) + costfrom(highy, gy);
 		return std::make_pair(Cost(c), dx);
 	}
 
-- 
2.43.0

