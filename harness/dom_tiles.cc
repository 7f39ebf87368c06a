// The sliding tile domain against its rules.
#define VH_MAIN
#include "solver.hpp"
#include "tiles/mdist.hpp"
using namespace vh;
enum { W = WIDTH, H = HEIGHT, N = W * H };

static std::vector<int> parse(const std::string &k) { std::vector<int> v; const char *p = k.c_str(); char *e; for (;;) { long x = strtol(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } return v; }
static std::string show(const std::vector<int> &v) {
	std::string s;
	for (int i = 0; i < N; i++) s += fmt("%2d%s", v[i], i == N - 1 || i % W == W - 1 ? "\n" : "\t");
	return s;
}
struct TRef : dt::Ref {
	std::vector<int> start, goalpos;	// tile at a position, position of a tile
	std::string init() { return show(start); }
	void succs(const std::string &k, std::vector<dt::Succ> &out) {
		std::vector<int> c = parse(k);
		int b = std::find(c.begin(), c.end(), 0) - c.begin(), x = b % W, y = b / W;
		static const int dx[] = { 0, 0, -1, 1 }, dy[] = { -1, 1, 0, 0 };
		for (int i = 0; i < 4; i++) {
			int nx = x + dx[i], ny = y + dy[i];
			if (nx < 0 || ny < 0 || nx >= W || ny >= H) continue;
			std::vector<int> t = c; std::swap(t[b], t[ny * W + nx]);
			out.push_back(dt::Succ{show(t), 1});
		}
	}
	bool goal(const std::string &k) { std::vector<int> c = parse(k); for (int i = 0; i < N; i++) if (goalpos[c[i]] != i) return false; return true; }
	double h(const std::string &k) {
		std::vector<int> c = parse(k);
		int s = 0;
		for (int i = 0; i < N; i++) if (c[i]) s += abs(goalpos[c[i]] % W - i % W) + abs(goalpos[c[i]] / W - i / W);
		return s;
	}
	double d(const std::string &k) { return h(k); }
};

static void shuffle(Rng &r, std::vector<int> &v) { for (int i = v.size() - 1; i > 0; i--) std::swap(v[i], v[r.in(0, i)]); }
static void instance(Rng &r) {
	TRef t;
	t.name = fmt("tiles%dx%d", W, H);
	std::vector<int> at;	// tile at each position, in the goal
	for (int i = 0; i < N; i++) at.push_back(i);
	if (r.in(0, 1)) shuffle(r, at);
	t.goalpos.resize(N);
	for (int i = 0; i < N; i++) t.goalpos[at[i]] = i;
	t.start = at;
	if (r.in(0, 2)) shuffle(r, t.start);
	else {	// close to the goal
		int n = r.in(0, 12);
		while (n--) { std::vector<dt::Succ> ss; t.succs(show(t.start), ss); t.start = parse(ss[r.in(0, ss.size() - 1)].key); }
	}
	t.inst = fmt("%d %d\nstarting positions for each tile:\n", W, H);
	for (int i = 0; i < N; i++) t.inst += fmt("%d\n", (int) (std::find(t.start.begin(), t.start.end(), i) - t.start.begin()));
	t.inst += "goal positions:\n";
	for (int i = 0; i < N; i++) t.inst += fmt("%d\n", t.goalpos[i]);
	FILE *f = dt::memfile(t.inst);
	TilesMdist d(f);
	fclose(f);
	if (sv::wanted()) { sv::Opts o;
		o.valid = [](const std::string &t) {
			// Whatever the labels are.
			std::vector<long> v;
			for (const char *p = t.c_str(); *p; ) {
				if (!isdigit((unsigned char) *p)) { p++; continue; }
				auto x = sv::numbers(p);
				if (x.empty()) return false;
				v.push_back(x[0]);
				while (isdigit((unsigned char) *p)) p++;
			}
			size_t n = Tiles::Ntiles;
			return v.size() >= 2 * n + 2 && sv::permutation(std::vector<long>(v.begin() + 2, v.end()), n) && sv::permutation(std::vector<long>(v.begin() + 2 + n, v.end()), n);
		};
		o.consistent = o.reversible = o.unit = o.lvl = true; sv::solve(r, o, "tiles", t.inst, sv::optimum(t, 30000), 0); return; }
	bool exact = ctx.prop == "P14" && N <= 9;
	dt::explore(d, t, r, exact ? 200000 : 0, exact ? 3000 : 100, 2, 60);
}
// Every state of a few instances has its exact cost; otherwise, only some of the states are visited.
std::vector<Kind> vh::kinds() { return { { "tiles", instance, 1 } }; }
