// Anything at all as the input of the tools and decoders (P24).
#define VH_MAIN
#include "mutate.hpp"
#include "invalid.hpp"
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include "search/search.hpp"
#include "search/anyprof/profile.hpp"
#include <unistd.h>
#include <sys/stat.h>
using namespace vh;
using sv::Mut; using sv::Shape;

typedef std::vector<std::string> Args;
static std::string show(const Args &a) { std::string s; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + a[i]; return s; }
static std::string flat(std::string s) { if (s.size() > 700) s.resize(700); for (char &c : s) if (c == '\n') c = '/'; return s; }
static const char *prog(const char *n) { return getenv((std::string("PROG_") + n).c_str()); }

// Runs a tool on mutations of a well-formed input, that it has to accept.
static void tool(Rng &r, const std::string &name, Args a, const std::string &in, const Shape &o, bool isfile = false, int n = 6) {
	std::string path = scratch() + "/input";
	a.insert(a.begin(), prog(name.c_str()));
	for (auto &x : a) if (x == "@") x = path;
	for (int k = -1; k < n; k++) {
		Mut m;
		m.text = in;
		bool bad = k >= 0 && r.in(0, 2) == 0 && sv::invalidate(r, name, in, m.text, m.how);
		if (bad) m.how = " " + m.how;
		else if (k >= 0) m = sv::mutate(r, in, o);
		if (isfile) writefile(path, m.text);
		bool vg = k >= 0 && r.in(0, 59) == 0 && prog((name + "_plain").c_str());
		Args b = a;
		if (vg) { b[0] = prog((name + "_plain").c_str()); const Args v = { "/usr/bin/valgrind", "-q", "--error-exitcode=98", "--leak-check=no" }; b.insert(b.begin(), v.begin(), v.end()); }
		std::string what = name + " " + show(a) + " with" + m.how + ": [" + flat(m.text) + "]";
		note("%s", what.c_str());
		Child c = run(b, isfile ? "" : m.text, vg ? 60 : 10, scratch());
		if (k < 0) { if (!c.sane() || c.code) fail(name + ": a well-formed input is rejected", "%s: %s", c.describe().c_str(), what.c_str()); stat("well-formed inputs"); continue; }
		stat(vg ? "malformed inputs under valgrind" : "malformed inputs");
		stat("malformed inputs of " + name);
		sv::judged(c, m, true, what);
		if (bad && c.exited && c.code == 0) fail("malformed input: an invalid one is accepted", "%s", what.c_str());
		if (bad) { stat("invalid inputs rejected"); stat("rejected:" + m.how); }
		sig(hashstr(what));
		if (wantsample()) sample("%s: exit %d %s", what.substr(0, 300).c_str(), c.code, c.err.substr(0, 100).c_str());
	}
}

static std::string polys(Rng &r) {
	int w = r.in(1, 4), h = r.in(1, 3), n = 0;
	std::string t;
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
		if (r.in(0, 2) == 0) continue;
		n++;
		double a = r.in(1, 7) / 16.0, X = x, Y = y;
		if (r.in(0, 1)) t += fmt("4 %g %g %g %g %g %g %g %g\n", X, Y, X, Y + a, X + a, Y + a, X + a, Y);
		else t += fmt("3 %g %g %g %g %g %g\n", X, Y, X, Y + a, X + a, Y);
	}
	std::string b;
	if (r.in(0, 2) == 0) b = fmt("bound: 4 -1 -1 -1 %d %d %d %d -1\n", h + 1, w + 1, h + 1, w + 1);
	if (!n) { n = 1; t = "3 0 0 0 0.25 0.5 0\n"; }
	return b + fmt("%d polygons\n", n) + t;
}
static std::vector<std::string> rows(Rng &r, int w, int h, char blk, bool border) {
	std::vector<std::string> v(h, std::string(w, ' '));
	int dens = r.in(0, 50);
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if ((border && (!x || !y || x == w - 1 || y == h - 1)) || r.in(0, 99) < dens) v[y][x] = blk;
	int x = r.in(border, w - 1 - border), y = r.in(border, h - 1 - border);
	v[y][x] = ' ';
	return v;
}
static std::string grid(Rng &r) {
	int w = r.in(1, 7), h = r.in(1, 6);
	auto v = rows(r, w, h, '#', false);
	std::string t;
	if (r.in(0, 1)) {
		t = fmt("type octile\nheight %d\nwidth %d\nmap\n", h, w);
		for (auto &s : v) { for (char c : s) t += c == '#' ? "@OTSW"[r.in(0, 4)] : ".G"[r.in(0, 1)]; t += '\n'; }
	} else {
		t = fmt("%d %d\nBoard:\n", h, w);
		for (auto &s : v) t += s + "\n";
		t += r.in(0, 1) ? "Unit\n" : "Life\n";
		t += r.in(0, 1) ? "Eight-way\n" : "Four-way\n";
	}
	return t;
}

static void maps(Rng &r) {
	Shape o;
	switch (r.in(0, 8)) {
	case 7: {
		int w = r.in(1, 6), h = r.in(1, 6);
		std::string root = scratch() + "/maps", map = fmt("type octile\nheight %d\nwidth %d\nmap\n", h, w), in = "version 1\n";
		for (int y = 0; y < h; y++) map += std::string(w, ".G"[r.in(0, 1)]) + "\n";
		mkdir(root.c_str(), 0777);
		writefile(root + "/a.map", map);
		for (int i = r.in(1, 4); i > 0; i--) {
			int a = r.in(0, w - 1), b = r.in(0, h - 1), c = r.in(0, w - 1), d = r.in(0, h - 1), u = abs(a - c), v = abs(b - d);
			in += fmt("%d\ta.map\t%d\t%d\t%d\t%d\t%d\t%d\t%.8f\n", i, w, h, a, b, c, d, std::max(u, v) - std::min(u, v) + sqrt(2) * std::min(u, v));
		}
		o.tail = 9; o.head = [](const std::string&) { return 2; };
		Args a = { "astar", "-maproot", root + "/" };
		if (r.in(0, 2)) { tool(r, "scenario", a, in, o); break; }
		for (int k = 0; k < 6; k++) {	// the map is malformed
			Mut m;
			bool bad = r.in(0, 1) && sv::invalidate(r, "gridmap", map, m.text, m.how);
			if (bad) m.how = " " + m.how; else m = sv::mutate(r, map, Shape());
			writefile(root + "/a.map", m.text);
			a.insert(a.begin(), prog("scenario"));
			std::string what = "scenario of [" + flat(in) + "] over a map with" + m.how + ": [" + flat(m.text) + "]";
			note("%s", what.c_str());
			Child c = run(a, in, 10, scratch());
			a.erase(a.begin());
			stat("malformed maps of scenarios");
			sv::judged(c, m, true, what);
			if (bad && c.exited && c.code == 0) fail("malformed input: an invalid one is accepted", "%s", what.c_str());
			sig(hashstr(what));
		}
		break; }
	case 8: {
		int w = r.in(2, 5), h = r.in(1, 4);
		auto v = std::vector<std::string>(h, std::string(w, '_'));
		for (int i = r.in(0, 3); i > 0; i--) v[r.in(0, h - 1)][r.in(0, w - 1)] = '*';
		v[r.in(0, h - 1)][r.in(0, w - 1)] = '@';
		std::string t = fmt("%d\n%d\n", w, h);
		for (auto &x : v) t += x + "\n";
		o.cells = true;
		tool(r, "cs730", { r.in(0, 1) ? "astar" : "greedy" }, t, o);
		break; }
	case 0: tool(r, "mkgraph", {}, polys(r), o); break;
	case 1: {
		Child g = run({ prog("mkgraph") }, polys(r), 20, scratch());
		if (!g.sane() || g.code) fail("mkgraph: a well-formed input is rejected", "%s", g.describe().c_str());
		bool file = r.in(0, 1);
		tool(r, "vinst", file ? Args(1, "@") : Args(), g.out, o, file);
		break; }
	case 2: {
		int w = r.in(3, 7), h = r.in(3, 6);
		std::string t = fmt("P1\n%s%d %d\n", r.in(0, 1) ? "# a remark\n" : "", w, h);
		for (auto &s : rows(r, w, h, '1', true)) { for (char c : s) t += c == '1' ? "1 " : "0 "; t += "\n"; }
		o.cells = true;
		tool(r, "pbm2poly", {}, t, o);
		break; }
	case 3: tool(r, "grid2poly", {}, grid(r), o); break;
	case 4: tool(r, "gridrand", { "-m", "@", "-s", fmt("%d", (int) r.in(1, 1000)) }, grid(r), o, true); break;
	case 5: {
		int w = r.in(3, 7), h = r.in(3, 6);
		std::string t = fmt(" 1 %d %d 0\n", w, h);
		for (auto &s : rows(r, w, h, '#', true)) t += s + "\n";
		o.cells = true;
		tool(r, "plat2poly", {}, t, o);
		break; }
	default: {
		int w = r.in(1, 6), h = r.in(1, 5);
		std::string t = fmt("P3\n%d %d\n255\n", w, h);
		for (int i = 0; i < w * h; i++) t += fmt("%d %d %d\n", (int) r.in(0, 255), (int) r.in(0, 255), (int) r.in(0, 255));
		tool(r, "ppm2grid", {}, t, o); }
	}
}
static std::string datafile(Rng &r) {
	std::string t = "#start data file format 4\n";
	double c = r.in(50, 500), tm = 0;
	t += "#pair  \"wall start date\"\t\"Mon Jan 1\"\n#pair  \"algorithm\"\t\"arastar\"\n#pair  \"weight\"\t\"3\"\n";
	t += "#altcols  \"incumbent\"\t\"incumbent num\"\t\"incumbent nodes expanded\"\t\"incumbent nodes generated\"\t\"incumbent weight\"\t\"incumbent solution bound\"\t\"incumbent solution cost\"\t\"incumbent wall time\"\n";
	for (int i = r.in(1, 6); i > 0; i--) {
		tm += r.in(1, 100) / 100.0;
		t += fmt("#altrow  \"incumbent\"\t%d\t%d\t%d\t%g\t%g\t%g\t%g\n", i, (int) r.in(0, 1000), (int) r.in(0, 1000), 1 + i / 2.0, 1 + i / 2.0, c, tm);
		c -= r.in(0, 30);
	}
	t += fmt("#pair  \"final sol cost\"\t\"%g\"\n#pair  \"total wall time\"\t\"%g\"\n", c, tm);
	return t + "#end data file format 4\n";
}
static void databases(Rng &r) {
	Shape o;
	std::string root = scratch() + "/db";
	wipe(root); mkdir(root.c_str(), 0777);
	o.tail = 1; o.head = [](const std::string&) { return 0; };
	switch (r.in(0, 5)) {
	case 0: {	// A file that was cut is no complete one.
		bool file = r.in(0, 1);
		tool(r, "dfcmplt", file ? Args(1, "@") : Args(), datafile(r), o, file);
		break; }
	case 1: tool(r, "addattrs", { "@", "key=value", "weight=4" }, datafile(r), o, true); break;
	case 2: case 3: {
		bool wt = r.in(0, 1);
		RdbAttrs a;
		a.push_back("alg", "ara"); a.push_back("num", "1");
		std::string t = datafile(r), p = pathfor(root.c_str(), a);
		writefile(p, t);
		for (int k = 0; k < 6; k++) {
			Mut m = sv::mutate(r, t, o);
			writefile(p, m.text);
			Args b = wt ? Args{ prog("bestwt"), "1", "1", root, "alg=ara" } : Args{ prog("mkprof"), root, fmt("%d", (int) r.in(1, 5)), fmt("%d", (int) r.in(1, 5)), "alg=ara" };
			std::string what = (wt ? "bestwt " : "mkprof ") + show(b) + " with" + m.how + ": [" + flat(m.text) + "]";
			note("%s", what.c_str());
			Child c = run(b, "", 10, scratch());
			stat("malformed data files");
			sv::judged(c, m, true, what);
			wipe(root); mkdir(root.c_str(), 0777);
			writefile(pathfor(root.c_str(), a), t);
			sig(hashstr(what));
		}
		break; }
	case 4: {	// profiles
		std::vector<AnytimeProfile::SolutionStream> ss(1);
		double c = 100, t = 0;
		for (int i = r.in(2, 6); i > 0; i--) { AnytimeProfile::Solution s = { c, t }; ss[0].push_back(s); c -= r.in(1, 9); t += r.in(1, 9) / 10.0; }
		AnytimeProfile p(r.in(1, 3), r.in(1, 3), ss);
		char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
		p.save(f); fclose(f);
		std::string text(b, n); free(b);
		if (r.in(0, 1)) tool(r, "sptcounts", { "@" }, text, Shape(), true);
		else tool(r, "sptpolicy", { "@", "1", fmt("%g", r.in(0, 100) / 10.0) }, text, Shape(), true);
		break; }
	default: {
		std::string t = "version 1.0\n";
		for (int i = r.in(1, 4); i > 0; i--) t += fmt("%d\tmaps/a.map\t512\t512\t%d\t%d\t%d\t%d\t%.8f\n", i, (int) r.in(0, 500), (int) r.in(0, 500), (int) r.in(0, 500), (int) r.in(0, 500), r.in(0, 999) / 7.0);
		o.tail = 9; o.head = [](const std::string&) { return 2; };
		tool(r, "scenario2rdb", { root, "@" }, t, o, true); }
	}
	wipe(root);
}

// Decoders and parsers of the library, in a child as they end by fatal().
static std::string junk(Rng &r, const char *alpha) {
	std::string s;
	int n = r.in(0, 3) ? r.in(0, 30) : r.in(0, 600), al = strlen(alpha);
	for (int i = 0; i < n; i++) s += r.in(0, 9) ? alpha[r.in(0, al - 1)] : (char) r.in(0, 255);
	return s;
}
// Valid is 1 for a well-formed string, 0 for a malformed one, and -1 when that isn't judged.
static void incase(Rng &r, const char *name, const std::string &s, std::function<void()> f, int valid = -1) {
	note("%s of [%s]", name, flat(s).c_str());
	Child c = inchild([&]() { f(); return 0; }, 10);
	stat(std::string("strings given to ") + name);
	std::string hex; for (unsigned char ch : s.substr(0, 200)) hex += fmt("%02x", ch);
	std::string what = std::string(name) + " of [" + flat(s) + "] " + hex;
	sv::Mut m; m.text = s;
	sv::judged(c, m, true, what);
	if (valid == 0 && c.exited && c.code == 0) fail(std::string(name) + ": a malformed string is accepted", "%s", what.c_str());
	if (valid == 1 && c.code) fail(std::string(name) + ": a well-formed string is rejected", "%s: %s", c.describe().c_str(), what.c_str());
	if (valid >= 0) stat(valid ? "well-formed strings accepted" : "malformed strings rejected");
	sig(mix(hashstr(name), hashstr(s)));
}
static bool isbase64(const std::string &s) {
	size_t n = s.size(), pad = 0;
	if (n % 4) return false;
	while (pad < n && s[n - 1 - pad] == '=') pad++;
	if (pad > 2) return false;
	for (size_t i = 0; i < n - pad; i++) if (!isalnum((unsigned char) s[i]) && s[i] != '+' && s[i] != '/') return false;
	return true;
}
static int isrunlen(const std::string &s) {
	for (size_t i = 0; i < s.size(); ) {
		signed char n = s[i++];
		if (n == 127 || n <= -127) return -1;	// longer than what is written
		if (n < 0) { if (i++ >= s.size()) return 0; }
		else if ((i += n + 1) > s.size()) return 0;
	}
	return 1;
}
static void library(Rng &r) {
	for (int k = 0; k < 10; k++) switch (r.in(0, 7)) {
	case 0: {
		std::string s = junk(r, "ABCDwxyz0189+/=");
		if (r.in(0, 1)) s = base64enc(junk(r, "abc"));
		if (r.in(0, 1) && !s.empty()) s.resize(r.in(0, s.size()));
		incase(r, "base64dec", s, [&]() { base64dec(s); }, isbase64(s));
		break; }
	case 1: {
		std::string s = junk(r, "\001\002\003\377\376\200\177a");
		if (r.in(0, 1)) s = runlenenc(junk(r, "aab"));
		if (r.in(0, 1) && !s.empty()) s.resize(r.in(0, s.size()));
		incase(r, "runlendec", s, [&]() { runlendec(s); }, isrunlen(s));
		break; }
	case 2: { std::string s = junk(r, "\"\" \tab\\\n"); incase(r, "tokens", s, [&]() { tokens(s); }, std::count(s.begin(), s.end(), '"') % 2 == 0); break; }
	case 3: {
		sv::Shape o; o.tail = 1; o.head = [](const std::string&) { return 0; };
		std::string s = r.in(0, 1) ? sv::mutate(r, datafile(r), o).text : junk(r, "#pair \"\t\nalt");
		incase(r, "dfread", s, [&]() { FILE *f = strfile(s); dfread(f, [](std::vector<std::string> &t, void*) { if (t.empty()) abort(); }, NULL, NULL); fclose(f); });
		break; }
	case 4: { std::string s = junk(r, "a=b/ ="); incase(r, "attrargs", s, [&]() { const char *a[] = { s.c_str() }; attrargs(1, a); }); break; }
	case 5: {
		std::vector<std::string> v;
		const char *w[] = { "-gend", "-expd", "-mem", "-cputime", "-walltime", "-1", "3K", "1G", "x", "", "1e99", "2M", "9999999999999999999999", "astar", "-" };
		for (int i = r.in(0, 5); i > 0; i--) v.push_back(r.pick(std::vector<std::string>(w, w + 15)));
		std::string s; std::vector<const char*> av; for (auto &x : v) { s += x + " "; av.push_back(x.c_str()); }
		av.push_back(NULL);	// as of a main program
		incase(r, "Limit", s, [&]() { Limit l(v.size(), av.data()); });
		break; }
	case 6: {
		std::string s = junk(r, "/.ab~");
		incase(r, "path helpers", s, [&]() { basename(s); dirname(s); pathcat(s, "x"); pathcat("x", s); });
		break; }
	default: {
		std::string s = junk(r, "\n\r ab");
		incase(r, "readline", s, [&]() { FILE *f = strfile(s); while (readline(f)) ; fclose(f); }); }
	}
}
// Command lines of the tools.
static void options(Rng &r) {
	struct T { const char *name; Args opts; };
	static const std::vector<T> ts = {
		{ "generator", { "-w", "3", "-h", "3", "-n", "2", "-seed", "5", "-d", "." } },
		{ "mkinst", { "-nsegs", "3", "-width", "20", "-height", "20", "-nangles", "4", "-maxr", "2", "-minr", "1", "-seed", "4" } },
		{ "trafficgen", { "4", "4", "2", "7" } },
		{ "mkseedinst", { "-width", "5", "-height", "5", "-prob", "0.2", "-seed", "3", "-lifecost", "-eightway" } },
		{ "gridrand", { "-m", "map", "-s", "4" } },
		{ "vrand", { "-npolys", "3", "-nverts", "5", "-minrad", "0.01", "-maxrad", "0.02", "-o", "out", "-stats" } },
		{ "vinst", { "x" } }, { "mkgraph", {} }, { "pbm2poly", {} }, { "grid2poly", {} }, { "plat2poly", {} }, { "ppm2grid", {} },
		{ "scenario2rdb", { "db", "x" } }, { "withattrs", { ".", "a=b" } }, { "pathfor", { "db", "a=b", "c=d" } }, { "pathattrs", { "x/y/z" } },
		{ "addattrs", { "x", "a=b" } }, { "dfcmplt", { "x" } }, { "mkprof", { "db", "3", "3", "alg=x" } }, { "bestwt", { "1", "1", "db", "alg=x" } },
		{ "sptcounts", { "x" } }, { "sptpolicy", { "x", "1", "1" } },
	};
	for (int k = 0; k < 4; k++) {
		const T &t = r.pick(ts);
		std::string dir = scratch() + "/cwd";
		wipe(dir); mkdir(dir.c_str(), 0777);
		writefile(dir + "/map", "2 2\nBoard:\n  \n  \nUnit\nFour-way\n");
		Args a = t.opts;
		a.insert(a.begin(), prog(t.name));
		bool num = false;	// a number of its own choice may be too much
		for (int i = r.in(1, 3); i > 0; i--) {
			static const Args vals = { "-1", "0", "x", "", "-", "1e9", "-h", "nan", "=", "a", "1", "2", "0.5", "3x", "-zz", "%s%n" };
			size_t at = r.in(1, a.size());
			int op = r.in(0, 3);
			if (op == 0 && at < a.size()) a.erase(a.begin() + at);
			else if (op == 1) a.resize(at);
			else if (op == 2 && at < a.size()) { a[at] = r.pick(vals); num = true; }
			else { a.insert(a.begin() + at, r.pick(vals)); num = true; }
		}
		std::string what = std::string(t.name) + " " + show(a);
		note("%s", what.c_str());
		Child c = run(a, r.in(0, 1) ? "" : grid(r), 5, dir);
		stat("command lines of tools");
		wipe(dir);
		sig(hashstr(what));
		// Random placement may go on for ever where there is no room.
		if ((num || std::string(t.name) == "vrand") && (c.timeout || sv::outofmemory(c))) { stat("ran out of resources"); continue; }
		if (!c.sane()) fail(std::string(t.name) + ": crash or hang", "%s: %s", c.describe().c_str(), what.c_str());
		stat(c.code ? "rejected" : "accepted");
		if (c.code && c.err.empty() && c.out.empty() && std::string(t.name) != "dfcmplt") fail(std::string(t.name) + ": rejected without a message", "%s", what.c_str());
	}
}

std::vector<Kind> vh::kinds() { return { { "maps", maps, 5 }, { "databases", databases, 4 }, { "library", library, 4 }, { "options", options, 3 } }; }
