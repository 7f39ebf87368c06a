// The results database against a plain map of attribute sets (P21).
#define VH_MAIN
#include "vh.hpp"
#include "rdb/rdb.hpp"
#include "utils/utils.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

typedef std::map<std::string, std::string> Set;
typedef std::vector<std::string> Keys;

static std::string showset(const Set &s) {
	std::string r;
	for (auto &p : s) r += (r.empty() ? "{" : ", ") + p.first + "=" + p.second;
	return r.empty() ? "{}" : r + "}";
}
static bool within(const Set &a, const Set &b) {
	for (auto &p : a) { auto it = b.find(p.first); if (it == b.end() || it->second != p.second) return false; }
	return true;
}
// Names of files are made of any characters but slashes.
static std::string word(Rng &r, int style, bool key) {
	static const char *plain[] = { "alg", "wt", "num", "type", "domain", "wall time", "level", "a", "b", "c", "0", "1", "2", "17", "0.5", "1e+06", "-3", "astar", "wastar", "tiles", ".5", "KE", "KEY", "map~", "UNSPECIFIED0", "unspecified" };
	for (;;) {
		std::string w;
		if (style == 0 || r.in(0, 3) == 0) w = plain[r.in(0, (int) (sizeof plain / sizeof *plain) - 1)];
		else if (style == 1) {
			static const char *odd[] = { "x KEY=y", "MONKEY=3", "a=b", "=", "=x", "x=", " ", " x", "x ", "..x", "...", ".x", "*", "$HOME", "-h", "~", "\\", "'", "`", "#pair", "%s", "%n", "a\tb", "\xc3\xa9", "\xff\xfe", "()", "&;|" };
			w = odd[r.in(0, (int) (sizeof odd / sizeof *odd) - 1)];
			if (r.in(0, 1)) w += plain[r.in(0, 20)];
		} else {
			int n = r.in(1, r.in(0, 20) ? 6 : 240);
			for (int i = 0; i < n; i++) w += (char) (r.in(0, 1) ? r.in(1, 255) : r.in(32, 126));
		}
		if (w.empty() || w == "." || w == ".." || w == "UNSPECIFIED" || w.find('/') != std::string::npos) continue;
		if (!key && w.compare(0, 4, "KEY=") == 0) continue;
		return w;
	}
}
static RdbAttrs attrs(const Set &s, const Keys &order) {
	RdbAttrs a;
	for (auto &k : order) a.push_back(k, s.at(k));
	return a;
}
static Keys keysof(const Set &s) { Keys k; for (auto &p : s) k.push_back(p.first); return k; }
static Set setof(RdbAttrs a) {
	Set s;
	for (auto &k : a.getkeys()) s[k] = a.lookup(k);
	return s;
}
static std::string lines(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += (s.empty() ? "" : " | ") + x; return s; }

// The arguments that name a set of attributes.
static bool argsfor(Rng &r, const Set &s, const Keys &order, std::vector<std::string> &args) {
	for (auto &k : order) {
		if (k.find('=') != std::string::npos) return false;	// the first one ends the key
		if (k.find('\n') != std::string::npos || s.at(k).find('\n') != std::string::npos) return false;
		std::string rest = k + "=" + s.at(k);
		// Spaces within keys may separate arguments.
		size_t p, left = k.size();
		if (r.in(0, 1)) while ((p = rest.find(' ')) != std::string::npos && p > 0 && p + 1 < left && rest[p + 1] != ' ') { args.push_back(rest.substr(0, p)); rest = rest.substr(p + 1); left -= p + 1; }
		args.push_back(rest);
	}
	return true;
}

struct Db {
	std::string root, what;
	std::map<std::string, Set> bypath;		// every path handed out
	std::map<std::string, std::string> file;	// and its contents
	bool compatible(const Set &s) const {
		for (auto &p : bypath) if (p.second != s && (within(p.second, s) || within(s, p.second))) return false;
		return true;
	}
};

static std::string viaprog(Rng &r, const char *name, const std::string &root, const Set &s, const Keys &order, bool &used) {
	used = false;
	const char *p = getenv((std::string("PROG_") + name).c_str());
	std::vector<std::string> a;
	if (!p || r.in(0, 15)) return "";
	a.push_back(p); a.push_back(root);
	if (!argsfor(r, s, order, a)) return "";
	Child c = run(a, "", 20, scratch());
	if (!c.sane() || c.code) fail(std::string(name) + ": the program failed", "%s %s: %s", name, showset(s).c_str(), c.describe().c_str());
	used = true;
	stat(std::string("runs of ") + name);
	return c.out;
}

static void insert(Rng &r, Db &db, const Set &s) {
	Keys o = keysof(s);
	r.shuffle(o);
	bool used;
	std::string p = viaprog(r, "pathfor", db.root, s, o, used);
	if (used) { if (p.empty() || p[p.size() - 1] != '\n') fail("pathfor: output", "%s", p.c_str()); p.resize(p.size() - 1); }
	else p = pathfor(db.root, attrs(s, o));
	stat("paths asked for");
	db.what += "; " + showset(s);
	if (p.compare(0, db.root.size(), db.root)) fail("path outside of the root", "%s: %s", p.c_str(), db.what.c_str());
	auto it = db.bypath.find(p);
	if (it != db.bypath.end() && it->second != s) fail("one path for two sets", "%s: %s and %s: %s", p.c_str(), showset(it->second).c_str(), showset(s).c_str(), db.what.c_str());
	for (auto &q : db.bypath) if (q.second == s && q.first != p) fail("two paths for one set", "%s and %s for %s: %s", q.first.c_str(), p.c_str(), showset(s).c_str(), db.what.c_str());
	db.bypath[p] = s;
	if (r.in(0, 3)) {
		struct ::stat sb;
		if (!db.file.count(p) && ::stat(p.c_str(), &sb) == 0) fail("path of another entry", "%s of %s exists already: %s", p.c_str(), showset(s).c_str(), db.what.c_str());
		std::string text = fmt("%d", (int) db.file.size());
		writefile(p, text);
		db.file[p] = text;
		stat("files");
	}
}
static void lookup(Rng &r, Db &db) {
	if (db.file.empty()) return;
	auto it = db.file.begin(); std::advance(it, r.in(0, db.file.size() - 1));
	Set want = db.bypath[it->first], got;
	std::string path = it->first, cwd;
	int rel = r.in(0, 5);
	char old[4096];
	if (rel < 2 && getcwd(old, sizeof old)) {	// named from within the database
		path = path.substr(db.root.size() + 1);
		if (chdir(db.root.c_str())) return;
		if (rel) path = "./" + path;
		cwd = old;
	}
	note("attributes of %s: %s", path.c_str(), db.what.c_str());
	RdbAttrs a = pathattrs(path);
	bool used = false;
	std::string out;
	const char *prog = getenv("PROG_pathattrs");
	if (prog && r.in(0, 15) == 0) { Child c = run({ prog, path }, "", 20, cwd.empty() ? scratch() : db.root); if (!c.sane() || c.code) fail("pathattrs: the program failed", "%s: %s", path.c_str(), c.describe().c_str()); out = c.out; used = true; stat("runs of pathattrs"); }
	if (!cwd.empty() && chdir(cwd.c_str())) abort();
	std::string str;
	for (auto &k : a.getkeys()) {
		std::string v = a.lookup(k);
		str += (str.empty() ? "" : " ") + k + "=" + v;
		if (v != "UNSPECIFIED") got[k] = v;
	}
	if (got != want) fail("attributes of a path", "%s: %s, inserted as %s: %s", path.c_str(), showset(got).c_str(), showset(want).c_str(), db.what.c_str());
	if (a.string() != str) fail("attributes as a string", "%s, not %s", a.string().c_str(), str.c_str());
	if (used && out != str + "\n") fail("pathattrs: output", "%s, not %s: %s", out.c_str(), str.c_str(), db.what.c_str());
	stat("attributes read back");
}
static void query(Rng &r, Db &db, const Set &q) {
	std::vector<std::string> want, got;
	for (auto &f : db.file) if (within(q, db.bypath[f.first])) want.push_back(f.first);
	Keys o = keysof(q);
	r.shuffle(o);
	note("query %s: %s", showset(q).c_str(), db.what.c_str());
	bool used;
	std::string out = viaprog(r, "withattrs", db.root, q, o, used);
	if (used) for (auto &w : want) if (w.find('\n') != std::string::npos) used = false;
	if (used) {
		size_t p = 0, e;
		while ((e = out.find('\n', p)) != std::string::npos) { got.push_back(out.substr(p, e - p)); p = e + 1; }
	} else got = withattrs(db.root, attrs(q, o));
	std::sort(got.begin(), got.end());
	std::sort(want.begin(), want.end());
	if (got != want) fail(got.size() < want.size() ? "query misses files" : "query finds other files", "%s: got %s, wanted %s: %s", showset(q).c_str(), lines(got).c_str(), lines(want).c_str(), db.what.c_str());
	stat("queries");
	if (!want.empty()) stat("queries with answers");
	if (want.size() > 1 && !q.empty() && want.size() < db.file.size()) stat("queries that select some of the files");
}

static void database(Rng &r) {
	Db db;
	db.root = scratch() + fmt("/db%ld", ctx.cur);
	if (r.in(0, 7) == 0) { db.root += "KEY=x"; if (r.in(0, 1)) { mkdir(db.root.c_str(), 0777); db.root += "/sub"; } }
	if (r.in(0, 1)) mkdir(db.root.c_str(), 0777);
	int style = r.in(0, 2), nk = r.in(1, 5), nv = r.in(1, 4), steps = r.in(3, 25);
	Keys keys; std::map<std::string, Keys> vals;
	for (int i = 0; i < nk; i++) {
		std::string k = word(r, style, true);
		if (std::find(keys.begin(), keys.end(), k) != keys.end() || k.size() > 250) continue;
		keys.push_back(k);
		for (int j = 0; j < nv; j++) vals[k].push_back(word(r, style, false));
	}
	int shape = r.in(0, 2);		// all keys; depending on the first one; any
	std::vector<Keys> per;
	for (int i = 0; i < nv; i++) { Keys k(1, keys[0]); for (size_t j = 1; j < keys.size(); j++) if (r.in(0, 1)) k.push_back(keys[j]); per.push_back(k); }
	auto gen = [&]() {
		Set s;
		int a = r.in(0, nv - 1);
		for (size_t j = 0; j < keys.size(); j++) s[keys[j]] = vals[keys[j]][r.in(0, nv - 1)];
		if (shape == 1) {
			Set t; s[keys[0]] = vals[keys[0]][a];
			int first = 0; while (vals[keys[0]][first] != vals[keys[0]][a]) first++;
			for (auto &k : per[first]) t[k] = s[k];
			s = t;
		} else if (shape == 2) for (auto &k : keys) if (r.in(0, 2) == 0 && s.size() > 1) s.erase(k);
		return s;
	};
	uint64_t h = style;
	for (int i = 0; i < steps; i++) {
		int k = r.in(0, 3);
		if (k < 2) {
			Set s = gen();
			if (!db.compatible(s)) { stat("incompatible sets left out"); continue; }
			note("path for %s: %s", showset(s).c_str(), db.what.c_str());
			insert(r, db, s);
			h = mix(h, hashstr(showset(s)));
		} else if (k == 2) lookup(r, db);
		else {
			Set q = gen();
			if (r.in(0, 1) && !db.file.empty()) { auto it = db.file.begin(); std::advance(it, r.in(0, db.file.size() - 1)); q = db.bypath[it->first]; }
			int keep = r.in(1, 3);
			for (auto &key : keys) if (r.in(0, keep)) q.erase(key);
			if (r.in(0, 9) == 0) q[word(r, style, true)] = word(r, style, false);
			query(r, db, q);
		}
	}
	// Everything is still there and found.
	for (auto &p : db.bypath) { Keys o = keysof(p.second); r.shuffle(o); std::string q = pathfor(db.root, attrs(p.second, o)); if (q != p.first) fail("two paths for one set", "%s and %s for %s: %s", p.first.c_str(), q.c_str(), showset(p.second).c_str(), db.what.c_str()); }
	query(r, db, Set());
	for (auto &f : db.file) if (readfile(f.first) != f.second) fail("file changed", "%s: %s", f.first.c_str(), db.what.c_str());
	if (wantsample()) sample("%zu paths, %zu files%s", db.bypath.size(), db.file.size(), db.what.substr(0, 300).c_str());
	if (db.bypath.size() > 1) sig(h);
	wipe(db.root);
}

// Attribute lists are first-in-first-out, with unique keys.
static void list(Rng &r) {
	RdbAttrs a;
	std::deque<std::pair<std::string, std::string> > m;
	int style = r.in(0, 2), n = r.in(1, 40);
	Keys keys; for (int i = 0; i < 6; i++) keys.push_back(word(r, style, true));
	uint64_t h = 1;
	for (int i = 0; i < n; i++) {
		std::string k = keys[r.in(0, 5)], v = r.in(0, 9) ? word(r, style, false) : "";
		auto it = m.begin(); while (it != m.end() && it->first != k) ++it;
		bool has = it != m.end();
		int op = r.in(0, 5);
		h = mix(h, op * 31 + hashstr(k + "=" + v));
		note("list operation %d on %s=%s", op, k.c_str(), v.c_str());
		if (op == 0 || op == 1) {
			bool ok = op ? a.push_back(k, v) : a.push_front(k, v);
			if (ok == has) fail("list: adding", "%s says %d", k.c_str(), ok);
			if (!has) { if (op) m.push_back(std::make_pair(k, v)); else m.push_front(std::make_pair(k, v)); }
		} else if (op == 2) {
			bool ok = a.rm(k);
			if (ok != has) fail("list: removing", "%s says %d", k.c_str(), ok);
			if (has) m.erase(it);
		} else if (op == 3 && !m.empty()) { a.pop_front(); m.pop_front(); }
		else if (op == 4 && has && a.lookup(k) != it->second) fail("list: value", "%s", k.c_str());
		else if (op == 5 && a.mem(k) != has) fail("list: membership", "%s", k.c_str());
		std::string s; Keys ks;
		for (auto &p : m) { s += (ks.empty() ? "" : " ") + p.first + "=" + p.second; ks.push_back(p.first); }
		auto gk = a.getkeys();
		if (a.size() != m.size() || Keys(gk.begin(), gk.end()) != ks || (!m.empty() && a.front() != m.front().first)) fail("list: contents", "%s, not %s", a.string().c_str(), s.c_str());
		if (a.string() != s) fail("list: as a string", "%s, not %s", a.string().c_str(), s.c_str());
		stat("list operations");
	}
	sig(h);
}

// Command line arguments name the attributes that they say.
static void arguments(Rng &r) {
	int style = r.in(0, 2), n = r.in(0, 5);
	Set s; Keys o;
	for (int i = 0; i < n; i++) {
		std::string k = word(r, style, true);
		if (s.count(k) || k.find('=') != std::string::npos) continue;
		s[k] = r.in(0, 9) ? word(r, style, false) : "";
		o.push_back(k);
	}
	std::vector<std::string> args;
	for (auto &k : o) {
		std::vector<std::string> one;
		if (!argsfor(r, s, Keys(1, k), one)) one.assign(1, k + "=" + s[k]);
		// The value may stand alone.
		if (r.in(0, 9) == 0 && k.find(' ') == std::string::npos) { one.assign(1, k); one.push_back("=" + s[k]); }
		args.insert(args.end(), one.begin(), one.end());
		if (r.in(0, 9) == 0) args.push_back(k + "=again");	// the first one counts
	}
	bool nokey = r.in(0, 9) == 0 && !s.count("");
	if (nokey) { args.insert(args.begin(), "=v"); o.insert(o.begin(), ""); s[""] = "v"; }
	if (r.in(0, 9) == 0) args.push_back("trailing");
	std::vector<const char*> av; std::string what;
	for (auto &a : args) { av.push_back(a.c_str()); what += "[" + a + "]"; }
	note("arguments %s", what.c_str());
	RdbAttrs a = attrargs(av.size(), av.data());
	auto gk = a.getkeys();
	if (setof(a) != s || Keys(gk.begin(), gk.end()) != o) fail("arguments", "%s are read as %s", what.c_str(), a.string().c_str());
	stat("argument lists");
	if (args.size() > 1) sig(hashstr(what));
}

// addattrs puts new pairs before the first one and leaves the rest alone.
static void addattrs(Rng &r) {
	const char *prog = getenv("PROG_addattrs");
	if (!prog) return;
	int style = r.in(0, 1);
	auto ok = [](const std::string &s) { return s.find_first_of("\"\n\r\t") == std::string::npos && !s.empty(); };
	std::string head = "#start data file format 4\n", body;
	Set had;
	int n = r.in(0, 6);
	for (int i = 0; i < r.in(0, 2); i++) head += r.in(0, 1) ? "#altcols  \"it\"\t\"it a\"\t\"it b\"\n#altrow  \"it\"\t1\t2\n" : "# a remark\n";
	for (int i = 0; i < n; i++) {
		std::string k = word(r, style, true), v = r.in(0, 9) ? word(r, style, false) : std::string(r.in(200, 600), 'x');
		if (!ok(k) || !ok(v)) continue;
		body += "#pair  \"" + k + "\"\t\"" + v + "\"\n";
		had[k] = v;
		if (r.in(0, 5) == 0) body += "#altcols  \"it\"\t\"it a\"\n#altrow  \"it\"\t1\n";
	}
	std::string end = r.in(0, 5) ? "#end data file format 4\n" : "";
	Set s; Keys o;
	for (int i = r.in(0, 4); i > 0; i--) {
		std::string k = !had.empty() && r.in(0, 3) == 0 ? had.begin()->first : word(r, style, true), v = word(r, style, false);
		if (!ok(k) || !ok(v) || s.count(k)) continue;
		s[k] = v; o.push_back(k);
	}
	std::string path = scratch() + "/data", added;
	std::vector<std::string> a = { prog, path };
	Keys o2; for (auto &k : o) if (k.find('=') == std::string::npos) o2.push_back(k);
	if (!argsfor(r, s, o2, a)) return;
	std::string text = head + body + end;
	writefile(path, text);
	for (auto &k : o2) if (!had.count(k)) added += "#pair  \"" + k + "\"\t\"" + s[k] + "\"\n";
	std::string want = head + (body.empty() ? "" : added) + body + end, what;
	for (size_t i = 2; i < a.size(); i++) what += "[" + a[i] + "]";
	note("addattrs %s to %s", what.c_str(), text.c_str());
	Child c = run(a, "", 20, scratch());
	if (!c.sane() || c.code) fail("addattrs: the program failed", "%s to %s: %s", what.c_str(), text.c_str(), c.describe().c_str());
	std::string got = readfile(path);
	if (got != want) fail("addattrs: result", "%s to [%s] gives [%s]", what.c_str(), text.c_str(), got.c_str());
	if (access((path + "~").c_str(), F_OK) == 0) fail("addattrs: leaves a file", "%s", what.c_str());
	stat("files with attributes added");
	if (!added.empty()) sig(hashstr(what + text));
}

// Processes that ask for paths at the same time, with keys in one order.
static void together(Rng &r) {
	std::string root = scratch() + fmt("/db%ld", ctx.cur);
	int style = r.in(0, 1), nk = r.in(1, 4), nv = r.in(1, 3), np = r.in(2, 6), each = r.in(1, 5);
	Keys keys; std::map<std::string, Keys> vals;
	for (int i = 0; i < nk; i++) {
		std::string k = word(r, style, true);
		if (std::find(keys.begin(), keys.end(), k) != keys.end()) continue;
		keys.push_back(k);
		for (int j = 0; j < nv; j++) vals[k].push_back(word(r, style, false));
	}
	std::vector<std::vector<Set> > sets(np);
	std::string what;
	for (auto &ss : sets) for (int i = 0; i < each; i++) { Set s; for (auto &k : keys) s[k] = vals[k][r.in(0, nv - 1)]; ss.push_back(s); what += showset(s); }
	note("together %s", what.c_str());
	std::vector<pid_t> pids; std::vector<uint64_t> seeds;
	for (int i = 0; i < np; i++) seeds.push_back(r.next());
	for (int i = 0; i < np; i++) {
		fflush(NULL);
		pid_t p = fork();
		if (p == 0) {
			Rng q(seeds[i]);
			std::string out;
			for (auto &s : sets[i]) { usleep(q.in(0, 200)); out += pathfor(root, attrs(s, keys)) + "\n"; }
			writefile(root + fmt(".out%d", i), out);
			_exit(0);
		}
		pids.push_back(p);
	}
	bool bad = false;
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
	if (bad) fail("paths asked for at the same time: failure", "%s", what.c_str());
	std::map<std::string, Set> by;
	for (int i = 0; i < np; i++) {
		std::string o = readfile(root + fmt(".out%d", i));
		size_t p = 0;
		for (auto &s : sets[i]) {
			size_t e = o.find('\n', p);
			std::string path = o.substr(p, e - p); p = e + 1;
			if (by.count(path) && by[path] != s) fail("one path for two sets", "%s asked for at the same time: %s", path.c_str(), what.c_str());
			for (auto &b : by) if (b.second == s && b.first != path) fail("two paths for one set", "%s and %s asked for at the same time: %s", path.c_str(), b.first.c_str(), what.c_str());
			by[path] = s;
		}
		unlink((root + fmt(".out%d", i)).c_str());
	}
	for (auto &b : by) { writefile(b.first, "x"); if (setof(pathattrs(b.first)) != b.second) fail("attributes of a path", "%s: %s", b.first.c_str(), what.c_str()); }
	stat("concurrent histories");
	stat("concurrent requests", np * each);
	sig(hashstr(what));
	wipe(root);
}

std::vector<Kind> vh::kinds() {
	return { { "database", database, 10 }, { "list", list, 3 }, { "arguments", arguments, 4 }, { "addattrs", addattrs, 2 }, { "together", together, 1 } };
}
