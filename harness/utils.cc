// Monitors of utils/: encodings, ranks, EPS images (P19), data files (P20),
// file system and string helpers (P22), arithmetic and random numbers (P26).
#define VH_MAIN
#include "vh.hpp"
#include "utils/utils.hpp"
#include "utils/safeops.hpp"
#include "graphics/image.hpp"
#include <boost/optional.hpp>
#include <climits>
#include <dirent.h>

std::string controlstr(const std::vector<unsigned int>&);
std::vector<unsigned int> controlvec(const std::string&);
using namespace vh;

static std::string show(const std::string &s, size_t mx = 60) {
	std::string r;
	for (size_t i = 0; i < s.size() && i < mx; i++) r += fmt("%02x", (unsigned char) s[i]);
	return fmt("%zu bytes ", s.size()) + r;
}

// ---------------------------------------------------------------- P19

// Byte strings made of runs, whose lengths favour the limits of the codes.
static std::string bytes(Rng &r, bool anyb = true) {
	static const std::vector<int> lens = {1, 1, 1, 2, 2, 3, 3, 4, 5, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257};
	std::string s;
	int mode = r.in(0, 4);
	int n = mode == 0 ? r.in(0, 12) : mode == 1 ? r.in(0, 5) : r.in(0, 40);
	int alpha = r.pick(std::vector<int>{2, 3, 256, 256});
	int base = r.pick(std::vector<int>{0, 0, 120, 254});
	for (int i = 0; i < n; i++) {
		int len = mode == 0 ? 1 : mode == 3 ? r.in(1, 3) : r.pick(lens);
		if (mode == 4) {	// stretches without runs around the limit
			int k = r.pick(std::vector<int>{1, 2, 125, 126, 127, 128, 129, 254, 255});
			int c = r.in(0, 255);
			for (int j = 0; j < k; j++) s.push_back((char) (c += 1 + (j & 1)));
			if (s.size() > 1500) break;
			len = r.pick(std::vector<int>{1, 2, 3, 4, 127});
		}
		char c = (char) (base + r.in(0, alpha - 1));
		if (!anyb) c = 'a' + (c & 15);
		s.append(len, c);
		if (s.size() > 3000) break;
	}
	return s;
}

// RunLengthDecode of the PostScript reference manual.
static bool psrundec(const std::string &e, std::string &out) {
	size_t i = 0;
	while (i < e.size()) {
		unsigned n = (unsigned char) e[i++];
		if (n == 128) return i == e.size();
		if (n < 128) {
			if (i + n + 1 > e.size()) return false;
			out.append(e, i, n + 1); i += n + 1;
		} else {
			if (i >= e.size()) return false;
			out.append(257 - n, e[i++]);
		}
	}
	return true;
}
// ASCII85Decode of the same.
static bool a85dec(const std::string &e, std::string &out) {
	unsigned long w = 0; int k = 0;
	for (unsigned char c : e) {
		if (c == 'z') { if (k) return false; out.append(4, 0); continue; }
		if (c < '!' || c > 'u') return false;
		w = w * 85 + (c - '!');
		if (++k == 5) {
			if (w > 0xFFFFFFFFul) return false;
			for (int j = 3; j >= 0; j--) out.push_back((char) (w >> (8 * j)));
			w = 0; k = 0;
		}
	}
	if (k == 1) return false;
	if (k) {
		int pad = 5 - k;
		for (int j = 0; j < pad; j++) w = w * 85 + 84;
		if (w > 0xFFFFFFFFul) return false;
		for (int j = 3; j > 3 - (k - 1); j--) out.push_back((char) (w >> (8 * j)));
	}
	return true;
}
static std::string b64ref(const std::string &s) {
	static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned b = 0; int k = std::min<size_t>(3, s.size() - i);
		for (int j = 0; j < 3; j++) b = b << 8 | (j < k ? (unsigned char) s[i+j] : 0);
		for (int j = 0; j < 4; j++) o.push_back(j <= k ? t[b >> (18 - 6 * j) & 63] : '=');
	}
	return o;
}

static void k_codec(Rng &r) {
	for (int rep = 0; rep < 6; rep++) {
		std::string s = bytes(r);
		note("codec of %s", show(s, 400).c_str());
		std::string e = runlenenc(s), d;
		if (runlendec(e) != s) fail("runlen round trip", "runlendec(runlenenc(%s)) = %s", show(s).c_str(), show(runlendec(e)).c_str());
		if (!psrundec(e, d) || d != s) fail("runlen is PostScript", "the encoding %s of %s decodes to %s", show(e).c_str(), show(s).c_str(), show(d).c_str());
		if (e.size() > s.size() + s.size() / 127 + 1 + 0 * e.size() && e.size() > 2 * s.size() + 2) fail("runlen size", "%zu bytes encode to %zu", s.size(), e.size());
		std::string b = base64enc(s);
		if (b != b64ref(s)) fail("base64 value", "base64enc(%s) = %s, expected %s", show(s).c_str(), b.substr(0, 100).c_str(), b64ref(s).substr(0, 100).c_str());
		if (base64dec(b) != s) fail("base64 round trip", "base64dec(base64enc(%s)) = %s", show(s).c_str(), show(base64dec(b)).c_str());
		std::string a = ascii85enc(s); d.clear();
		for (unsigned char c : a) if (!((c >= '!' && c <= 'u') || c == 'z')) fail("ascii85 alphabet", "byte %02x in the encoding of %s", c, show(s).c_str());
		if (!a85dec(a, d) || d != s) fail("ascii85 round trip", "encoding %s of %s decodes to %s", a.substr(0, 100).c_str(), show(s).c_str(), show(d).c_str());
		std::vector<unsigned int> ops;
		for (unsigned char c : s) ops.push_back(c & 0x7f);
		std::vector<unsigned int> o2 = controlvec(controlstr(ops));
		if (o2 != ops) fail("controls round trip", "%zu controls came back as %zu", ops.size(), o2.size());
		if (s.size() > 2) sig(hashstr(s));
		stat("strings encoded"); if (s.size() >= 127) stat("strings with long runs");
		if (wantsample()) sample("codec: %s -> rle %s", show(s, 20).c_str(), show(e, 20).c_str());
	}
}

static unsigned long lehmer(const std::vector<unsigned> &p, unsigned sz, unsigned k) {
	unsigned long rank = 0;
	for (unsigned i = 0; i < k; i++) {
		unsigned c = p[i];
		for (unsigned j = 0; j < i; j++) if (p[j] < p[i]) c--;
		rank = rank * (sz - i) + c;
	}
	return rank;
}
static void k_ranks(Rng &r) {
	if (r.p(0.5)) {	// all the k-permutations, in lexicographic order
		unsigned sz = r.in(1, 6), k = r.p(0.3) ? sz : r.in(1, sz);
		Ranker full(sz), part(sz, k);
		Ranker &rk = k == sz && r.p(0.5) ? full : part;
		note("all %u-permutations of %u", k, sz);
		unsigned long next = 0;
		std::vector<unsigned> p;
		std::vector<bool> used(sz, false);
		std::function<void()> rec = [&]() {
			if (p.size() == k) {
				unsigned long x = rk.rank(p.data());
				if (x != next) fail("rank", "the %lu-th %u-permutation of %u has rank %lu", next, k, sz, x);
				next++; return;
			}
			for (unsigned v = 0; v < sz; v++) if (!used[v]) { used[v] = true; p.push_back(v); rec(); p.pop_back(); used[v] = false; }
		};
		rec();
		if (next != fallfact(sz, k)) fail("rank count", "%lu ranks, %u to the %u falling is %lu", next, sz, k, fallfact(sz, k));
		stat("permutations ranked", next);
		sig(mix(sz, k));
	} else {
		unsigned sz = r.in(1, 20), k = r.in(1, sz);
		Ranker rk(sz, k);
		std::vector<unsigned> p(sz);
		for (unsigned i = 0; i < sz; i++) p[i] = i;
		for (int t = 0; t < 20; t++) {
			if (t == 1) std::reverse(p.begin(), p.end()); else if (t) r.shuffle(p);
			note("rank of %u of %u", k, sz);
			std::vector<unsigned> q(p.begin(), p.begin() + k);	// exact size, to catch reads beyond
			unsigned long x = rk.rank(q.data());
			if (x != lehmer(p, sz, k)) fail("rank", "a %u-permutation of %u has rank %lu, expected %lu", k, sz, x, lehmer(p, sz, k));
			sig(mix(mix(sz, k), x));
		}
		stat("permutations ranked", 20);
	}
}

static void k_eps(Rng &r) {
	unsigned w = r.in(1, r.p(0.3) ? 150 : 12), h = r.in(1, 12);
	Image img(w, h, "t");
	std::vector<unsigned char> want;
	double lv[] = {0, 0.25, 0.5, 1, 1.0/255, 254.0/255, 0.1, -1, 2};
	bool flat = r.p(0.4);
	Color c0(0.2, 0.2, 0.2);
	std::vector<Color> px(w * h);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
		if (!flat || r.p(0.1)) c0 = Color(lv[r.in(0, 8)], lv[r.in(0, 8)], lv[r.in(0, 8)]);
		px[y * w + x] = c0;
		img.setpixel(x, y, c0);
	}
	for (auto &c : px) for (double d : {c.getred(), c.getgreen(), c.getblue()}) want.push_back((unsigned char) (255 * d));
	note("eps %ux%u", w, h);
	bool letter = r.p(0.3);
	if (r.p(0.5)) img.add(new Image::Line(geom2d::Pt(0, 0), geom2d::Pt(w, h), Image::red, 1));
	if (r.p(0.3)) img.add(new Image::Text("abc", 1, 2));
	std::string path = scratch() + "/i.eps";
	img.saveeps(path.c_str(), letter, r.p(0.5) ? -1 : 3);
	std::string f = readfile(path);
	if (f.compare(0, 15, "%!PS-Adobe-3.0\n") != 0) fail("eps header", "the file starts with %s", f.substr(0, 20).c_str());
	if (f.find("\n%%EndComments\n") == std::string::npos || f.find("\n%%BoundingBox: ") == std::string::npos) fail("eps header", "no bounding box or end of comments");
	size_t i = f.find("colorimage\n"), j = f.find("~>", i);
	if (i == std::string::npos || j == std::string::npos) fail("eps data", "no image data");
	std::string dims = fmt("%u %u 8 [%u 0 0 %u 0 0]", w, h, w, h);
	if (f.find(dims) == std::string::npos) fail("eps data", "no %s", dims.c_str());
	std::string rl, raw;
	if (!a85dec(f.substr(i + 11, j - i - 11), rl) || !psrundec(rl, raw)) fail("eps data", "the image data does not decode");
	if (raw != std::string(want.begin(), want.end())) fail("eps pixels", "the %ux%u image reads back as %s", w, h, show(raw).c_str());
	if (f.size() < 9 || f.substr(f.size() - 9) != "showpage\n") fail("eps end", "no showpage at the end");
	stat("images"); sig(hashstr(raw));
}

// ---------------------------------------------------------------- P20

static std::string anytext(Rng &r, size_t n) {
	std::string s;
	int mode = r.in(0, 2);
	while (s.size() < n) {
		char c = mode == 0 ? "abc xyz%s%d#\\/=.,-"[r.in(0, 17)] : mode == 1 ? (char) r.in(32, 126) : (char) r.in(1, 255);
		if (c == '"' || c == '\n' || c == '\r') continue;
		s.push_back(c);
	}
	return s;
}
static size_t nearlen(Rng &r, long fixed, long lo = 0) {	// line lengths around the buffer's 256
	long n = r.p(0.6) ? 256 - fixed + r.in(-6, 6) : r.p(0.7) ? r.in(0, 40) : r.in(200, 1200);
	return std::max(lo, n);
}
static void collect(std::vector<std::string> &t, void *p) { ((std::vector<std::vector<std::string>>*) p)->push_back(t); }

static void k_pairs(Rng &r) {
	std::string path = scratch() + "/df";
	FILE *f = fopen(path.c_str(), "w");
	std::vector<std::vector<std::string>> want;
	bool whole = r.p(0.5);
	if (whole) dfheader(f);
	int n = r.in(1, 12);
	for (int i = 0; i < n; i++) {
		int t = r.in(0, 9);
		if (t < 5) {
			std::string k = anytext(r, r.p(0.9) ? r.in(1, 30) : r.in(200, 235));
			std::string v = anytext(r, nearlen(r, 11 + k.size()));
			note("dfpair key of %zu value of %zu", k.size(), v.size());
			dfpair(f, k.c_str(), "%s", v.c_str());
			want.push_back({"#pair", k, v});
		} else if (t == 5) {
			long d = (long) r.next(); double g = r.real(-1e6, 1e6);
			dfpair(f, "numbers", "%ld %g %lu", d, g, (unsigned long) d);
			want.push_back({"#pair", "numbers", fmt("%ld %g %lu", d, g, (unsigned long) d)});
		} else if (t < 8) {
			std::string nm = anytext(r, r.in(1, 20));
			std::string c1 = anytext(r, r.in(1, 20)), c2 = anytext(r, r.in(1, 20));
			// length of the line with a third column
			long fixed = 12 + nm.size() + 3 * (4 + nm.size()) + c1.size() + c2.size();
			size_t l3 = std::min<long>(nearlen(r, fixed, 1), 255 - fixed);
			if ((long) l3 < 1) l3 = 1;
			std::string c3 = anytext(r, l3);
			note("dfrowhdr of %ld bytes", fixed + (long) l3);
			dfrowhdr(f, nm.c_str(), 3, c1.c_str(), c2.c_str(), c3.c_str());
			want.push_back({"#altcols", nm, nm + " " + c1, nm + " " + c2, nm + " " + c3});
		} else {
			double a = r.p(0.2) ? 1.0/0.0 : r.real(-1e9, 1e9) * pow(10, r.in(-12, 6)), b = r.real(-1e5, 1e5);
			long d = r.p(0.3) ? LONG_MIN : (long) r.next(); unsigned long u = r.next();
			long rest = 11 + fmt("\t%g\t%lf\t%ld\t%lu", a, b, d, u).size();
			std::string nm = anytext(r, r.p(0.7) ? r.in(1, 30) : 255 - rest - r.in(0, 4));
			note("dfrow name of %zu", nm.size());
			dfrow(f, nm.c_str(), "gfdu", a, b, d, u);
			want.push_back({"#altrow", nm, fmt("%g", a), fmt("%lf", b), fmt("%ld", d), fmt("%lu", u)});
		}
	}
	if (whole) dffooter(f);
	fclose(f);
	std::string text = readfile(path);
	if (whole) {
		if (text.compare(0, 27, "#start data file format 4\n#", 27) != 0) fail("start marker", "the file starts with %s", text.substr(0, 40).c_str());
		std::string e = "\n#end data file format 4\n";
		if (text.size() < e.size() || text.substr(text.size() - e.size()) != e) fail("end marker", "the file ends with %s", text.substr(text.size() > 40 ? text.size() - 40 : 0).c_str());
	}
	size_t lines = std::count(text.begin(), text.end(), '\n');
	if (lines < want.size()) fail("lines", "%zu items written as %zu lines", want.size(), lines);
	std::vector<std::vector<std::string>> got;
	FILE *in = fopen(path.c_str(), "r");
	std::string echoed = scratch() + "/echo";
	FILE *echo = r.p(0.4) ? fopen(echoed.c_str(), "w") : NULL;
	dfread(in, collect, &got, echo);
	fclose(in);
	if (echo) {
		fclose(echo);
		if (readfile(echoed) != text) fail("echo", "dfread echoed %zu bytes of %zu", readfile(echoed).size(), text.size());
	}
	if (whole) {	// drop what header and footer added
		if (got.size() < want.size() + 4) fail("header and footer", "only %zu items in the whole file", got.size());
		bool hd = got[0].size() == 3 && got[0][1] == "wall start date" && got[1][1] == "wall start time";
		if (!hd) fail("header", "the file starts with item %s", got[0].size() > 1 ? got[0][1].c_str() : "");
		size_t k = 0;
		while (k < got.size() && got[k].size() == 3 && (got[k][1] == "wall start date" || got[k][1] == "wall start time" || got[k][1] == "machine id")) k++;
		got.erase(got.begin(), got.begin() + k);
		bool fin = false;
		if (got.size() > want.size()) fin = got[want.size()].size() == 3 && got[want.size()][1] == "wall finish time";
		if (!fin) fail("footer", "no finish time after the %zu items", want.size());
		got.resize(want.size());
	}
	if (got.size() != want.size()) fail("items", "wrote %zu items, read %zu", want.size(), got.size());
	for (size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) {
		size_t j = 0; while (j < got[i].size() && j < want[i].size() && got[i][j] == want[i][j]) j++;
		fail("item", "wrote %s field %zu as [%s], read [%s]", want[i][0].c_str(), j, j < want[i].size() ? want[i][j].c_str() : "-", j < got[i].size() ? got[i][j].c_str() : "-");
	}
	stat("items written and read", want.size());
	if (want.size() > 1) sig(hashstr(text));
}

static void k_overlong(Rng &r) {	// names that do not fit are an error, not an overflow
	std::string k = anytext(r, 245 + r.in(0, 300));
	int t = r.in(0, 2);
	Child c = inchild([&]() {
		FILE *f = fopen("/dev/null", "w");
		if (t == 0) dfpair(f, k.c_str(), "%d", 1);
		else if (t == 1) dfrowhdr(f, k.c_str(), 1, "c");
		else dfrow(f, k.c_str(), "d", 5L);
		fclose(f);
		return 0;
	});
	if (!c.sane() || (c.code != 0 && c.code != 1)) fail("overlong", "a name of %zu bytes: %s", k.size(), c.describe().c_str());
	if (c.code == 1 && c.err.empty()) fail("overlong", "a name of %zu bytes: no message", k.size());
	stat("overlong names"); sig(mix(t, k.size()));
}

static void k_truncate(Rng &r) {
	std::string path = scratch() + "/tr";
	FILE *f = fopen(path.c_str(), "w");
	dfheader(f);
	int n = r.in(0, 4);
	for (int i = 0; i < n; i++) {
		std::string k = anytext(r, r.in(1, 10)), v = anytext(r, r.in(0, 300));
		if (r.p(0.15)) v = "#end data file format 4";
		dfpair(f, k.c_str(), "%s", v.c_str());
	}
	dffooter(f);
	fclose(f);
	std::string text = readfile(path), cut = scratch() + "/cut";
	const char *prog = getenv("PROG_dfcmplt");
	std::set<size_t> at;
	std::string end = "#end data file format 4\n";
	for (size_t i = 0; i + 1 < text.size(); i++) {
		bool edge = text[i] == '\n' || (i > 0 && text[i-1] == '\n') || i > text.size() - end.size() - 3 || i < 28;
		if (edge ? r.p(0.5) : r.p(0.005)) at.insert(i);
	}
	at.insert(text.size()); at.insert(text.size() - 2); at.insert(0);
	for (size_t n : at) {
		bool complete = n == text.size();
		bool viastdin = r.p(0.3);
		writefile(cut, text.substr(0, n));
		note("dfcmplt on %zu of %zu bytes", n, text.size());
		Child c = viastdin ? run({prog}, text.substr(0, n)) : run({prog, cut});
		if (!c.sane()) fail("dfcmplt crash", "on %zu of %zu bytes: %s", n, text.size(), c.describe().c_str());
		if ((c.code == 0) != complete) fail("completeness", "%zu of the %zu bytes of a data file are %s", n, text.size(), c.code == 0 ? "accepted as complete" : "rejected as incomplete");
		stat(complete ? "complete files" : "truncated files");
		sig(mix(hashstr(text), n));
	}
	// Things that are not data files.
	std::vector<std::string> bad = { "", "\n", end, "#start data file format 4\n", "junk\n" + text, text + "junk\n", text.substr(1), text + "\n" };
	for (auto &b : bad) {
		Child c = run({prog}, b);
		if (!c.sane() || c.code == 0) fail("completeness", "accepted as complete: %s", b.substr(0, 60).c_str());
	}
	Child c = run({prog, scratch() + "/nosuchfile"});
	if (!c.sane() || c.code == 0) fail("completeness", "accepted a file that does not exist");
}

// ---------------------------------------------------------------- P22

struct Ent { char type; std::string data; ino_t ino; };
static void snapshot(const std::string &d, std::map<std::string, Ent> &m) {
	DIR *dir = opendir(d.c_str());
	if (!dir) return;
	while (struct dirent *e = readdir(dir)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct ::stat sb;
		if (lstat(p.c_str(), &sb) != 0) continue;
		Ent x; x.ino = sb.st_ino;
		if (S_ISLNK(sb.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); x.type = 'l'; x.data.assign(b, k); }
		else if (S_ISDIR(sb.st_mode)) { x.type = 'd'; snapshot(p, m); }
		else { x.type = 'f'; x.data = readfile(p); }
		m[p] = x;
	}
	closedir(dir);
}
static std::string fname(Rng &r) {
	static const std::vector<std::string> odd = {" ", "a b", "-rf", "..a", "...", ".hid", "*", "~", "\x80\xff", "KEY=x", "'", "\"", "\n", "%s", "a\\b", ".", ".."};
	for (;;) {
		std::string s = r.p(0.3) ? r.pick(odd) : std::string(1, 'a' + r.in(0, 9)) + (r.p(0.3) ? "x" : "");
		if (r.p(0.03)) s = std::string(255, 'q');
		if (s != "." && s != "..") return s;
	}
}
// Makes a random tree under d; links may lead anywhere in root.
static void mktree(Rng &r, const std::string &root, const std::string &d, int depth, std::vector<std::string> &all, int &budget) {
	int n = r.in(0, depth == 0 ? 2 : 5);
	for (int i = 0; i < n && budget > 0; i++) {
		std::string p = d + "/" + fname(r);
		if (p.size() > 1500) continue;
		int t = r.in(0, 9);
		bool ok = false;
		if (t < 4) { int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644); ok = fd >= 0; if (ok) { std::string s = fmt("%d", budget); if (write(fd, s.data(), s.size()) < 0) { } close(fd); } }
		else if (t < 7) { ok = mkdir(p.c_str(), 0755) == 0; if (ok && depth > 0) mktree(r, root, p, depth - 1, all, budget); }
		else {
			std::string to = r.p(0.2) ? "nowhere" : r.p(0.2) ? ".." : r.p(0.2) ? "." : all.empty() ? root : r.pick(all);
			ok = symlink(to.c_str(), p.c_str()) == 0;
			if (ok) stat("symbolic links");
		}
		if (ok) { all.push_back(p); budget--; }
	}
}
static std::string freshdir(const char *n) {
	static int k = 0;
	std::string d = scratch() + fmt("/%s%d", n, k++);
	if (mkdir(d.c_str(), 0777) != 0) abort();
	chmod(d.c_str(), 0777);
	return d;
}
enum { Nobody = 65534 };

static void k_rmrecur(Rng &r) {
	std::string root = freshdir("rm");
	chmod(scratch().c_str(), 0755);
	std::vector<std::string> all;
	int budget = 40;
	std::string inside = root + "/target", outside = root + "/keep";
	mkdir(outside.c_str(), 0777);
	mktree(r, root, outside, 2, all, budget);
	mkdir(inside.c_str(), 0777);
	budget += 20;
	mktree(r, root, inside, 3, all, budget);
	// What is removed: the whole target, something in it, a link, something that is not there.
	std::vector<std::string> in;
	for (auto &p : all) if (p.compare(0, inside.size(), inside) == 0) in.push_back(p);
	std::string what = r.p(0.7) || in.empty() ? inside : r.p(0.05) ? inside + "/nosuch" : r.pick(in);
	bool slash = false;
	std::map<std::string, Ent> before, after;
	snapshot(root, before);
	struct ::stat sb;
	bool isd = lstat(what.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
	slash = isd && r.p(0.2);
	std::string arg = slash ? what + "/" : what;
	note("rmrecur %s", arg.c_str());
	std::string cmd = fmt("chown -R -h %d '%s'", Nobody, root.c_str());
	if (system(cmd.c_str()) != 0) abort();
	// As a user that owns nothing but this tree.
	Child c = inchild([&]() {
		if (setgid(Nobody) != 0 || setuid(Nobody) != 0) return 94;
		if (geteuid() == 0) return 94;
		return rmrecur(arg) ? 0 : 3;
	});
	if (c.exited && c.code == 94) { fprintf(stderr, "cannot become an unprivileged user\n"); exit(2); }
	snapshot(root, after);
	if (!c.sane() || c.code != 0) fail("rmrecur result", "removing %s: %s", arg.c_str(), c.describe().c_str());
	std::string pre = what + "/";
	for (auto &e : before) {
		bool gone = e.first == what || e.first.compare(0, pre.size(), pre) == 0;
		auto it = after.find(e.first);
		if (gone && it != after.end()) fail("rmrecur left", "removing %s left %s", arg.c_str(), e.first.c_str());
		if (!gone && (it == after.end() || it->second.data != e.second.data || it->second.type != e.second.type || it->second.ino != e.second.ino))
			fail("rmrecur outside", "removing %s changed %s", arg.c_str(), e.first.c_str());
		stat(gone ? "entries removed" : "entries kept");
	}
	for (auto &e : after) if (!before.count(e.first)) fail("rmrecur new", "removing %s made %s", arg.c_str(), e.first.c_str());
	if (before.size() > 3) { uint64_t h = 0; for (auto &e : before) h = mix(h, hashstr(e.first.substr(root.size())) ^ e.second.type); sig(mix(h, hashstr(what.substr(root.size())))); }
	if (wantsample()) sample("rmrecur %s of a tree of %zu entries", what.substr(root.size()).c_str(), before.size());
	wipe(root);
}

static void k_readdir(Rng &r) {
	std::string root = freshdir("ls");
	std::vector<std::string> all; int budget = r.in(0, 40);
	for (int i = 0; i < 4; i++) mktree(r, root, root, 1, all, budget);
	std::multiset<std::string> want;
	DIR *d = opendir(root.c_str());
	while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") want.insert(n); }
	closedir(d);
	bool slash = r.p(0.5), cat = r.p(0.5);
	std::string arg = slash ? root + "/" : root;
	note("readdir %s", arg.c_str());
	std::vector<std::string> got = cat ? (r.p(0.5) ? readdir(arg) : readdir(arg, true)) : readdir(arg, false);
	std::multiset<std::string> g;
	for (auto &s : got) {
		if (cat) {
			if (s.compare(0, root.size() + 1, root + "/") != 0) fail("readdir path", "entry %s of %s", s.c_str(), arg.c_str());
			g.insert(s.substr(root.size() + 1));
		} else g.insert(s);
	}
	if (g != want) fail("readdir entries", "%zu entries listed of %zu", g.size(), want.size());
	for (auto &p : all) {
		struct ::stat sb;
		bool ex = stat(p.c_str(), &sb) == 0, noent = !ex && errno == ENOENT;
		if (!ex && !noent) continue;	// other errors are fatal
		if (fileexists(p) != ex) fail("fileexists", "%s: %d", p.c_str(), !ex);
		if (isdir(p) != (ex && S_ISDIR(sb.st_mode))) fail("isdir", "%s", p.c_str());
		stat("paths examined");
	}
	if (want.size() > 1) { uint64_t h = 0; for (auto &s : want) h = mix(h, hashstr(s)); sig(h); }
	// making the directory of a path
	std::string p = root + "/E";
	int k = r.in(0, 5);
	std::vector<std::string> comps;
	for (int i = 0; i < k; i++) { std::string n = fname(r); if (n.size() > 50) n = "z"; p += (r.p(0.15) ? "//" : "/") + n; comps.push_back(p); }
	std::string leaf = p + "/leaf";
	std::map<std::string, Ent> before, after;
	snapshot(root, before);
	note("ensuredir %s", leaf.c_str());
	bool rel = r.p(0.2);
	if (rel) {
		if (chdir(root.c_str()) != 0) abort();
		ensuredir(leaf.substr(root.size() + 1));
		if (chdir("/") != 0) abort();
	} else ensuredir(leaf);
	struct ::stat sb;
	if (stat(p.c_str(), &sb) != 0 || !S_ISDIR(sb.st_mode)) fail("ensuredir", "there is no directory for %s", leaf.c_str());
	if (lstat(leaf.c_str(), &sb) == 0) fail("ensuredir", "%s itself was made", leaf.c_str());
	snapshot(root, after);
	for (auto &e : after) if (!before.count(e.first) && (e.second.type != 'd' || (e.first != root + "/E" && e.first.compare(0, root.size() + 3, root + "/E/") != 0))) fail("ensuredir", "also made %s", e.first.c_str());
	for (auto &e : before) if (!after.count(e.first)) fail("ensuredir", "%s is gone", e.first.c_str());
	ensuredir(leaf);	// nothing left to do
	stat("directories made");
	wipe(root);
}

static std::string pathstr(Rng &r) {
	std::string s;
	int n = r.in(0, 8);
	for (int i = 0; i < n; i++) s += r.pick(std::vector<std::string>{"/", "/", ".", "..", "a", "bc", " ", "\x90", "-"});
	return s;
}
static std::string squeeze(std::string s) {	// repeated separators are one
	for (size_t i; (i = s.find("//")) != std::string::npos; ) s.erase(i, 1);
	return s;
}
static void k_paths(Rng &r) {
	for (int t = 0; t < 40; t++) {
		std::string p = pathstr(r), q = pathstr(r);
		note("paths [%s] [%s]", p.c_str(), q.c_str());
		std::string b = basename(p), d = dirname(p), wb, wd;
		size_t sl = p.rfind('/');
		if (p.empty() || p == ".") wb = ".", wd = ".";
		else {
			wb = sl == std::string::npos ? p : sl + 1 == p.size() ? "." : p.substr(sl + 1);
			wd = p == "/" ? "/" : sl == std::string::npos ? "." : sl == 0 ? "/" : p.substr(0, sl);
		}
		if (b != wb) fail("basename", "basename(%s) = %s, expected %s", p.c_str(), b.c_str(), wb.c_str());
		if (d != wd) fail("dirname", "dirname(%s) = %s, expected %s", p.c_str(), d.c_str(), wd.c_str());
		std::string c = pathcat(p, q), wc = !p.empty() && p.back() == '/' ? p + q : p + "/" + q;
		if (c != wc) fail("pathcat", "pathcat(%s, %s) = %s", p.c_str(), q.c_str(), c.c_str());
		std::string n3 = pathcatn(3, p.c_str(), q.c_str(), "x"), w3;
		for (auto &s : {p, q, std::string("x")}) { if (w3.empty() || w3.back() != '/') w3 += "/"; w3 += s; }
		if (n3 != w3) fail("pathcatn", "pathcatn(%s, %s, x) = %s, expected %s", p.c_str(), q.c_str(), n3.c_str(), w3.c_str());
		// splitting and joining
		if (sl != std::string::npos && sl + 1 < p.size() && p != "." && squeeze(pathcat(d, b)) != squeeze(p)) fail("split and join", "%s splits into %s and %s", p.c_str(), d.c_str(), b.c_str());
		stat("paths"); if (p.size() > 2) sig(hashstr(p + "|" + q));
	}
}

static void k_strings(Rng &r) {
	for (int t = 0; t < 10; t++) {
		std::string s = anytext(r, r.in(0, 12)), p = r.p(0.5) ? s.substr(0, r.in(0, s.size())) : anytext(r, r.in(0, 4));
		if (r.p(0.2)) p += "x";
		if (hasprefix(s.c_str(), p.c_str()) != (s.compare(0, p.size(), p) == 0)) fail("hasprefix", "hasprefix(%s, %s)", s.c_str(), p.c_str());
	}
	// tokens
	static const char ws[] = " \t\n\v\f\r";
	std::vector<std::string> want;
	std::string line;
	int n = r.in(0, 8);
	std::vector<bool> quoted;
	for (int i = 0; i < r.in(0, 2); i++) line += ws[r.in(0, 5)];
	for (int i = 0; i < n; i++) {
		bool q = r.p(0.4);
		std::string tok;
		int len = r.in(q ? 0 : 1, 10);
		for (int j = 0; j < len; j++) {
			char c = r.p(0.8) ? (char) r.in(33, 126) : q ? ws[r.in(0, 5)] : (char) 0xe9;
			if (c == '"') c = '\'';
			tok.push_back(c);
		}
		line += q ? "\"" + tok + "\"" : tok;
		if (i + 1 < n || r.p(0.3)) for (int j = r.in(1, 3); j > 0; j--) line += ws[r.in(0, 5)];
		want.push_back(tok);
	}
	note("tokens of [%s]", line.c_str());
	std::vector<std::string> got = tokens(line);
	if (got != want) fail("tokens", "[%s] has %zu tokens, found %zu", line.c_str(), want.size(), got.size());
	// the same, one by one
	std::vector<char> buf(line.begin(), line.end()); buf.push_back(0);
	char *left = buf.data(), *end = buf.data() + line.size();
	size_t k = 0;
	while (left < end) {
		char *tk = gettoken(left, 1);
		if (!tk) break;
		if (k >= want.size() || want[k] != tk) fail("gettoken", "token %zu of [%s] is [%s]", k, line.c_str(), tk);
		k++;
		left = tk + strlen(tk) + 1;
	}
	if (k != want.size()) fail("gettoken", "[%s] has %zu tokens, found %zu", line.c_str(), want.size(), k);
	stat("token lines"); if (want.size() > 1) sig(hashstr(line));

	// lines
	std::vector<std::string> ls;
	std::string text;
	int m = r.in(0, 6);
	for (int i = 0; i < m; i++) {
		std::string l;
		int len = r.p(0.1) ? r.in(1000, 5000) : r.in(0, 20);
		for (int j = 0; j < len; j++) { char c = (char) r.in(1, 255); if (c == '\n') c = ' '; l.push_back(c); }
		if (r.p(0.1)) l = "\r";
		if (r.p(0.1)) l += "\r";
		ls.push_back(l); text += l + "\n";
	}
	bool nonl = !ls.empty() && !ls.back().empty() && r.p(0.4);
	if (nonl) text.resize(text.size() - 1);
	FILE *f = strfile(text);
	FILE *echo = r.p(0.4) ? fopen((scratch() + "/e").c_str(), "w") : NULL;
	for (auto l : ls) {
		note("readline of %s", show(l).c_str());
		boost::optional<std::string> g = readline(f, echo);
		if (!l.empty() && l.back() == '\r') l.resize(l.size() - 1);
		if (!g) fail("readline", "no line, expected %s", show(l).c_str());
		if (*g != l) fail("readline", "read %s, expected %s", show(*g).c_str(), show(l).c_str());
		stat("lines read");
	}
	if (readline(f, echo)) fail("readline", "one more line after the last");
	if (readline(f, echo)) fail("readline", "one more line after the end");
	fclose(f);
	if (echo) {
		fclose(echo);
		std::string e = readfile(scratch() + "/e");
		if (e != (nonl ? text + "\n" : text)) fail("readline echo", "echoed %zu bytes of %zu", e.size(), text.size());
	}
	if (ls.size() > 1) sig(hashstr(text));
}

// ---------------------------------------------------------------- P26

template<class N> static const char *tname();
template<> const char *tname<signed char>() { return "int8"; }
template<> const char *tname<unsigned char>() { return "uint8"; }
template<> const char *tname<short>() { return "int16"; }
template<> const char *tname<unsigned short>() { return "uint16"; }
template<> const char *tname<int>() { return "int32"; }
template<> const char *tname<unsigned int>() { return "uint32"; }
template<> const char *tname<long>() { return "int64"; }
template<> const char *tname<unsigned long>() { return "uint64"; }

template<class N> static void oneop(char op, N a, N b) {
	typedef std::numeric_limits<N> L;
	__int128 x = a, y = b, v = 0;
	bool undef = false;
	switch (op) {
	case '+': v = x + y; break;
	case '-': v = x - y; break;
	// the products of two 64-bit unsigned values may exceed an int128
	case '*': {
		if (sizeof(N) == 8 && !L::is_signed) { unsigned __int128 p = (unsigned __int128) a * b; v = p > (unsigned __int128) L::max() ? (__int128) L::max() + 1 : (__int128) p; }
		else v = x * y;
		break; }
	case '/': if (y == 0) undef = true; else v = x / y; break;
	}
	bool bad = undef || v > (__int128) L::max() || v < (__int128) L::min();
	bool over = undef || v > (__int128) L::max();
	bool threw = false, tover = false; N got = 0;
	try {
		got = op == '+' ? safe::add<N>(a, b) : op == '-' ? safe::sub<N>(a, b) : op == '*' ? safe::mul<N>(a, b) : safe::div<N>(a, b);
	} catch (safe::BadFlow<N> &e) {
		threw = true; tover = e.over;
		if (e.a != a || e.b != b || e.op[0] != op) fail("safeops report", "%s: %lld %c %lld reported as %lld %s %lld", tname<N>(), (long long) a, op, (long long) b, (long long) e.a, e.op, (long long) e.b);
	}
	if (threw != bad) fail("safeops detection", "%s: %lld %c %lld is %s", tname<N>(), (long long) a, op, (long long) b, threw ? "rejected" : "accepted");
	if (threw && tover != over) fail("safeops direction", "%s: %lld %c %lld is called an %s", tname<N>(), (long long) a, op, (long long) b, tover ? "overflow" : "underflow");
	if (!threw && (__int128) got != v) fail("safeops value", "%s: %lld %c %lld = %lld", tname<N>(), (long long) a, op, (long long) b, (long long) got);
	if (op == '*' && safe::can_mul<N>(a, b) == bad) fail("safeops can_mul", "%s: can_mul(%lld, %lld)", tname<N>(), (long long) a, (long long) b);
}
template<class N> static N interesting(Rng &r) {
	typedef std::numeric_limits<N> L;
	switch (r.in(0, 5)) {
	case 0: return (N) (L::max() - (N) r.in(0, 3));
	case 1: return (N) (L::min() + (N) r.in(0, 3));
	case 2: return (N) r.in(L::is_signed ? -4 : 0, 4);
	case 3: { N v = (N) ((N) 1 << r.in(0, sizeof(N) * 8 - 2)); v = (N) ((unsigned long) v + (unsigned long) r.in(-2, 2)); return L::is_signed && r.p(0.5) ? (N) (0 - (unsigned long) v) : v; }
	case 4: { N d = (N) r.in(1, 9); return (N) ((unsigned long) (L::max() / d) + (unsigned long) r.in(-1, 1)); }
	default: return (N) (r.next() >> r.in(0, 63));
	}
}
template<class N> static void somepairs(Rng &r) {
	typedef std::numeric_limits<N> L;
	note("safeops %s", tname<N>());
	for (int i = 0; i < 1500; i++) {
		N a = interesting<N>(r), b = interesting<N>(r);
		if (r.p(0.3) && a != 0 && !(L::is_signed && (long) a == -1)) b = (N) ((unsigned long) (L::max() / a) + (unsigned long) r.in(-1, 1));
		for (char op : {'+', '-', '*', '/'}) oneop<N>(op, a, b);
	}
	stat("operand pairs", 1500);
	sig(mix(sizeof(N) + 100 * L::is_signed, r.next()));
}
static void k_safeops(Rng &r) {
	switch (r.in(0, 6)) {
	case 0: {	// exhaustive, a slice of the pairs at a time
		int lo = r.in(0, 15) * 16;
		note("safeops 8 bits");
		for (int a = lo; a < lo + 16; a++) for (int b = 0; b < 256; b++) for (char op : {'+', '-', '*', '/'}) {
			oneop<signed char>(op, (signed char) a, (signed char) b);
			oneop<unsigned char>(op, (unsigned char) a, (unsigned char) b);
		}
		stat("operand pairs", 16 * 256 * 2);
		sig(lo);
		break; }
	case 1: somepairs<short>(r); break;
	case 2: somepairs<unsigned short>(r); break;
	case 3: somepairs<int>(r); break;
	case 4: somepairs<unsigned int>(r); break;
	case 5: somepairs<long>(r); break;
	case 6: somepairs<unsigned long>(r); break;
	}
}

static void k_rand(Rng &r) {
	static const std::vector<uint64_t> seeds = {0, 1, ~0ull, 4101842887655102017ull, 4101842887655102016ull, 1ull << 63};
	uint64_t seed = r.p(0.3) ? r.pick(seeds) : r.next();
	note("Rand %llu", (unsigned long long) seed);
	Rand a(seed), b(seed);
	if (a.seed() != seed) fail("rand seed", "seed() = %llu for %llu", (unsigned long long) a.seed(), (unsigned long long) seed);
	std::set<uint64_t> seen;
	uint64_t ones = 0, zeros = 0;
	for (int i = 0; i < 200; i++) {
		uint64_t x = a.bits(), y = b.bits();
		if (x != y) fail("rand reproducible", "seed %llu gives different sequences", (unsigned long long) seed);
		seen.insert(x); ones |= x; zeros |= ~x;
	}
	if (seen.size() < 199 || ones != ~0ull || zeros != ~0ull) fail("rand varies", "seed %llu: %zu different values in 200", (unsigned long long) seed, seen.size());
	uint64_t other = seed + 1 + r.in(0, 5);
	Rand c(other), a2(seed);
	int same = 0;
	for (int i = 0; i < 20; i++) same += c.bits() == a2.bits();
	if (same > 2) fail("rand seeds differ", "seeds %llu and %llu give the same values", (unsigned long long) seed, (unsigned long long) other);
	for (int t = 0; t < 6; t++) {
		long lo, hi;
		switch (r.in(0, 4)) {
		case 0: lo = r.in(-50, 50); hi = lo + r.in(0, 9); break;
		case 1: lo = LONG_MIN + r.in(0, 2); hi = LONG_MAX - r.in(0, 2); break;
		case 2: lo = LONG_MIN + r.in(0, 2); hi = lo + r.in(0, 3); break;
		case 3: hi = LONG_MAX - r.in(0, 2); lo = hi - r.in(0, 3); break;
		default: lo = (long) r.next(); hi = (long) r.next(); if (lo > hi) std::swap(lo, hi);
		}
		note("integer %ld %ld", lo, hi);
		uint64_t width = (uint64_t) hi - (uint64_t) lo;
		std::map<long, int> cnt;
		int n = width < 16 ? 200 * ((int) width + 1) : 60;
		for (int i = 0; i < n; i++) {
			long x = a.integer(lo, hi);
			if (x < lo || x > hi) fail("rand integer range", "integer(%ld, %ld) = %ld", lo, hi, x);
			if (x != (b.integer(lo, hi))) fail("rand reproducible", "integer(%ld, %ld)", lo, hi);
			cnt[x]++;
		}
		if (width < 16) {
			if (cnt.size() != width + 1) fail("rand integer reaches", "integer(%ld, %ld) never gave %zu of the values", lo, hi, (size_t) (width + 1 - cnt.size()));
			for (auto &p : cnt) if (p.second < 90 || p.second > 330) if (width > 0) fail("rand integer uniform", "integer(%ld, %ld) gave %ld %d times in %d", lo, hi, p.first, p.second, n);
		} else if (cnt.size() < 8) fail("rand integer reaches", "integer(%ld, %ld) gave only %zu values", lo, hi, cnt.size());
		else if (width > 1000000) {
			// 60 values on either side of the middle
			int low = 0; for (auto &p : cnt) low += (uint64_t) p.first - (uint64_t) lo < width / 2 ? p.second : 0;
			if (low < 5 || low > 55) fail("rand integer uniform", "integer(%ld, %ld): %d of 60 in the lower half", lo, hi, low);
		}
		stat("random integers", n);
		sig(mix(mix(lo, hi), seed));
	}
	int bins[8] = {0};
	for (int i = 0; i < 1600; i++) {
		double x = a.real();
		if (!(x >= 0 && x <= 1)) fail("rand real range", "real() = %g", x);
		if (x != b.real()) fail("rand reproducible", "real()");
		bins[x >= 1 ? 7 : (int) (x * 8)]++;
	}
	for (int i = 0; i < 8; i++) if (bins[i] < 110 || bins[i] > 300) fail("rand real uniform", "%d of 1600 reals in the %d-th eighth", bins[i], i);
	stat("random reals", 1600);
}

static uint32_t rol(uint32_t x, int k) { return x << k | x >> (32 - k); }
// Bob Jenkins' lookup3, byte by byte.
static void lookup3(const std::string &s, uint32_t &pc, uint32_t &pb) {
	uint32_t a, b, c;
	a = b = c = 0xdeadbeef + (uint32_t) s.size() + pc; c += pb;
	size_t i = 0, n = s.size();
	auto w = [&](size_t o) { uint32_t v = 0; for (int j = 3; j >= 0; j--) v = v << 8 | (o + j < s.size() ? (unsigned char) s[o+j] : 0); return v; };
	while (n > 12) {
		a += w(i); b += w(i+4); c += w(i+8);
		a -= c; a ^= rol(c, 4); c += b; b -= a; b ^= rol(a, 6); a += c; c -= b; c ^= rol(b, 8); b += a;
		a -= c; a ^= rol(c, 16); c += b; b -= a; b ^= rol(a, 19); a += c; c -= b; c ^= rol(b, 4); b += a;
		i += 12; n -= 12;
	}
	if (n == 0) { pc = c; pb = b; return; }
	a += w(i); b += w(i+4); c += w(i+8);
	c ^= b; c -= rol(b, 14); a ^= c; a -= rol(c, 11); b ^= a; b -= rol(a, 25);
	c ^= b; c -= rol(b, 16); a ^= c; a -= rol(c, 4); b ^= a; b -= rol(a, 14); c ^= b; c -= rol(b, 24);
	pc = c; pb = b;
}
static void k_math(Rng &r) {
	for (int t = 0; t < 50; t++) {
		uint32_t v = r.p(0.3) ? (1u << r.in(0, 31)) + (uint32_t) r.in(-1, 1) : (uint32_t) (r.next() >> r.in(32, 63));
		unsigned want = 0; for (uint32_t x = v; x; x >>= 1) want++;
		if (ilog2(v) != want) fail("ilog2", "ilog2(%u) = %u, expected %u", v, ilog2(v), want);
		unsigned b = r.in(0, 20), e = r.in(0, 16);
		unsigned long w = 1; for (unsigned i = 0; i < e; i++) w *= b;
		if (ipow(b, e) != w) fail("ipow", "ipow(%u, %u) = %lu, expected %lu", b, e, ipow(b, e), w);
		unsigned x = r.in(0, 20), n = r.in(0, x);
		w = 1; for (unsigned i = 0; i < n; i++) w *= x - i;
		if (fallfact(x, n) != w) fail("fallfact", "fallfact(%u, %u) = %lu, expected %lu", x, n, fallfact(x, n), w);
		double mu = r.real(-5, 5), s = r.real(0.05, 4), y = mu + s * r.real(-6, 6);
		long double z = ((long double) y - mu) / s, cdf = 0.5L * erfcl(-z / sqrtl(2)), pdf = expl(-z * z / 2) / (s * sqrtl(2 * acosl(-1)));
		Normal nm(mu, s);
		if (fabsl(nm.cdf(y) - cdf) > 1e-12) fail("normal cdf", "mean %g sd %g x %g: %g, expected %Lg", mu, s, y, nm.cdf(y), cdf);
		if (fabsl(normcdf(mu, s, y) - cdf) > 1e-12) fail("normcdf", "mean %g sd %g x %g: %g, expected %Lg", mu, s, y, normcdf(mu, s, y), cdf);
		if (fabsl(nm.pdf(y) - pdf) > 1e-9 * (1 + pdf)) fail("normal pdf", "mean %g sd %g x %g: %g, expected %Lg", mu, s, y, nm.pdf(y), pdf);
		double zz = (double) z;
		if (fabsl(phi(zz) - cdf) > 1e-12) fail("phi", "phi(%g) = %g, expected %Lg", zz, phi(zz), cdf);
		// The trapezoid rule is exact on lines, and close on a parabola.
		double c0 = r.real(-3, 3), c1 = r.real(-3, 3), c2 = r.real(-2, 2), lo = r.real(-5, 5), hi = lo + (r.p(0.1) ? 0 : r.real(0, 5)), st = r.real(0.01, 1.5);
		double ln = integrate([&](double q) { return c0 + c1 * q; }, lo, hi, st), we = c0 * (hi - lo) + c1 * (hi * hi - lo * lo) / 2;
		if (fabs(ln - we) > 1e-9 * (1 + fabs(we))) fail("integrate", "line %g+%gx on [%g, %g] step %g: %g, expected %g", c0, c1, lo, hi, st, ln, we);
		double pa = integrate([&](double q) { return c2 * q * q; }, lo, hi, st), wp = c2 * (hi * hi * hi - lo * lo * lo) / 3;
		if (fabs(pa - wp) > fabs(c2) * (hi - lo) * st * st / 6 + 1e-9) fail("integrate", "%gx^2 on [%g, %g] step %g: %g, expected about %g", c2, lo, hi, st, pa, wp);
		stat("math points");
	}
	// hash of bytes: the published function, wherever the bytes are
	int n = r.in(0, 40);
	std::string s; for (int i = 0; i < n; i++) s.push_back((char) r.in(0, 255));
	uint32_t p = 1000420526, q = 598948860; lookup3(s, p, q);
	unsigned long want = (unsigned long) q << 32 | p;
	for (int off = 0; off < 8; off++) {
		alignas(16) unsigned char buf[80];
		for (auto &c : buf) c = (unsigned char) r.next();
		memcpy(buf + off, s.data(), n);
		note("hashbytes of %d bytes at %d", n, off);
		unsigned long g = hashbytes(buf + off, n);
		if (g != want) fail("hashbytes", "%s at offset %d hashes to %lx, expected %lx", show(s).c_str(), off, g, want);
		stat("hashes");
	}
	// commas
	auto ref = [](std::string d) {
		std::string sgn; if (d[0] == '-') { sgn = "-"; d = d.substr(1); }
		size_t dot = d.find('.'); std::string fr = dot == std::string::npos ? "" : d.substr(dot); d = d.substr(0, dot);
		for (int i = (int) d.size() - 3; i > 0; i -= 3) d.insert(i, ",");
		return sgn + d + fr;
	};
	for (int t = 0; t < 20; t++) {
		long x = (long) (r.next() >> r.in(0, 63)); if (r.p(0.3)) x = -x;
		double y = (double) x / (1 << r.in(0, 20));
		note("commas %ld", x);
		if (commas("%ld", x) != ref(fmt("%ld", x))) fail("commas", "%ld is written %s", x, commas("%ld", x).c_str());
		if (commas("%f", y) != ref(fmt("%f", y))) fail("commas", "%f is written %s", y, commas("%f", y).c_str());
		stat("numbers formatted");
	}
	sig(r.next());
}

// ----------------------------------------------------------------

std::vector<Kind> vh::kinds() {
	std::string p = ctx.prop;
	if (p == "P19") return { {"codec", k_codec, 6}, {"ranks", k_ranks, 3}, {"eps", k_eps, 2} };
	if (p == "P20") return { {"pairs", k_pairs, 20}, {"overlong", k_overlong, 2}, {"truncate", k_truncate, 1} };
	if (p == "P22") return { {"rmrecur", k_rmrecur, 3}, {"readdir", k_readdir, 3}, {"paths", k_paths, 2}, {"strings", k_strings, 4} };
	if (p == "P26") return { {"safeops", k_safeops, 8}, {"rand", k_rand, 4}, {"math", k_math, 4} };
	return {};
}
