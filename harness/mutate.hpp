// Malformed instances and command lines (P24).
#pragma once
#include "vh.hpp"
#include <functional>
#include <sstream>
#include <cerrno>

namespace sv {
using namespace vh;

// How an instance ends.
struct Shape {
	bool cells = false;		// with the cells of a map: none may be missing
	int tail = 0;			// with a list without a count, of so many words each,
	std::function<size_t(const std::string &inst)> head;	// after so many words
};
struct Mut {
	std::string text, how;
	bool cut = false;	// certainly incomplete
};
inline std::vector<std::pair<size_t,size_t> > words(const std::string &t) {
	std::vector<std::pair<size_t,size_t> > w;
	for (size_t i = 0; i < t.size(); ) {
		while (i < t.size() && isspace((unsigned char) t[i])) i++;
		size_t j = i;
		while (j < t.size() && !isspace((unsigned char) t[j])) j++;
		if (j > i) w.push_back(std::make_pair(i, j));
		i = j;
	}
	return w;
}
inline Mut mutate(Rng &r, const std::string &inst, const Shape &o) {
	Mut m;
	m.text = inst;
	int n = r.in(0, 3) ? 1 : r.in(2, 4);
	for (int k = 0; k < n; k++) {
		std::string &t = m.text;
		auto w = words(t);
		switch (w.empty() ? 9 : r.in(0, 9)) {
		case 0: case 1: {	// cut
			size_t at = r.in(0, 1) ? r.in(0, t.size() - 1) : t.size() - 1 - r.in(0, std::min<size_t>(t.size() - 1, 40));
			if (n == 1) {
				size_t left = words(t.substr(0, at)).size();
				size_t head = o.tail ? o.head(inst) : w.size();
				m.cut = left < head || (o.tail && (left - head) % o.tail);
				if (o.cells && at < w.back().second) m.cut = true;
			}
			t.resize(at); m.how += fmt(" cut at %zu", at);
			break; }
		case 2: case 3: case 4: {	// another word
			static const char *vals[] = { "-1", "0", "1", "2", "3", "7", "255", "65536", "4294967295", "2147483648", "99999999999999999999", "x", "nan", "inf", "1e300", "-0.5", "0.5", "-7", "%s%n", "1e-300", "-2147483648", "16777216" };
			auto &x = w[r.in(0, 1) ? r.in(0, w.size() - 1) : r.in(0, std::min<size_t>(w.size() - 1, 6))];
			std::string v = r.in(0, 19) ? vals[r.in(0, sizeof vals / sizeof *vals - 1)] : std::string(r.in(1, 5000), "a9#-\xff"[r.in(0, 4)]);
			m.how += fmt(" word at %zu becomes %.30s", x.first, v.c_str());
			t.replace(x.first, x.second - x.first, v);
			break; }
		case 5: {	// a word more or less
			auto &x = w[r.in(0, w.size() - 1)];
			std::string v = t.substr(x.first, x.second - x.first);
			if (r.in(0, 1)) { t.insert(x.first, v + (r.in(0, 1) ? " " : "\n")); m.how += fmt(" word at %zu twice", x.first); }
			else { t.erase(x.first, x.second - x.first); m.how += fmt(" no word at %zu", x.first); }
			break; }
		case 6: {	// two words exchanged
			auto x = w[r.in(0, w.size() - 1)], y = w[r.in(0, w.size() - 1)];
			if (x.first > y.first) std::swap(x, y);
			if (x.first == y.first) break;
			std::string a = t.substr(x.first, x.second - x.first), b = t.substr(y.first, y.second - y.first);
			t.replace(y.first, y.second - y.first, a); t.replace(x.first, x.second - x.first, b);
			m.how += fmt(" words at %zu and %zu exchanged", x.first, y.first);
			break; }
		case 7: case 8: {	// bytes
			size_t at = r.in(0, t.size() - 1);
			char c = r.in(0, 2) ? " \n\r\t0-#@.9:TGV_*"[r.in(0, 16)] : (char) r.in(0, 255);
			int op = r.in(0, 2);
			if (op == 0) t[at] = c; else if (op == 1) t.insert(at, 1, c); else t.erase(at, r.in(1, 3));
			m.how += fmt(" byte at %zu: %d %d", at, op, (unsigned char) c);
			break; }
		default: {	// lines, or something else altogether
			int op = r.in(0, 5);
			if (op == 0) { t = ""; m.how += " empty"; }
			else if (op == 1) { t = ""; for (int i = r.in(1, 200); i > 0; i--) t += (char) (r.in(0, 1) ? r.in(0, 255) : "0123456789 \n"[r.in(0, 11)]); m.how += " random"; }
			else if (op == 2) { t += "17 x\n-1 0 0"; m.how += " more at the end"; }
			else {
				std::vector<std::string> ls; std::stringstream ss(t); std::string l;
				while (std::getline(ss, l)) ls.push_back(l);
				if (ls.empty()) break;
				size_t a = r.in(0, ls.size() - 1), b = r.in(0, ls.size() - 1);
				if (op == 3) ls.erase(ls.begin() + a); else if (op == 4) ls.insert(ls.begin() + a, ls[b]); else std::swap(ls[a], ls[b]);
				t = ""; for (auto &x : ls) t += x + "\n";
				m.how += fmt(" lines %zu %zu %d", a, b, op);
			} }
		}
	}
	return m;
}
// A text that asks for much memory or time may have it.
inline bool huge(const std::string &t) {
	int run = 0;
	for (size_t i = 0; i < t.size(); i++) {
		run = isdigit((unsigned char) t[i]) ? run + 1 : 0;
		if (run >= 4 || (run == 1 && i && t[i - 1] == '-') || (t[i] == 'e' && i && isdigit((unsigned char) t[i - 1])) || !t.compare(i, 3, "inf")) return true;
	}
	return false;
}
inline bool outofmemory(const Child &c) {
	for (const char *s : { "allocation-size-too-big", "out-of-memory", "out of memory", "ailed to mmap", "bad_alloc", "hard rss limit", "length_error", "requested allocation size" }) if (c.err.find(s) != std::string::npos) return true;
	return false;
}
// What a program may do with anything it is given.
inline void judged(const Child &c, const Mut &m, bool given, const std::string &what) {
	if (!given && what.find("-mem") != std::string::npos && !c.sane()) { stat("ran out of resources"); return; }
	if ((c.timeout || outofmemory(c)) && (huge(given ? m.text : what) || what.find("-mem") != std::string::npos)) { stat("ran out of resources"); return; }
	if (!c.sane()) fail("malformed input: crash or hang", "%s: %s", c.describe().c_str(), what.c_str());
	if (c.code) {
		stat("rejected");
		// dfcmplt answers by its status.
		if (c.err.empty() && c.out.empty() && what.compare(0, 8, "dfcmplt ")) fail("malformed input: rejected without a message", "exit %d: %s", c.code, what.c_str());
		if (m.cut) stat("truncations rejected");
	} else {
		stat("accepted");
		if (m.cut) fail("malformed input: a truncated instance is accepted", "%s", what.c_str());
	}
}
// The numbers that begin a text, up to the first word that is none.
inline std::vector<long> numbers(const char *t) {
	std::vector<long> v;
	for (char *e;; t = e) { errno = 0; long x = strtol(t, &e, 10); if (e == t || errno) return v; v.push_back(x); }
}
inline bool permutation(std::vector<long> v, size_t n) {
	if (v.size() < n) return false;
	v.resize(n);
	std::sort(v.begin(), v.end());
	for (size_t i = 0; i < n; i++) if (v[i] != (long) i) return false;
	return true;
}

}
