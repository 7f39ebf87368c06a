// Common machinery of the monitors: case generation, reporting, CPU watchdog,
// stdout capture, child processes.  Header-only; one translation unit defines
// VH_MAIN before including it.
#pragma once
#include <cassert>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// Only in the builds of tools/cover.sh: the counters are written before an _exit.
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
static inline void covwrite() { if (__llvm_profile_write_file) __llvm_profile_write_file(); }

namespace vh {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x = 1) : s(x) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	// inclusive range
	long in(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
	double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double lo, double hi) { return lo + (hi - lo) * real(); }
	bool p(double pr) { return real() < pr; }
	template<class T> T &pick(std::vector<T> &v) { return v[next() % v.size()]; }
	template<class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
	template<class T> void shuffle(std::vector<T> &v) {
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[next() % i]);
	}
};

inline uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c159e3779b9ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hashstr(const std::string &s) {
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return mix(h, s.size());
}

// Thrown by fail() to abandon the current case.
struct CaseFailed {};

struct Ctx {
	FILE *rep = NULL;
	uint64_t seed = 1;
	long cur = -1;
	std::string kind;
	bool thorough = false;
	bool verbose = false;
	long nviol = 0;
	std::string prop;
	std::map<std::string, long> stats;
	std::set<uint64_t> sigs;
	std::vector<std::string> samples;
	long nsamples = 0;
	std::map<std::string, std::string> opts;
};
extern Ctx ctx;

std::string fmtv(const char *f, va_list ap);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// viol records a violation of the property and goes on with the case.
void viol(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
// fail records a violation and abandons the case.
void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));

inline void stat(const std::string &k, long n = 1) { ctx.stats[k] += n; }
// sig records one distinct, non-trivial observation.
inline void sig(uint64_t s) { if (ctx.sigs.size() < 400000) ctx.sigs.insert(s); }
void sample(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline bool wantsample() { return ctx.samples.size() < 3; }

// note describes what the case is about to do; it is shown when it crashes.
void note(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Everything written to stdout between capbegin and capend.
void capbegin();
std::string capend();

struct Child {
	bool exited = false, signaled = false, timeout = false;
	int code = -1, sig = 0;
	std::string out, err;
	bool sane() const;	// false if a sanitizer/assertion/signal ended it, or it ran out of time
	std::string describe() const;
};
// Runs f in a forked child with stdout/stderr captured; cpusecs of CPU time.
// f's return is the exit code.
Child inchild(std::function<int()> f, int cpusecs = 20, const std::string &in = "");
// Runs a program.
Child run(const std::vector<std::string> &argv, const std::string &in = "", int cpusecs = 20,
	const std::string &cwd = "");

// A scratch directory private to this process, removed at exit.
const std::string &scratch();
void wipe(const std::string &dir);	// removes a directory in it
void writefile(const std::string &path, const std::string &data);
std::string readfile(const std::string &path);

FILE *strfile(const std::string &s);	// a FILE* reading the string

struct Kind { const char *name; std::function<void(Rng&)> fn; int weight; };
// Each harness provides the list of its case kinds.
std::vector<Kind> kinds();

}	// namespace vh

#ifdef VH_MAIN
namespace vh {
Ctx ctx;
static char *notebuf;
static int capfd = -1;
static double casesecs = 30;
static pid_t mainpid;

std::string fmtv(const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(NULL, 0, f, a2); va_end(a2);
	std::vector<char> b(n + 1);
	vsnprintf(b.data(), n + 1, f, ap);
	return std::string(b.data(), n);
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s; }

static std::string oneline(std::string s) {
	for (auto &c : s) if (c == '\n') c = '|'; else if (c == '\t' || (unsigned char) c < 32) c = ' ';
	return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
}
static void report(const std::string &key, const std::string &msg) {
	ctx.nviol++;
	fprintf(ctx.rep, "VIOL\t%ld\t%s\t%s\t%s\n", ctx.cur, ctx.kind.c_str(), oneline(key).c_str(), oneline(msg).c_str());
	fflush(ctx.rep);
}
void viol(const std::string &key, const char *f, ...) {
	va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); report(key, s);
}
void fail(const std::string &key, const char *f, ...) {
	va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); report(key, s);
	throw CaseFailed();
}
void sample(const char *f, ...) {
	if (ctx.samples.size() >= 3) return;
	va_list ap; va_start(ap, f); ctx.samples.push_back(oneline(fmtv(f, ap))); va_end(ap);
}
void note(const char *f, ...) {
	va_list ap; va_start(ap, f);
	std::string s = oneline(fmtv(f, ap));
	va_end(ap);
	if (ctx.verbose) fprintf(ctx.rep, "NOTE\t%s\n", s.c_str()), fflush(ctx.rep);
	snprintf(notebuf, 4096, "%s", s.c_str());
}
void capbegin() {
	fflush(stdout);
	if (ftruncate(capfd, 0) != 0) abort();
	lseek(capfd, 0, SEEK_SET);
}
static std::string readfd(int fd) {
	std::string s; char b[65536]; off_t o = 0; ssize_t n;
	while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}
std::string capend() { fflush(stdout); return readfd(capfd); }

bool Child::sane() const {
	if (!exited || timeout) return false;
	if (code == 99 || code == 98) return false;
	if (err.find("runtime error:") != std::string::npos) return false;
	if (err.find("Sanitizer") != std::string::npos) return false;
	return true;
}
std::string Child::describe() const {
	std::string s = exited ? fmt("exit %d", code) : signaled ? fmt("signal %d", sig) : std::string("?");
	if (timeout) s += " (CPU time exhausted)";
	size_t p = err.find("ERROR: ");
	size_t q = err.find("runtime error:");
	if (q != std::string::npos && (p == std::string::npos || q < p)) p = q > 120 ? q - 120 : 0;
	size_t as = err.find(": Assertion `");
	if (as != std::string::npos) {
		size_t b = err.rfind('\n', as);
		s += " " + err.substr(b == std::string::npos ? 0 : b + 1, 300);
		return s.substr(0, s.find('\n'));
	}
	s += " stderr: " + (p == std::string::npos ? err.substr(0, 400) : err.substr(p, 700));
	return s;
}
static int tmpfd() {
	int fd = memfd_create("vh", MFD_CLOEXEC);
	if (fd < 0) { perror("memfd_create"); abort(); }
	return fd;
}
static Child await(pid_t pid, int fo, int fe) {
	Child c; int st = 0; struct rusage ru;
	while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) ;
	c.exited = WIFEXITED(st); if (c.exited) c.code = WEXITSTATUS(st);
	c.signaled = WIFSIGNALED(st); if (c.signaled) { c.sig = WTERMSIG(st); c.timeout = c.sig == SIGXCPU || c.sig == SIGKILL; }
	c.out = readfd(fo); c.err = readfd(fe);
	close(fo); close(fe);
	return c;
}
static void childlimits(int cpusecs) {
	struct itimerval z = {}; setitimer(ITIMER_VIRTUAL, &z, NULL);
	signal(SIGVTALRM, SIG_DFL);
	struct rlimit rl = { (rlim_t) cpusecs, (rlim_t) cpusecs + 2 }; setrlimit(RLIMIT_CPU, &rl);
	struct rlimit fs = { 256u<<20, 256u<<20 }; setrlimit(RLIMIT_FSIZE, &fs);
}
Child inchild(std::function<int()> f, int cpusecs, const std::string &in) {
	fflush(stdout); fflush(stderr); fflush(ctx.rep);
	int fo = tmpfd(), fe = tmpfd(), fi = tmpfd();
	if (write(fi, in.data(), in.size()) != (ssize_t) in.size()) abort();
	lseek(fi, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); abort(); }
	if (pid == 0) {
		childlimits(cpusecs);
		dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
		rewind(stdin);
		int r;
		try { r = f(); } catch (CaseFailed&) { r = 95; }	// already reported
		fflush(stdout); fflush(stderr); fflush(ctx.rep);
		covwrite();
		_exit(r);
	}
	close(fi);
	return await(pid, fo, fe);
}
Child run(const std::vector<std::string> &argv, const std::string &in, int cpusecs, const std::string &cwd) {
	fflush(stdout); fflush(stderr); fflush(ctx.rep);
	int fo = tmpfd(), fe = tmpfd(), fi = tmpfd();
	if (write(fi, in.data(), in.size()) != (ssize_t) in.size()) abort();
	lseek(fi, 0, SEEK_SET);
	std::vector<char*> av;
	for (auto &a : argv) av.push_back(const_cast<char*>(a.c_str()));
	av.push_back(NULL);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); abort(); }
	if (pid == 0) {
		childlimits(cpusecs);
		if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(97);
		dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
		execv(av[0], av.data());
		_exit(97);
	}
	close(fi);
	return await(pid, fo, fe);
}
static std::string scratchdir;
static bool allover = false;
static void ondeath() {
	if (getpid() == mainpid && !allover && notebuf && notebuf[0]) {
		fprintf(stderr, "NOTE: %s\n", notebuf); fflush(stderr);
	}
}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vh {
static void rmscratch() {
	if (getpid() != mainpid || scratchdir.empty()) return;
	// never follows symbolic links
	std::string cmd = "rm -rf -- '" + scratchdir + "'";
	if (system(cmd.c_str()) != 0) { }
}
const std::string &scratch() {
	if (scratchdir.empty()) {
		const char *base = getenv("VH_SCRATCH");
		std::string t = std::string(base ? base : "/tmp") + "/vhXXXXXX";
		std::vector<char> b(t.begin(), t.end()); b.push_back(0);
		if (!mkdtemp(b.data())) { perror("mkdtemp"); abort(); }
		scratchdir = b.data();
	}
	return scratchdir;
}
void wipe(const std::string &dir) {
	if (dir.compare(0, scratch().size() + 1, scratch() + "/") || dir.find("..") != std::string::npos || dir.find('\'') != std::string::npos) abort();
	std::string cmd = "rm -rf -- '" + dir + "'";
	if (system(cmd.c_str()) != 0) { }
}
void writefile(const std::string &path, const std::string &data) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); abort(); }
	fwrite(data.data(), 1, data.size(), f);
	fclose(f);
}
std::string readfile(const std::string &path) {
	FILE *f = fopen(path.c_str(), "r");
	std::string s; if (!f) return s;
	char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f); return s;
}
FILE *strfile(const std::string &s) {
	int fd = tmpfd();
	if (write(fd, s.data(), s.size()) != (ssize_t) s.size()) abort();
	lseek(fd, 0, SEEK_SET);
	return fdopen(fd, "r");
}
static void ontimer(int) {
	char b[200];
	int n = snprintf(b, sizeof b, "TIMEOUT\t%ld\n", ctx.cur);
	if (write(fileno(ctx.rep), b, n) < 0) { }
	_exit(96);
}
static void armtimer() {
	struct itimerval t = {};
	t.it_value.tv_sec = (long) casesecs;
	setitimer(ITIMER_VIRTUAL, &t, NULL);
}
static int usage() { fprintf(stderr, "bad harness usage\n"); return 2; }
static void disarm() { struct itimerval t = {}; setitimer(ITIMER_VIRTUAL, &t, NULL); }
}	// namespace vh

int main(int argc, char *argv[]) {
	using namespace vh;
	mainpid = getpid();
	long from = 0, step = 1, count = 1, only = -1;
	std::string kind;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (i + 1 >= argc) return usage();
		if (a == "--seed") ctx.seed = strtoull(argv[++i], NULL, 10);
		else if (a == "--from") from = atol(argv[++i]);
		else if (a == "--step") step = atol(argv[++i]);
		else if (a == "--count") count = atol(argv[++i]);
		else if (a == "--case") only = atol(argv[++i]);
		else if (a == "--kind") kind = argv[++i];
		else if (a == "--prop") ctx.prop = argv[++i];
		else if (a == "--casesecs") casesecs = atof(argv[++i]);
		else if (a == "--thorough") ctx.thorough = atoi(argv[++i]);
		else if (a == "--verbose") ctx.verbose = atoi(argv[++i]);
		else if (a == "--opt") {
			std::string o = argv[++i]; size_t e = o.find('=');
			ctx.opts[o.substr(0, e)] = e == std::string::npos ? "1" : o.substr(e + 1);
		} else return usage();
	}
	int rfd = fcntl(1, F_DUPFD_CLOEXEC, 100);
	ctx.rep = fdopen(rfd, "w");
	capfd = fcntl(tmpfd(), F_DUPFD_CLOEXEC, 110);
	dup2(capfd, 1);
	notebuf = (char*) mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	atexit(rmscratch);
	atexit(ondeath);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
	signal(SIGVTALRM, ontimer);

	std::vector<Kind> ks = kinds();
	std::vector<int> wheel;
	for (size_t k = 0; k < ks.size(); k++)
		for (int w = 0; w < ks[k].weight; w++) wheel.push_back(k);
	// Interleave the kinds deterministically.
	{ Rng r(12345); r.shuffle(wheel); }
	long done = 0;
	// Runs in forked children so that a crash of the code under test loses
	// only the case it happened in; statistics are flushed by each child.
	long i = only >= 0 ? only : from;
	long end = only >= 0 ? only + 1 : count;
	if (only >= 0) step = 1;
	for (; i < end; i += step) {
		const Kind &k = ks[wheel[i % wheel.size()]];
		if (!kind.empty() && kind != k.name) continue;
		ctx.cur = i;
		ctx.kind = k.name;
		fprintf(ctx.rep, "CASE\t%ld\t%s\n", i, k.name);
		fflush(ctx.rep);
		notebuf[0] = 0;
		Rng r(mix(mix(ctx.seed, i), hashstr(k.name)));
		armtimer();
		capbegin();
		try { k.fn(r); } catch (CaseFailed&) { }
		disarm();
		done++;
		stat(std::string("cases ") + k.name);
		if (ctx.nviol > 20) break;
	}
	allover = true;
	for (auto &s : ctx.stats) fprintf(ctx.rep, "STAT\t%s\t%ld\n", s.first.c_str(), s.second);
	for (auto &s : ctx.samples) fprintf(ctx.rep, "SAMPLE\t%s\n", s.c_str());
	std::string buf;
	int c = 0;
	for (auto s : ctx.sigs) {
		fprintf(ctx.rep, c++ % 16 ? " %llx" : (c > 1 ? "\nSIG\t%llx" : "SIG\t%llx"), (unsigned long long) s);
	}
	if (c) fprintf(ctx.rep, "\n");
	fprintf(ctx.rep, "DONE\t%ld\n", done);
	fflush(ctx.rep);
	fflush(stdout);
	rmscratch();
	// Skip static destructors: leaks and teardown are not what is checked.
	covwrite();
	_exit(0);
}

#endif
