// Monitors of utils/geom2d (P17).  The inputs have coordinates on a dyadic
// grid, so that the reference answers are exact; where the answer depends on
// rounding (arcs, angles) only inputs with a clear margin are judged.
#define VH_MAIN
#include "vh.hpp"
#include "utils/utils.hpp"
#include "utils/geom2d.hpp"
using namespace vh;
using namespace geom2d;

static long G = 64;	// coordinates are integers over G/scale
static const double Scale = 8;

struct IP { long x, y; bool operator==(const IP &o) const { return x == o.x && y == o.y; } bool operator<(const IP &o) const { return x != o.x ? x < o.x : y < o.y; } };
static Pt pt(IP p) { return Pt(p.x / Scale, p.y / Scale); }
static IP ip(Rng &r, long g) { return IP{r.in(-g, g), r.in(-g, g)}; }
static std::string S(IP p) { return fmt("(%g,%g)", p.x / Scale, p.y / Scale); }
static std::string S(const Pt &p) { return fmt("(%.12g,%.12g)", p.x, p.y); }
static long cross(IP a, IP b, IP c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sgn(long v) { return (v > 0) - (v < 0); }
static bool onseg(IP a, IP b, IP p) {
	return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool meet(IP a, IP b, IP c, IP d) {
	int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
	if (s1 * s2 < 0 && s3 * s4 < 0) return true;
	return onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b);
}
static long double ptseg(long double px, long double py, long double ax, long double ay, long double bx, long double by) {
	long double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l == 0 ? 0 : ((px - ax) * dx + (py - ay) * dy) / l;
	if (t < 0) t = 0; if (t > 1) t = 1;
	return hypotl(px - ax - t * dx, py - ay - t * dy);
}
static bool close(double a, double b, double tol = 1e-9) { return fabs(a - b) <= tol * (1 + fabs(b)); }
static bool close(const Pt &a, const Pt &b, double tol = 1e-9) { return close(a.x, b.x, tol) && close(a.y, b.y, tol); }

// A second segment in some relation to the first.
static void other(Rng &r, IP a, IP b, IP &c, IP &d, long g) {
	switch (r.in(0, 9)) {
	case 0: c = a; d = ip(r, g); break;		// shares an endpoint
	case 1: c = b; d = ip(r, g); break;
	case 2: case 3: case 4: {	// on the same line
		long dx = b.x - a.x, dy = b.y - a.y, q = std::__gcd(labs(dx), labs(dy));
		if (q == 0) q = 1;
		long t0 = r.in(-q - 2, 2 * q + 2), t1 = r.in(-q - 2, 2 * q + 2);
		c = IP{a.x + dx / q * t0, a.y + dy / q * t0}; d = IP{a.x + dx / q * t1, a.y + dy / q * t1}; break; }
	case 5: {	// parallel
		long ox = r.in(-3, 3), oy = r.in(-3, 3);
		c = IP{a.x + ox, a.y + oy}; d = IP{b.x + ox, b.y + oy}; break; }
	case 6: {	// ends on it
		long dx = b.x - a.x, dy = b.y - a.y, q = std::__gcd(labs(dx), labs(dy));
		long t = q ? r.in(0, q) : 0; if (!q) q = 1;
		c = IP{a.x + dx / q * t, a.y + dy / q * t}; d = ip(r, g); break; }
	case 7: c = IP{r.in(-g, g), a.y}; d = IP{r.in(-g, g), a.y}; break;
	case 8: c = IP{b.x, r.in(-g, g)}; d = IP{b.x, r.in(-g, g)}; break;
	default: c = ip(r, g); d = ip(r, g);
	}
}
static void seg(Rng &r, IP &a, IP &b, long g) {
	a = ip(r, g); b = ip(r, g);
	switch (r.in(0, 5)) { case 0: b.x = a.x; break; case 1: b.y = a.y; break; case 2: if (r.p(0.2)) b = a; break; }
}

static void k_segs(Rng &r) {
	for (int t = 0; t < 60; t++) {
		long g = r.pick(std::vector<long>{3, 8, 64, 400});
		IP a, b, c, d;
		seg(r, a, b, g); other(r, a, b, c, d, g);
		if (r.p(0.5)) { std::swap(a, c); std::swap(b, d); }
		if (r.p(0.5)) std::swap(a, b);
		LineSg l(pt(a), pt(b)), o(pt(c), pt(d));
		note("segments %s-%s %s-%s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str());
		bool want = meet(a, b, c, d);
		Pt p = l.isect(o), q = o.isect(l);
		if (p.isinf() == want) fail("segment intersection", "%s-%s and %s-%s %s, isect says %s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), want ? "meet" : "do not meet", S(p).c_str());
		if (q.isinf() == want) fail("segment intersection symmetry", "%s-%s and %s-%s %s, isect says %s", S(c).c_str(), S(d).c_str(), S(a).c_str(), S(b).c_str(), want ? "meet" : "do not meet", S(q).c_str());
		if (l.hits(o) != want || o.hits(l) != want) fail("segment hits", "%s-%s and %s-%s: hits says %d and %d", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), l.hits(o), o.hits(l));
		if (want) {
			for (const Pt &x : {p, q}) {
				double e = std::max(ptseg(x.x, x.y, l.p0.x, l.p0.y, l.p1.x, l.p1.y), ptseg(x.x, x.y, o.p0.x, o.p0.y, o.p1.x, o.p1.y));
				if (!(e < 1e-6)) fail("segment intersection point", "%s-%s and %s-%s: %s is %g off", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), S(x).c_str(), e);
			}
			stat("segments that meet");
			if (sgn(cross(a, b, c)) == 0 && sgn(cross(a, b, d)) == 0) stat("collinear segments that meet");
		} else stat("segments that do not meet");
		if (!close(l.length(), (double) (hypotl(a.x - b.x, a.y - b.y) / Scale))) fail("length", "of %s-%s: %g", S(a).c_str(), S(b).c_str(), l.length());
		if (!close(l.midpt(), Pt((a.x + b.x) / 2.0 / Scale, (a.y + b.y) / 2.0 / Scale))) fail("midpt", "of %s-%s: %s", S(a).c_str(), S(b).c_str(), S(l.midpt()).c_str());
		if (!(a == b)) {
			double dist = r.real(-2, 2) * l.length(), len = l.length();
			Pt w(l.p0.x + (l.p1.x - l.p0.x) * dist / len, l.p0.y + (l.p1.y - l.p0.y) * dist / len);
			if (!close(l.along(dist), w, 1e-8)) fail("along", "%g along %s-%s: %s", dist, S(a).c_str(), S(b).c_str(), S(l.along(dist)).c_str());
			// infinite lines
			IP e = r.p(0.5) ? c : ip(r, g);
			Line ln(pt(a), pt(b));
			if (ln.contains(pt(e)) != (cross(a, b, e) == 0)) fail("line contains", "%s on the line %s-%s: %d", S(e).c_str(), S(a).c_str(), S(b).c_str(), ln.contains(pt(e)));
			if (a.x != b.x) {
				long s = cross(a, b, e) * (b.x > a.x ? 1 : -1);
				if (s != 0 && ln.isabove(pt(e)) != (s > 0)) fail("line isabove", "%s above the line %s-%s: %d", S(e).c_str(), S(a).c_str(), S(b).c_str(), ln.isabove(pt(e)));
			}
			if (!(c == d)) {
				Line l2(pt(c), pt(d));
				long den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
				Pt x = ln.isect(l2), y = l2.isect(ln);
				if (x.isinf() != (den == 0) || y.isinf() != (den == 0)) fail("lines isect", "lines %s-%s and %s-%s: %s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), S(x).c_str());
				if (den) {
					double t = (double) ((long double) ((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / den);
					Pt w((a.x + t * (b.x - a.x)) / Scale, (a.y + t * (b.y - a.y)) / Scale);
					if (!close(x, w, 1e-6) || !close(y, w, 1e-6)) fail("lines isect point", "lines %s-%s and %s-%s: %s, expected %s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), S(x).c_str(), S(w).c_str());
				}
				stat("lines");
			}
		}
		sig(mix(mix(a.x * 1000 + a.y, b.x * 1000 + b.y), mix(c.x * 1000 + c.y, d.x * 1000 + d.y)));
		if (wantsample()) sample("segments %s-%s %s-%s meet: %d", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), want);
	}
}

static void k_pts(Rng &r) {
	for (int t = 0; t < 40; t++) {
		IP a = ip(r, G), b = ip(r, G), c = ip(r, G);
		if (r.p(0.2)) a.x = 0; if (r.p(0.2)) a.y = 0;
		note("points %s %s %s", S(a).c_str(), S(b).c_str(), S(c).c_str());
		Pt p = pt(a), q = pt(b), w = pt(c);
		double ang = p.angle(), wa = atan2(p.y, p.x); if (wa < 0) wa += 2 * M_PI;
		if (!close(ang, wa) || !close(Pt::angle(p), wa)) fail("angle", "of %s: %g", S(a).c_str(), ang);
		if (!(ang >= 0 && ang <= 2 * M_PI)) fail("angle", "of %s: %g", S(a).c_str(), ang);
		if (!close(Pt::dot(p, q), (double) (a.x * b.x + a.y * b.y) / Scale / Scale)) fail("dot", "%s %s", S(a).c_str(), S(b).c_str());
		if (!close(Pt::distance(p, q), (double) hypotl(a.x - b.x, a.y - b.y) / Scale)) fail("distance", "%s %s: %g", S(a).c_str(), S(b).c_str(), Pt::distance(p, q));
		if (!close(Pt::sub(p, q), pt(IP{a.x - b.x, a.y - b.y}))) fail("sub", "%s %s", S(a).c_str(), S(b).c_str());
		if ((p == q) != (a == b) || (p != q) == (a == b)) fail("point equality", "%s %s", S(a).c_str(), S(b).c_str());
		// the turn from u-v to v-w, positive when clock-wise
		long cr = cross(a, b, c);
		if (!(a == b) && !(b == c)) {
			double cw = Pt::cwangle(p, q, w);
			if (cr && (cw < 0) != (cr > 0)) fail("cwangle sign", "%s %s %s: %g", S(a).c_str(), S(b).c_str(), S(c).c_str(), cw);
			Pt u = q.minus(p), v = w.minus(q);
			long double dt = (long double) u.x * v.x + (long double) u.y * v.y, cs = (long double) u.x * v.y - (long double) u.y * v.x;
			if (!close(fabs(cw), (double) fabsl(atan2l(cs, dt)))) fail("cwangle", "%s %s %s: %g", S(a).c_str(), S(b).c_str(), S(c).c_str(), cw);
		}
		double th = r.p(0.3) ? r.in(-8, 8) * M_PI / 4 : r.real(-10, 10);
		Pt x = p; x.rotate(th);
		long double ct = cosl(th), st = sinl(th);
		if (!close(x, Pt(p.x * ct - p.y * st, p.x * st + p.y * ct))) fail("rotate", "%s by %g: %s", S(a).c_str(), th, S(x).c_str());
		x = p; x.scale(2, -3); if (!close(x, Pt(2 * p.x, -3 * p.y))) fail("scale", "%s", S(a).c_str());
		x = p; x.translate(1.5, -2); if (!close(x, Pt(p.x + 1.5, p.y - 2))) fail("translate", "%s", S(a).c_str());
		// boxes
		IP d = ip(r, G);
		if (r.p(0.3)) { c.x = a.x; } if (r.p(0.3)) d.y = b.y; if (r.p(0.1)) { c = a; d = b; }
		Bbox bx = r.p(0.5) ? Bbox(p, q) : Bbox(p.x, p.y, q.x, q.y), by(pt(c), pt(d));
		long x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
		long X0 = std::min(c.x, d.x), X1 = std::max(c.x, d.x), Y0 = std::min(c.y, d.y), Y1 = std::max(c.y, d.y);
		if (!close(bx.min, pt(IP{x0, y0})) || !close(bx.max, pt(IP{x1, y1}))) fail("box", "of %s %s", S(a).c_str(), S(b).c_str());
		IP e = r.p(0.5) ? IP{r.in(x0, x1), r.in(y0, y1)} : ip(r, G);
		bool in = e.x >= x0 && e.x <= x1 && e.y >= y0 && e.y <= y1;
		if (bx.contains(pt(e)) != in) fail("box contains", "%s in the box of %s %s: %d", S(e).c_str(), S(a).c_str(), S(b).c_str(), !in);
		bool hit = x0 <= X1 && X0 <= x1 && y0 <= Y1 && Y0 <= y1;
		if (bx.hits(by) != hit || by.hits(bx) != hit) fail("box hits", "%s-%s and %s-%s: %d %d", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str(), bx.hits(by), by.hits(bx));
		if ((bx == by) != (x0 == X0 && x1 == X1 && y0 == Y0 && y1 == Y1)) fail("box equality", "%s-%s and %s-%s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str());
		if (!close(bx.center(), Pt((x0 + x1) / 2.0 / Scale, (y0 + y1) / 2.0 / Scale))) fail("box center", "%s-%s", S(a).c_str(), S(b).c_str());
		Bbox tr = bx; tr.translate(2, -0.5);
		if (!close(tr.min, Pt(x0 / Scale + 2, y0 / Scale - 0.5)) || !close(tr.max, Pt(x1 / Scale + 2, y1 / Scale - 0.5))) fail("box translate", "%s-%s", S(a).c_str(), S(b).c_str());
		std::vector<Pt> pv = {p, q, pt(c), pt(d)};
		Bbox all(pv);
		if (!close(all.min, pt(IP{std::min(x0, X0), std::min(y0, Y0)})) || !close(all.max, pt(IP{std::max(x1, X1), std::max(y1, Y1)}))) fail("box of points", "%s %s %s %s", S(a).c_str(), S(b).c_str(), S(c).c_str(), S(d).c_str());
		stat("points and boxes");
		sig(mix(mix(a.x * 1000 + a.y, b.x * 1000 + b.y), mix(c.x * 1000 + c.y, d.x * 1000 + d.y)));
	}
}

// -1 no, 1 yes, 0 too close to call.
static int judge(long double slack) { return slack > 1e-6L ? 1 : slack < -1e-6L ? -1 : fabsl(slack) < 1e-11L ? 1 : 0; }

static void k_arcs(Rng &r) {
	for (int t = 0; t < 60; t++) {
		IP ci = ip(r, 40);
		Pt c = pt(ci);
		double rad = r.in(1, 60) / Scale;
		double t0 = r.p(0.5) ? r.in(-16, 16) * M_PI / 4 : r.real(-4 * M_PI, 4 * M_PI), dt = r.p(0.4) ? r.in(-8, 8) * M_PI / 4 : r.real(-2 * M_PI, 2 * M_PI);
		if (fabs(dt) < 0.01) dt = 1;
		Arc arc(c, rad, t0, dt);
		if (r.p(0.4)) {	// moved into place
			Arc was = arc;
			double th = r.real(-7, 7), dx = r.in(-40, 40) / Scale, dy = r.in(-40, 40) / Scale;
			arc.translate(dx, dy);
			if (!close(arc.start(), Pt(was.start().x + dx, was.start().y + dy)) || !close(arc.end(), Pt(was.end().x + dx, was.end().y + dy))) fail("arc translate", "by %g %g", dx, dy);
			Pt s = arc.start(), e = arc.end();
			arc.rotate(th);
			Pt v = e.minus(s); v.rotate(th); v.translate(s.x, s.y);
			if (!close(arc.start(), s, 1e-8) || !close(arc.end(), v, 1e-8)) fail("arc rotate", "start %s becomes %s, end becomes %s instead of %s", S(s).c_str(), S(arc.start()).c_str(), S(arc.end()).c_str(), S(v).c_str());
			if (!close(arc.bbox.min, Pt(arc.c.x - rad, arc.c.y - rad), 1e-8) || !close(arc.bbox.max, Pt(arc.c.x + rad, arc.c.y + rad), 1e-8)) fail("arc box", "after moving");
			t0 = arc.t0; dt = arc.dt; c = arc.c;
			stat("arcs moved");
		}
		if (!close(arc.start(), Pt(c.x + rad * cosl(t0), c.y + rad * sinl(t0)))) fail("arc start", "%s", S(arc.start()).c_str());
		if (!close(arc.end(), Pt(c.x + rad * cosl((long double) t0 + dt), c.y + rad * sinl((long double) t0 + dt)))) fail("arc end", "%s", S(arc.end()).c_str());
		for (int k = 0; k < 4; k++) {
			Pt p, q;
			switch (r.in(0, 5)) {
			case 0: { double th = t0 + dt * r.real(); p = c; q = Pt(c.x + 2 * rad * cos(th), c.y + 2 * rad * sin(th)); break; }	// radial
			case 1: { double th = t0 + dt * r.real(); double a = r.real(0, 6.3); Pt m(c.x + rad * cos(th), c.y + rad * sin(th)); double l = r.real(0.1, 3); p = Pt(m.x - l * cos(a), m.y - l * sin(a)); q = Pt(m.x + l * cos(a), m.y + l * sin(a)); break; }
			case 2: p = pt(ip(r, 100)); q = Pt(p.x, r.in(-100, 100) / Scale); break;
			case 3: p = pt(ip(r, 100)); q = Pt(r.in(-100, 100) / Scale, p.y); break;
			case 4: { double th = t0 + dt * (r.p(0.5) ? 0 : 1); double a = r.real(0.8, 2); p = Pt(c.x + 0.3 * rad * cos(th), c.y + 0.3 * rad * sin(th)); q = Pt(c.x + a * 1.5 * rad * cos(th), c.y + 1.5 * a * rad * sin(th)); break; }	// through an end of the arc
			default: p = pt(ip(r, 100)); q = pt(ip(r, 100));
			}
			if (Pt::distance(p, q) < 1e-3) continue;
			if (r.p(0.5)) std::swap(p, q);
			LineSg l(p, q);
			note("arc c=%s r=%g t0=%.17g dt=%.17g line %.17g,%.17g-%.17g,%.17g", S(c).c_str(), rad, t0, dt, p.x, p.y, q.x, q.y);
			// reference, in long double
			long double dx = (long double) q.x - p.x, dy = (long double) q.y - p.y, ax = (long double) p.x - c.x, ay = (long double) p.y - c.y;
			long double A = dx * dx + dy * dy, B = dx * ax + dy * ay, len = sqrtl(A);
			long double dist = fabsl(dx * ay - dy * ax) / len, slack = rad - dist;
			if (fabsl(slack) < 1e-5L) { stat("arc tangents not judged"); continue; }
			int must = 0, may = 0;
			std::vector<Pt> pts;
			if (slack > 0) for (int s = -1; s <= 1; s += 2) {
				long double u = (-B + s * sqrtl((long double) rad * rad - dist * dist) * len) / A;
				int j1 = judge(u * len), j2 = judge((1 - u) * len);
				long double X = ax + u * dx, Y = ay + u * dy, th = atan2l(Y, X), lo = std::min((long double) t0, (long double) t0 + dt), hi = std::max((long double) t0, (long double) t0 + dt), TP = 2 * acosl(-1.0L);
				// how far inside the sweep the angle is, in the best of the turns
				long double best = -10;
				for (int n = -8; n <= 8; n++) best = std::max(best, std::min(th + n * TP - lo, hi - th - n * TP));
				int j3 = judge(best);
				int j = std::min(j1, std::min(j2, j3));
				if (j == 1) must++;
				if (j >= 0) { may++; pts.push_back(Pt(c.x + X, c.y + Y)); }
			}
			Pt is[2];
			unsigned n = arc.isects(l, is);
			if (n > 2 || (int) n < must || (int) n > may) fail("arc intersections", "arc c=%s r=%g t0=%g dt=%g, line %s-%s: %u intersections, expected %d", S(c).c_str(), rad, t0, dt, S(p).c_str(), S(q).c_str(), n, must);
			for (unsigned i = 0; i < n; i++) {
				bool ok = false;
				for (auto &x : pts) ok |= close(is[i], x, 1e-6);
				if (!ok) fail("arc intersection point", "arc c=%s r=%g t0=%g dt=%g, line %s-%s: %s", S(c).c_str(), rad, t0, dt, S(p).c_str(), S(q).c_str(), S(is[i]).c_str());
			}
			if (n == 2 && close(is[0], is[1], 1e-7) && Pt::distance(pts[0], pts[1]) > 1e-5) fail("arc intersection twice", "%s", S(is[0]).c_str());
			if (arc.hits(l) != (n > 0)) fail("arc hits", "%d with %u intersections", arc.hits(l), n);
			stat(n ? "arcs hit" : "arcs missed");
			if (n == 1 && may == 1) stat("arcs hit once");
			sig(mix(mix((long) (t0 * 1e6), (long) (dt * 1e6)), mix((long) (p.x * 1e6), (long) (q.y * 1e6))));
		}
	}
}

// A simple polygon on the grid, clock-wise: a star around a centre.
static bool star(Rng &r, std::vector<IP> &v, long g) {
	int n = r.in(3, 9);
	IP c = ip(r, g / 3);
	std::vector<std::pair<double, IP>> ps;
	for (int i = 0; i < n; i++) { IP p = ip(r, g); if (p == c) return false; ps.push_back({atan2(p.y - c.y, p.x - c.x), p}); }
	std::sort(ps.begin(), ps.end(), [](const std::pair<double, IP> &a, const std::pair<double, IP> &b) { return a.first > b.first; });
	v.clear();
	for (auto &p : ps) v.push_back(p.second);
	// simple, without collinear neighbours
	int m = v.size();
	for (int i = 0; i < m; i++) {
		if (cross(v[i], v[(i+1)%m], v[(i+2)%m]) == 0) return false;
		for (int j = i + 1; j < m; j++) {
			if (v[i] == v[j]) return false;
			if (j == i + 1 || (i == 0 && j == m - 1)) continue;
			if (meet(v[i], v[(i+1)%m], v[j], v[(j+1)%m])) return false;
		}
	}
	return true;
}
// A rectilinear one.
static bool stairs(Rng &r, std::vector<IP> &v, long g) {
	int k = r.in(1, 5);
	std::set<long> xs; while ((int) xs.size() < k + 1) xs.insert(r.in(-g, g));
	std::vector<long> x(xs.begin(), xs.end());
	long lo = r.in(-g, -1);
	v.clear();
	std::vector<IP> top;
	long prev = lo;
	for (int i = 0; i < k; i++) { long h; do h = r.in(0, g); while (h == prev); prev = h; top.push_back(IP{x[i], h}); top.push_back(IP{x[i+1], h}); }
	v = top; v.push_back(IP{x[k], lo}); v.push_back(IP{x[0], lo});
	return true;
}
static int inside(const std::vector<IP> &v, IP p) {	// 1 in, 0 boundary, -1 out
	int m = v.size(); bool in = false;
	for (int i = 0; i < m; i++) {
		IP a = v[i], b = v[(i+1)%m];
		if (onseg(a, b, p)) return 0;
		if ((a.y > p.y) != (b.y > p.y)) {
			long c = cross(a, b, p);	// which side of the upward edge
			if ((b.y > a.y) == (c > 0)) in = !in;
		}
	}
	return in ? 1 : -1;
}
static void samepoly(const Poly &p, const std::vector<Pt> &v, const char *what) {
	if (p.verts.size() != v.size() || p.sides.size() != v.size()) fail(std::string("polygon ") + what, "%zu vertices and %zu sides, expected %zu", p.verts.size(), p.sides.size(), v.size());
	Pt mn = Pt::inf(), mx = Pt::neginf();
	for (size_t i = 0; i < v.size(); i++) {
		if (!close(p.verts[i], v[i])) fail(std::string("polygon ") + what, "vertex %zu is %s, expected %s", i, S(p.verts[i]).c_str(), S(v[i]).c_str());
		const LineSg &s = p.sides[i];
		if (!close(s.p0, v[i]) || !close(s.p1, v[(i+1)%v.size()])) fail(std::string("polygon ") + what, "side %zu is %s-%s", i, S(s.p0).c_str(), S(s.p1).c_str());
		mn.x = std::min(mn.x, v[i].x); mn.y = std::min(mn.y, v[i].y); mx.x = std::max(mx.x, v[i].x); mx.y = std::max(mx.y, v[i].y);
	}
	if (!close(p.bbox.min, mn) || !close(p.bbox.max, mx)) fail(std::string("polygon ") + what, "the box is %s-%s, expected %s-%s", S(p.bbox.min).c_str(), S(p.bbox.max).c_str(), S(mn).c_str(), S(mx).c_str());
}

static void k_polys(Rng &r) {
	std::vector<IP> v;
	long g = r.pick(std::vector<long>{6, 20, 100});
	for (int tries = 0; ; tries++) { if (r.p(0.4) ? stairs(r, v, g) : star(r, v, g)) break; if (tries > 50) return; }
	std::vector<Pt> pv;
	for (auto &p : v) pv.push_back(pt(p));
	std::string desc; for (auto &p : v) desc += S(p);
	note("polygon %s", desc.c_str());
	// points in the middle of sides and repeated ones change nothing
	std::vector<Pt> fat;
	bool extra = r.p(0.3);
	for (size_t i = 0; i < v.size(); i++) {
		fat.push_back(pv[i]);
		IP a = v[i], b = v[(i+1)%v.size()];
		if (extra && r.p(0.4) && (a.x == b.x || a.y == b.y)) fat.push_back(Pt((pv[i].x + pt(b).x) / 2, (pv[i].y + pt(b).y) / 2));
		if (extra && r.p(0.2)) fat.push_back(pv[i]  = fat.back());
	}
	pv.clear(); for (auto &p : v) pv.push_back(pt(p));
	Poly poly(extra ? fat : pv);
	if (extra) {	// the first vertex may have been dropped as the repetition of the last
		if (poly.verts.size() != pv.size()) { if (poly.verts.size() > fat.size() || poly.verts.size() < pv.size()) fail("polygon vertices", "%s: %zu vertices of %zu", desc.c_str(), poly.verts.size(), pv.size()); stat("polygons not judged"); return; }
		size_t off = 0; while (off < pv.size() && !close(poly.verts[0], pv[off])) off++;
		if (off == pv.size()) fail("polygon vertices", "%s: starts with %s", desc.c_str(), S(poly.verts[0]).c_str());
		std::rotate(pv.begin(), pv.begin() + off, pv.end()); std::rotate(v.begin(), v.begin() + off, v.end());
		stat("polygons with redundant vertices");
	}
	samepoly(poly, pv, "construction");
	stat("polygons");
	for (int t = 0; t < 30; t++) {
		IP p = r.p(0.4) ? IP{r.pick(v).x + r.in(-1, 1), r.pick(v).y} : ip(r, g + 2);
		int w = inside(v, p);
		if (w == 0) { stat("boundary points not judged"); continue; }
		if (poly.contains(pt(p)) != (w > 0)) fail("polygon contains", "%s: %s is %s", desc.c_str(), S(p).c_str(), w > 0 ? "inside" : "outside");
		stat(w > 0 ? "points inside" : "points outside");
		// Off by a rounding error, which leaves them where they are.
		geom2d::Pt q = pt(p);
		q.y = nextafter(q.y, r.in(0, 1) ? 1e9 : -1e9); if (r.in(0, 1)) q.x = nextafter(q.x, r.in(0, 1) ? 1e9 : -1e9);
		if (poly.contains(q) != (w > 0)) fail("polygon contains", "%s: %.17g,%.17g is %s", desc.c_str(), q.x, q.y, w > 0 ? "inside" : "outside");
	}
	for (int t = 0; t < 15; t++) {
		IP a, b; seg(r, a, b, g + 2);
		if (r.p(0.2)) a = r.pick(v); if (r.p(0.15)) b = r.pick(v);
		if (r.p(0.15)) { size_t i = r.in(0, v.size() - 1); a = v[i]; b = v[(i+1)%v.size()]; if (r.p(0.5)) { a = IP{2*a.x-b.x, 2*a.y-b.y}; } }
		LineSg l(pt(a), pt(b));
		note("polygon %s line %s-%s", desc.c_str(), S(a).c_str(), S(b).c_str());
		int n = 0; double near = 1e300;
		for (size_t i = 0; i < v.size(); i++) if (meet(a, b, v[i], v[(i+1)%v.size()])) {
			n++;
			IP c = v[i], d = v[(i+1)%v.size()];
			long den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
			if (den) { double u = (double) ((long double) ((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / den); near = std::min(near, u * l.length()); }
			else near = -1;	// along the side: any common point will do
		}
		if (poly.hits(l) != (n > 0)) fail("polygon hits", "%s and %s-%s: %d sides, hits says %d", desc.c_str(), S(a).c_str(), S(b).c_str(), n, poly.hits(l));
		std::vector<Pt> is = poly.isects(l);
		if ((int) is.size() != n) fail("polygon isects", "%s and %s-%s: %d sides, %zu intersections", desc.c_str(), S(a).c_str(), S(b).c_str(), n, is.size());
		Pt m = poly.minisect(l);
		if (m.isinf() != (n == 0)) fail("polygon minisect", "%s and %s-%s: %s", desc.c_str(), S(a).c_str(), S(b).c_str(), S(m).c_str());
		if (n) {
			double dm = Pt::distance(m, l.p0), best = 1e300;
			for (auto &p : is) best = std::min(best, Pt::distance(p, l.p0));
			if (!close(dm, best, 1e-7)) fail("polygon minisect", "%s and %s-%s: %g away, another is at %g", desc.c_str(), S(a).c_str(), S(b).c_str(), dm, best);
			if (near >= 0 && !close(dm, near, 1e-6)) fail("polygon minisect", "%s and %s-%s: %g away, expected %g", desc.c_str(), S(a).c_str(), S(b).c_str(), dm, near);
			stat("lines that hit a polygon");
		}
	}
	for (int t = 0; t < 8; t++) {	// arcs against the sides
		Arc arc(pt(ip(r, g)), r.in(1, g) / Scale, r.real(-7, 7), r.real(-6.2, 6.2));
		bool hit = false; for (auto &s : poly.sides) hit |= arc.hits(s);
		if (poly.hits(arc) != hit) fail("polygon hits arc", "%s: %d", desc.c_str(), !hit);
		stat("arcs against polygons");
	}
	// moving
	double dx = r.in(-80, 80) / Scale, dy = r.in(-80, 80) / Scale;
	Poly q = poly;
	q.translate(dx, dy);
	std::vector<Pt> w = pv; for (auto &p : w) p.translate(dx, dy);
	samepoly(q, w, "translate");
	double sx = r.pick(std::vector<double>{0.5, 2, -1, 0.25}), sy = r.pick(std::vector<double>{0.5, 3, -2, 1});
	q.scale(sx, sy); for (auto &p : w) p.scale(sx, sy);
	samepoly(q, w, "scale");
	// reading back
	double f = r.p(0.5) ? 1.0 / 3 : 1;
	q.scale(f, f); for (auto &p : w) p.scale(f, f);
	FILE *fo = fopen((scratch() + "/poly").c_str(), "w"); q.output(fo); fclose(fo);
	FILE *fi = fopen((scratch() + "/poly").c_str(), "r"); Poly back(fi); fclose(fi);
	if (back.verts.size() != q.verts.size()) { if (f == 1) fail("polygon read back", "%s: %zu vertices", desc.c_str(), back.verts.size()); }
	else for (size_t i = 0; i < q.verts.size(); i++) if (back.verts[i].x != q.verts[i].x || back.verts[i].y != q.verts[i].y) fail("polygon read back", "vertex %zu of %s", i, desc.c_str());
	sig(hashstr(desc));
	if (wantsample()) sample("polygon %s", desc.c_str());
}

static void k_hulls(Rng &r) {
	// hulls of points in general position
	int n = r.in(3, 12);
	std::vector<IP> v;
	for (int tries = 0; (int) v.size() < n && tries < 500; tries++) {
		IP p = ip(r, 60); bool ok = true;
		for (auto &q : v) ok &= q.x != p.x && q.y != p.y;
		for (size_t i = 0; ok && i < v.size(); i++) for (size_t j = 0; ok && j < i; j++) ok = cross(v[i], v[j], p) != 0;
		if (ok) v.push_back(p);
	}
	if (v.size() < 3) return;
	std::vector<Pt> pv; for (auto &p : v) pv.push_back(pt(p));
	note("hull of %zu points from %s", v.size(), S(v[0]).c_str());
	Poly h = Poly::giftwrap(pv);
	std::set<IP> want, got;
	for (auto &a : v) {	// a is on the hull if some line through it has all others on one side
		bool hull = false;
		for (auto &b : v) if (!(a == b)) {
			int pos = 0, neg = 0;
			for (auto &c : v) if (!(c == a) && !(c == b)) (cross(a, b, c) > 0 ? pos : neg)++;
			hull |= !pos || !neg;
		}
		if (hull) want.insert(a);
	}
	for (auto &p : h.verts) got.insert(IP{lround(p.x * Scale), lround(p.y * Scale)});
	if (want != got || h.verts.size() != want.size()) fail("hull", "%zu vertices, expected %zu", h.verts.size(), want.size());
	int side = 0;
	for (size_t i = 0; i < h.verts.size(); i++) {
		auto I = [&](size_t k) { const Pt &p = h.verts[k % h.verts.size()]; return IP{lround(p.x * Scale), lround(p.y * Scale)}; };
		int s = sgn(cross(I(i), I(i+1), I(i+2)));
		if (s == 0 || (side && s != side)) fail("hull order", "not convex at vertex %zu", i);
		side = s;
	}
	stat("hulls");
	uint64_t hs = 0; for (auto &p : v) hs = mix(hs, p.x * 1000 + p.y); sig(hs);
	// random polygons are simple
	randgen = Rand(r.next());
	unsigned m = r.in(3, 20);
	double xc = r.real(-3, 3), yc = r.real(-3, 3), rad = r.real(0.1, 5);
	note("random polygon of %u", m);
	Poly p = Poly::random(m, xc, yc, rad);
	if (p.verts.size() != m) fail("random polygon", "%zu vertices instead of %u", p.verts.size(), m);
	for (auto &x : p.verts) if (fabs(x.x - xc) > rad * (1 + 1e-9) || fabs(x.y - yc) > rad * (1 + 1e-9)) fail("random polygon", "vertex %s is not within %g of (%g,%g)", S(x).c_str(), rad, xc, yc);
	for (size_t i = 0; i < m; i++) for (size_t j = i + 2; j < m; j++) if (!(i == 0 && j == m - 1)) {
		const LineSg &a = p.sides[i], &b = p.sides[j];
		long double d = std::min(std::min(ptseg(a.p0.x, a.p0.y, b.p0.x, b.p0.y, b.p1.x, b.p1.y), ptseg(a.p1.x, a.p1.y, b.p0.x, b.p0.y, b.p1.x, b.p1.y)), std::min(ptseg(b.p0.x, b.p0.y, a.p0.x, a.p0.y, a.p1.x, a.p1.y), ptseg(b.p1.x, b.p1.y, a.p0.x, a.p0.y, a.p1.x, a.p1.y)));
		auto cr = [](const Pt &o, const Pt &x, const Pt &y) { return ((long double) x.x - o.x) * ((long double) y.y - o.y) - ((long double) x.y - o.y) * ((long double) y.x - o.x); };
		bool x = cr(a.p0, a.p1, b.p0) * cr(a.p0, a.p1, b.p1) < 0 && cr(b.p0, b.p1, a.p0) * cr(b.p0, b.p1, a.p1) < 0;
		if (x && d > 1e-9) fail("random polygon", "sides %zu and %zu cross", i, j);
	}
	stat("random polygons");
	// the corners of a triangle: the sides at the apex are equal, the centre is where it was asked for
	Pt tc(r.real(-5, 5), r.real(-5, 5)); double th = r.real(0.5, 5), tw = r.real(0.2, 2.5), tr = r.real(0, 6.28);
	Poly tri = Poly::triangle(tc, th, tw, tr);
	if (tri.verts.size() != 3) fail("triangle", "%zu vertices", tri.verts.size());
	double s1 = Pt::distance(tri.verts[0], tri.verts[1]), s2 = Pt::distance(tri.verts[0], tri.verts[2]);
	Pt base = LineSg(tri.verts[1], tri.verts[2]).midpt(), mid = LineSg(base, tri.verts[0]).midpt();
	if (!close(s1, s2) || !close(mid, tc) || !close(Pt::distance(base, tri.verts[0]), th)) fail("triangle", "height %g instead of %g, sides %g %g, centre %s", Pt::distance(base, tri.verts[0]), th, s1, s2, S(mid).c_str());
}

static void k_quad(Rng &r) {
	for (int t = 0; t < 50; t++) {
		double a = r.in(-9, 9), b = r.in(-12, 12), c = r.in(-12, 12);
		if (a == 0) continue;
		QuadEq q(a, b, c);
		double d = b * b - 4 * a * c, s[2];
		unsigned n = q.solutions(s), w = d < 0 ? 0 : d == 0 ? 1 : 2;
		if (n != w) fail("quadratic", "%gx^2+%gx+%g: %u solutions", a, b, c, n);
		for (unsigned i = 0; i < n; i++) if (fabs(a * s[i] * s[i] + b * s[i] + c) > 1e-8) fail("quadratic", "%gx^2+%gx+%g: %g", a, b, c, s[i]);
		if (n == 2 && s[0] == s[1]) fail("quadratic", "%gx^2+%gx+%g: twice %g", a, b, c, s[0]);
		double x = r.real(-5, 5), lo = r.real(-5, 5), hi = lo + r.real(0, 5);
		if (fabs(x - lo) > 1e-6 && fabs(x - hi) > 1e-6 && between(lo, hi, x) != (x >= lo && x <= hi)) fail("between", "%g %g %g", lo, hi, x);
		if (!between(lo, hi, lo) || !between(lo, hi, hi) || !doubleeq(lo, lo) || doubleneq(lo, lo) || doubleeq(lo, lo + 1e-5) || !doubleneq(lo, lo - 1e-5)) fail("between", "%g %g", lo, hi);
		stat("quadratics");
	}
	sig(r.next());
}

std::vector<Kind> vh::kinds() {
	return { {"segs", k_segs, 6}, {"pts", k_pts, 3}, {"arcs", k_arcs, 6}, {"polys", k_polys, 6}, {"hulls", k_hulls, 2}, {"quad", k_quad, 1} };
}
