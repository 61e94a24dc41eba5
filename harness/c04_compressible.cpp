// C04: the compressible (two population) collision.
#include "collision.h"
using namespace coll;

struct Macro {
	double rho, T, E;  // E: 2 * total energy in units of cs2
	V u;
	VV stress;         // central second moments of f
	V third;           // central third moments, flattened
	V gflux;           // central first moment of g
};
static Macro macro(const Setup& s, const V& f, const V& g, double gamma) {
	const size_t D = s.si->D;
	Macro m;
	V mm = moments(s, f);
	m.rho = mm[0];
	m.u.resize(D);
	for (size_t d = 0; d < D; d++)
		m.u[d] = mm[1 + d] / mm[0];
	double c2 = 0, gs = 0, e2 = 0;
	m.stress.assign(D, V(D, 0.0));
	m.third.assign(D * D * D, 0.0);
	m.gflux.assign(D, 0.0);
	for (size_t q = 0; q < f.size(); q++) {
		gs += g[q];
		for (size_t a = 0; a < D; a++) {
			double ca = E(s, q, a) - m.u[a];
			c2 += ca * ca * f[q];
			e2 += E(s, q, a) * E(s, q, a) * f[q];
			m.gflux[a] += ca * g[q];
			for (size_t b = 0; b < D; b++) {
				double cb = E(s, q, b) - m.u[b];
				m.stress[a][b] += ca * cb * f[q];
				for (size_t k = 0; k < D; k++)
					m.third[(a * D + b) * D + k] += ca * cb * (E(s, q, k) - m.u[k]) * f[q];
			}
		}
	}
	m.E = e2 / s.cs2 + gs;
	m.T = (c2 / s.cs2 + gs) / (2 * m.rho / (gamma - 1));
	return m;
}
static void gen_compressible(Gen& g, Setup& s, bool any_eq) {
	const auto& v = compressible();
	// the last one is slow
	const Combo& k = v[g.draw(any_eq ? 8 : 5)];
	set_combo(s, k);
	s.compressible = true;
	s.scaling = g.logreal(0.05, 100, 1.0);
	s.finish();
	s.gamma = g.real(1.1, 1.0 + 2.0 / s.si->D, 1.4);
	s.prandtl_set = g.chance(65);
	s.prandtl = s.prandtl_set ? g.logreal(0.1, 10, 0.71) : 1.0;
	s.sutherland = g.chance(30);
	s.set_tau(0.5 + g.logreal(1e-3, 5, 0.5), g.logreal(1e-5, 1, 1.0));
}
static std::string gen_state(Gen& g, const Setup& s, State& x, double& T, size_t n = 1) {
	const size_t D = s.si->D, Q = s.si->Q;
	x.f.assign(Q, V(n));
	x.g.assign(Q, V(n));
	const char* K[] = { "Maxwellian", "perturbed", "strongly perturbed" };
	int k = g.draw(3);
	for (size_t i = 0; i < n; i++) {
		double rho = g.logreal(0.1, 10, 1.0);
		T = g.real(0.7, 1.4, 1.0);
		V u(D);
		for (size_t d = 0; d < D; d++)
			u[d] = std::sqrt(s.cs2) * g.real(-0.5, 0.5, 0.0);
		V e = hermite_eq(s, rho, u, T, 4);
		double amp = k == 0 ? 0 : k == 1 ? g.logreal(1e-5, 1e-2, 1e-3) : g.logreal(1e-2, 0.4, 0.1);
		double cv2 = 2 / (s.gamma - 1) - D;
		for (size_t q = 0; q < Q; q++) {
			double w = s.st->getWeight(q) * rho;
			x.f[q][i] = e[q] + amp * w * g.real(-1, 1, 0);
			x.g[q][i] = T * cv2 * (e[q] + amp * w * g.real(-1, 1, 0));
		}
	}
	return K[k];
}

LAW(conservation, 60000, 3000000, 8) {
	Setup s;
	gen_compressible(g, s, true);
	State x;
	double T;
	const size_t n = g.range(1, 2), D = s.si->D;
	std::string kind = gen_state(g, s, x, T, n);
	State y = x;
	c.desc << s.str() << ", T=" << T << ", " << kind;
	c.label(s.kind());
	c.label(kind);
	c.label(s.prandtl_set ? "Prandtl number set" : "Prandtl number off");
	c.nontrivial = kind != "Maxwellian";
	c.key = "conservation/" + s.kind();
	run(s, x);
	for (size_t i = 0; i < n; i++) {
		V f0 = point(y.f, i), g0 = point(y.g, i), f1 = point(x.f, i), g1 = point(x.g, i);
		Macro a = macro(s, f0, g0, s.gamma), b = macro(s, f1, g1, s.gamma);
		const double e = 1 + emax(s), mag = norm1(f0) + norm1(f1) + norm1(g0) + norm1(g1);
		const double tol = 3e-11 * mag * e * e * e / std::min(1.0, s.cs2) * std::max(1.0, 1 / s.prandtl) ;
		CLOSE(b.rho, a.rho, tol, "density at point " << i);
		CLOSE(x.rho[i], a.rho, tol, "reported density at point " << i);
		for (size_t d = 0; d < D; d++) {
			CLOSE(b.u[d] * b.rho, a.u[d] * a.rho, tol, "momentum " << d << " at point " << i);
			CLOSE(x.u[d][i], a.u[d] * s.scaling, tol / a.rho * s.scaling, "reported velocity " << d);
		}
		CLOSE(x.T[i], a.T, tol / a.rho, "reported temperature at point " << i);
		// the second order equilibrium has no temperature of its own: energy only with the fourth order one
		if (s.eq == QUARTIC_EQUILIBRIUM)
			CLOSE(b.E, a.E, 10 * tol, "twice the total energy at point " << i << " (temperature " << a.T << " -> " << b.T << ")");
	}
}

// stress, heat flux: relaxation rates
LAW(relaxation, 60000, 3000000, 8) {
	Setup s;
	gen_compressible(g, s, false);
	State x;
	double T;
	const size_t D = s.si->D, Q = s.si->Q;
	std::string kind = gen_state(g, s, x, T);
	V f0 = point(x.f, 0), g0 = point(x.g, 0);
	Macro a = macro(s, f0, g0, s.gamma);
	V feq = hermite_eq(s, a.rho, a.u, a.T, 4), geq(Q);
	for (size_t q = 0; q < Q; q++)
		geq[q] = feq[q] * a.T * (2 / (s.gamma - 1) - D);
	double suth = s.sutherland ? std::pow(a.T / 0.85, 0.7) : 1;
	double tv = (s.tau - 0.5) * suth / (a.T * a.rho) + 0.5;
	double tp = (tv - 0.5) / s.prandtl + 0.5;
	c.desc << s.str() << ", rho=" << a.rho << " T=" << a.T << " tau_visc=" << tv << " tau_heat=" << tp << ", " << kind;
	c.label(s.kind());
	c.label(s.prandtl_set ? "Prandtl number set" : "Prandtl number off");
	c.label(s.sutherland ? "Sutherland" : "constant viscosity");
	c.nontrivial = kind != "Maxwellian";
	c.key = "relaxation/" + s.kind();
	run(s, x);
	V f1 = point(x.f, 0), g1 = point(x.g, 0);
	// non-equilibrium parts before and after, around the (conserved) velocity
	V n0(Q), n1(Q), h0(Q), h1(Q);
	for (size_t q = 0; q < Q; q++) {
		n0[q] = f0[q] - feq[q];
		n1[q] = f1[q] - feq[q];
		h0[q] = g0[q] - geq[q];
		h1[q] = g1[q] - geq[q];
	}
	auto mom = [&](const V& f, std::vector<size_t> idx) {
		double r = 0;
		for (size_t q = 0; q < Q; q++) {
			double t = f[q];
			for (size_t d : idx)
				t *= E(s, q, d) - a.u[d];
			r += t;
		}
		return r;
	};
	const double e = 1 + emax(s);
	double amp = std::max(1 / tv, 1 / tp) * std::max(1.0, 1 / s.cs2);
	const double tol = 1e-10 * (norm1(f0) + norm1(feq) + norm1(f1)) * e * e * e * amp;
	for (size_t p = 0; p < D; p++)
		for (size_t q = 0; q < D; q++)
			CLOSE(mom(n1, { p, q }), (1 - 1 / tv) * mom(n0, { p, q }), tol, "stress " << p << q << " (before " << mom(n0, {p, q}) << ")");
	c.key = "heatflux_f/" + s.kind();
	// (the D2Q19 sets and D3Q45 are exact to degree 7, which is enough for the third moments)
	for (size_t p = 0; p < D; p++) {
		double q0 = 0, q1 = 0;
		for (size_t q = 0; q < D; q++) {
			q0 += mom(n0, { p, q, q });
			q1 += mom(n1, { p, q, q });
		}
		CLOSE(q1, (1 - 1 / tp) * q0, 10 * tol, "flux of translational energy " << p << " (before " << q0 << ")");
	}
	c.key = "heatflux_g/" + s.kind();
	const double tolg = 1e-10 * (norm1(g0) + norm1(geq) + norm1(g1)) * e * amp;
	double s0 = 0, s1 = 0;
	for (size_t q = 0; q < Q; q++) {
		s0 += h0[q];
		s1 += h1[q];
	}
	CLOSE(s1, (1 - 1 / tv) * s0, tolg, "internal energy exchange");
	for (size_t p = 0; p < D; p++)
		CLOSE(mom(h1, { p }), (1 - 1 / tp) * mom(h0, { p }), tolg, "flux of internal energy " << p << " (before " << mom(h0, { p }) << ")");
}

// the Maxwellian is a fixed point
LAW(fixed_point, 20000, 300000, 4) {
	Setup s;
	gen_compressible(g, s, false);
	const size_t D = s.si->D, Q = s.si->Q;
	double rho = g.logreal(0.1, 10, 1.0), T = g.real(0.7, 1.4, 1.0);
	V u(D);
	for (size_t d = 0; d < D; d++)
		u[d] = std::sqrt(s.cs2) * g.real(-0.5, 0.5, 0.0);
	V e = hermite_eq(s, rho, u, T, 4);
	State x;
	x.f.assign(Q, V(1));
	x.g.assign(Q, V(1));
	for (size_t q = 0; q < Q; q++) {
		x.f[q][0] = e[q];
		x.g[q][0] = e[q] * T * (2 / (s.gamma - 1) - D);
	}
	State y = x;
	c.desc << s.str() << " rho=" << rho << " T=" << T << " u=(" << u[0] << " " << u[1] << ")";
	c.label(s.kind());
	c.nontrivial = T != 1 || u[0] != 0;
	c.key = "fixed_point/" + s.kind();
	run(s, x);
	CLOSE(x.T[0], T, 1e-9, "reported temperature");
	const double amp = std::max(1.0, 1 / s.prandtl) * std::max(1.0, 1 / s.cs2);
	for (size_t q = 0; q < Q; q++) {
		CLOSE(x.f[q][0], y.f[q][0], 1e-9 * rho * amp, "population " << q);
		CLOSE(x.g[q][0], y.g[q][0], 1e-8 * rho * amp * (2 / (s.gamma - 1) + 1), "second population " << q);
	}
	CHECK(x.S[0] >= 0 && x.S[0] < 1e-6 * rho * s.si->Q, "the shock sensor must vanish in equilibrium: " << x.S[0]);
}

// the reported sensor is the weighted distance from equilibrium
LAW(sensor, 12000, 200000, 4) {
	Setup s;
	gen_compressible(g, s, false);
	State x;
	double T;
	std::string kind = gen_state(g, s, x, T);
	V f0 = point(x.f, 0), g0 = point(x.g, 0);
	Macro a = macro(s, f0, g0, s.gamma);
	V feq = hermite_eq(s, a.rho, a.u, a.T, 4);
	double k = 0;
	for (size_t q = 0; q < s.si->Q; q++)
		k += std::fabs(f0[q] - feq[q]) / s.st->getWeight(q) / s.si->Q;
	c.desc << s.str() << ", " << kind << ", sensor " << k;
	c.label(s.kind());
	c.nontrivial = kind != "Maxwellian";
	c.key = "sensor/" + s.kind();
	run(s, x);
	double wmin = 1;
	for (size_t q = 0; q < s.si->Q; q++)
		wmin = std::min(wmin, s.st->getWeight(q));
	CLOSE(x.S[0], k, 1e-9 * k + 1e-11 * a.rho / wmin, "shock sensor");
}

// the 777-point set (slow to set up: few cases)
LAW(large_set, 2, 60, 1) {
	Setup s;
	set_combo(s, compressible()[8]);
	s.compressible = true;
	s.finish();
	s.prandtl_set = g.flag();
	s.prandtl = s.prandtl_set ? 0.71 : 1;
	s.set_tau(0.5 + g.logreal(1e-2, 2, 0.5), 1.0);
	State x;
	double T;
	std::string kind = gen_state(g, s, x, T);
	V f0 = point(x.f, 0), g0 = point(x.g, 0);
	Macro a = macro(s, f0, g0, s.gamma);
	c.desc << s.str() << ", " << kind;
	c.nontrivial = true;
	c.key = "large_set";
	run(s, x);
	Macro b = macro(s, point(x.f, 0), point(x.g, 0), s.gamma);
	CLOSE(b.rho, a.rho, 1e-4 * a.rho, "density");
	for (size_t d = 0; d < 2; d++)
		CLOSE(b.u[d], a.u[d], 1e-4 * s.cs2, "velocity");
	CLOSE(b.E, a.E, 1e-3 * a.E, "energy");
	CLOSE(x.T[0], a.T, 1e-6, "temperature");
}
HARNESS_MAIN
