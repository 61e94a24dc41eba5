// C02: collisions conserve mass and momentum and add exactly dt*F.
#include "collision.h"
using namespace coll;

LAW(isothermal, 120000, 1500000, 8) {
	Setup s;
	gen_isothermal(g, s);
	const size_t n = g.range(1, 3), D = s.si->D;
	State x;
	double rmin;
	std::string kind = gen_populations(g, s, n, x.f, rmin);
	gen_force(g, s, rmin);
	State before = x;
	c.desc << s.str() << ", " << n << " points, " << kind;
	c.label(s.kind());
	c.label(kind);
	c.label(s.has_force() ? s.forcing == EXACT_DIFFERENCE ? "exact difference" : "shifting velocity" : "no force");
	c.nontrivial = kind != "equilibrium" || s.has_force();
	c.key = "conservation/" + s.kind() + (s.has_force() ? s.forcing == EXACT_DIFFERENCE ? "/exact" : "/shift" : "");
	run(s, x);
	for (size_t i = 0; i < n; i++) {
		V f0 = point(before.f, i), f1 = point(x.f, i);
		V m0 = moments(s, f0), m1 = moments(s, f1);
		V feq;
		reference(s, f0, V(), &feq);
		// rounding is relative to the magnitude of everything that is added up
		double mag = norm1(f0) + (norm1(f0) + norm1(feq)) * std::max(1 / s.tau, 2.0) + norm1(feq);
		double tol = wtol(s) * mag * (1 + emax(s));
		CLOSE(m1[0], m0[0], tol, "density at point " << i);
		CLOSE(x.rho[i], m0[0], 1e-12 * norm1(f0), "reported density at point " << i);
		for (size_t d = 0; d < D; d++) {
			double kick = s.has_force() ? s.dt * s.F[d] / s.scaling : 0;
			CLOSE(m1[1 + d], m0[1 + d] + kick, tol, "momentum " << d << " at point " << i << " (before "
					<< m0[1 + d] << ", kick " << kick << ")");
			CLOSE(x.u[d][i], (m0[1 + d] + 0.5 * kick) / m0[0] * s.scaling,
					1e-11 * (norm1(f0) * emax(s) + std::fabs(kick)) / m0[0] * s.scaling,
					"reported velocity " << d << " at point " << i);
		}
	}
}

// many points at once: the result at each point is that of the point alone
LAW(points_are_independent, 12000, 60000, 4) {
	Setup s;
	gen_isothermal(g, s);
	const size_t n = g.range(2, 24);
	State x;
	double rmin;
	std::string kind = gen_populations(g, s, n, x.f, rmin);
	gen_force(g, s, rmin);
	size_t i = g.draw(n);
	State one;
	one.f.assign(s.si->Q, V(1));
	for (size_t q = 0; q < s.si->Q; q++)
		one.f[q][0] = x.f[q][i];
	c.desc << s.str() << ", point " << i << " of " << n << ", " << kind;
	c.label(s.kind());
	c.nontrivial = n > 1;
	c.key = "independent/" + s.kind();
	run(s, x);
	run(s, one);
	for (size_t q = 0; q < s.si->Q; q++)
		CLOSE(x.f[q][i], one.f[q][0], 1e-12 * norm1(point(one.f, 0)), "population " << q << " of point " << i);
	CLOSE(x.rho[i], one.rho[0], 1e-12 * std::fabs(one.rho[0]), "density of point " << i);
	for (size_t d = 0; d < s.si->D; d++)
		CLOSE(x.u[d][i], one.u[d][0], 1e-11 * s.scaling * emax(s) * norm1(point(one.f, 0)) / one.rho[0], "velocity of point " << i);
}

// repeated collisions: the conserved quantities do not drift and the state goes to its equilibrium
LAW(repeated, 6000, 60000, 4) {
	Setup s;
	gen_isothermal(g, s);
	if (s.tau > 3)
		s.set_tau(0.5 + (s.tau - 0.5) / 8, s.dt);
	State x;
	double rmin;
	std::string kind = gen_populations(g, s, 1, x.f, rmin);
	V m0 = moments(s, point(x.f, 0));
	double n0 = norm1(point(x.f, 0));
	int steps = g.range(2, 30);
	c.desc << s.str() << ", " << steps << " collisions, " << kind;
	c.label(s.kind());
	c.nontrivial = kind != "equilibrium";
	c.key = "repeated/" + s.kind();
	for (int k = 0; k < steps; k++)
		run(s, x);
	V m1 = moments(s, point(x.f, 0));
	for (size_t d = 0; d <= s.si->D; d++)
		CLOSE(m1[d], m0[d], wtol(s) * 50 * steps * (1 + emax(s)) * n0, "conserved moment " << d << " after " << steps << " collisions");
}
HARNESS_MAIN
