// C03: a collision relaxes populations towards the right equilibrium with the right rates.
#include "collision.h"
using namespace coll;

static void gen_case(Gen& g, Setup& s, State& x, std::string& kind, double& rmin, int npoints) {
	gen_isothermal(g, s);
	kind = gen_populations(g, s, npoints, x.f, rmin);
	gen_force(g, s, rmin);
}
static double tol_of(const Setup& s, const V& f0, const V& feq) {
	double cond = s.eq == QUARTIC_EQUILIBRIUM ? 100 : 10;
	double r = std::max(2.0, 1 / s.tau);
	return 1e-12 * cond * (norm1(f0) + norm1(feq)) * r * (s.scheme == MRT_STANDARD ? 5 : 1)
			+ (s.si->name == "D2Q19H" || s.si->name == "D2Q19V" ? 1e-11 * norm1(feq) : 0);
}

LAW(reference_model, 150000, 1500000, 8) {
	Setup s;
	State x;
	std::string kind;
	double rmin;
	gen_case(g, s, x, kind, rmin, 1);
	State before = x;
	if (g.chance(15)) { // velocity prescribed (initialization)
		s.init = true;
		s.F.clear();
		s.forcing = NO_FORCING;
		x.u.assign(s.si->D, V(1));
		for (size_t d = 0; d < s.si->D; d++)
			x.u[d][0] = s.scaling * std::sqrt(s.cs2) * g.real(-0.4, 0.4, 0.0);
	}
	V uinit;
	for (auto& v : x.u)
		uinit.push_back(v[0]);
	c.desc << s.str() << ", " << kind;
	c.label(s.kind());
	c.label(kind);
	c.nontrivial = kind != "equilibrium";
	c.key = "reference/" + s.kind() + (s.has_force() ? s.forcing == EXACT_DIFFERENCE ? "/exact" : "/shift" : s.init ? "/init" : "");
	V f0 = point(before.f, 0), feq, r = reference(s, f0, uinit, &feq);
	run(s, x);
	const double tol = tol_of(s, f0, feq);
	for (size_t q = 0; q < s.si->Q; q++)
		CLOSE(x.f[q][0], r[q], tol, "population " << q << " (before " << f0[q] << ", equilibrium " << feq[q] << ")");
	if (s.init)
		for (size_t d = 0; d < s.si->D; d++)
			CLOSE(x.u[d][0], uinit[d], 0, "prescribed velocity " << d << " was changed");
}

// the non-equilibrium shear stress decays by the factor 1 - 1/tau, tau from the viscosity
LAW(viscosity, 40000, 1500000, 4) {
	Setup s;
	State x;
	std::string kind;
	double rmin;
	gen_isothermal(g, s);
	kind = gen_populations(g, s, 1, x.f, rmin);
	const size_t D = s.si->D, Q = s.si->Q;
	V f0 = point(x.f, 0), m = moments(s, f0), u(D);
	for (size_t d = 0; d < D; d++)
		u[d] = m[1 + d] / m[0];
	c.desc << s.str() << ", " << kind;
	c.label(s.kind());
	c.key = "viscosity/" + s.kind();
	run(s, x);
	double tau = s.nu / (s.dt * s.st->getSpeedOfSoundSquare()) + 0.5;
	// second moments of the equilibrium: exact for sets of degree >= 5, except that D3Q13.. share this degree
	V feq = equilibrium(s, m[0], u);
	double n0max = 0;
	for (size_t a = 0; a < D; a++)
		for (size_t b = 0; b < a; b++) {
			double s0 = 0, s1 = 0, se = 0, ex = m[0] * u[a] * u[b];
			for (size_t q = 0; q < Q; q++) {
				double ee = E(s, q, a) * E(s, q, b);
				s0 += f0[q] * ee;
				s1 += x.f[q][0] * ee;
				se += feq[q] * ee;
			}
			double em = emax(s) * emax(s) * (norm1(f0) + norm1(feq));
			CLOSE(se, ex, 1e-9 * em, "equilibrium shear stress " << a << b << " is not rho u u");
			n0max = std::max(n0max, std::fabs(s0 - ex));
			CLOSE(s1 - ex, (1 - 1 / tau) * (s0 - ex), 1e-9 * em, "shear stress " << a << b << " before " << s0 - ex);
		}
	c.nontrivial = n0max > 1e-6 * norm1(f0);
}

// the equilibrium is a fixed point
LAW(fixed_point, 40000, 1500000, 4) {
	Setup s;
	gen_isothermal(g, s);
	const size_t D = s.si->D, Q = s.si->Q;
	V u(D);
	double u2 = 0;
	for (size_t d = 0; d < D; d++) {
		u[d] = std::sqrt(s.cs2) * g.real(-0.4, 0.4, 0.0);
		u2 += u[d] * u[d];
	}
	double rho = g.logreal(1e-3, 1e3, 1.0);
	V e = equilibrium(s, rho, u);
	State x;
	x.f.assign(Q, V(1));
	for (size_t q = 0; q < Q; q++)
		x.f[q][0] = e[q];
	c.desc << s.str() << " rho=" << rho << " u=(" << u[0] << " " << u[1] << (D == 3 ? " " + std::to_string(u[2]) : "") << ")";
	c.label(s.kind());
	c.nontrivial = u2 > 0;
	c.key = "fixed_point/" + s.kind();
	run(s, x);
	for (size_t q = 0; q < Q; q++)
		CLOSE(x.f[q][0], e[q], tol_of(s, e, e), "equilibrium population " << q);
}

// rotations and reflections of the lattice commute with the collision
LAW(equivariance, 40000, 1500000, 4) {
	Setup s;
	State x;
	std::string kind;
	double rmin;
	gen_case(g, s, x, kind, rmin, 1);
	const size_t D = s.si->D, Q = s.si->Q;
	// signed permutation of the axes
	std::vector<size_t> p { 0, 1, 2 };
	for (size_t i = D - 1; i > 0; i--)
		std::swap(p[i], p[g.draw(i + 1)]);
	V sg(D);
	bool id = true;
	for (size_t d = 0; d < D; d++) {
		sg[d] = g.flag() ? -1 : 1;
		id = id && sg[d] == 1 && p[d] == d;
	}
	std::vector<size_t> map(Q);
	for (size_t q = 0; q < Q; q++) {
		size_t found = Q;
		for (size_t r = 0; r < Q && found == Q; r++) {
			double dist = 0;
			for (size_t d = 0; d < D; d++)
				dist += std::fabs(E(s, r, d) - sg[d] * E(s, q, p[d]));
			if (dist < 1e-6)
				found = r;
		}
		if (found == Q)
			throw pbt::Discard(); // not a symmetry of this set
		map[q] = found;
	}
	State y;
	y.f.assign(Q, V(1));
	for (size_t q = 0; q < Q; q++)
		y.f[map[q]][0] = x.f[q][0];
	Setup sy = s;
	for (size_t d = 0; d < D && !s.F.empty(); d++)
		sy.F[d] = sg[d] * s.F[p[d]];
	c.desc << s.str() << ", " << kind << ", axes";
	for (size_t d = 0; d < D; d++)
		c.desc << (sg[d] < 0 ? " -" : " +") << p[d];
	c.label(s.kind());
	c.nontrivial = !id && kind != "equilibrium";
	c.key = "equivariance/" + s.kind() + (s.has_force() ? "/force" : "");
	V f0 = point(x.f, 0), feq;
	reference(s, f0, V(), &feq);
	run(s, x);
	run(sy, y);
	for (size_t q = 0; q < Q; q++)
		CLOSE(y.f[map[q]][0], x.f[q][0], tol_of(s, f0, feq), "population " << q << " and its image " << map[q]);
	for (size_t d = 0; d < D; d++)
		CLOSE(y.u[d][0], sg[d] * x.u[p[d]][0], 1e-10 * s.scaling * emax(s) * norm1(f0) / x.rho[0], "reported velocity");
}

// other units of velocity: same populations, same relative forces -> same result
LAW(rescaling, 20000, 400000, 4) {
	Setup s;
	State x;
	std::string kind;
	double rmin;
	gen_case(g, s, x, kind, rmin, 1);
	Setup t = s;
	double k = g.logreal(1e-2, 1e2, 2.0), kt = g.logreal(1e-2, 1e2, 1.0);
	t.scaling = s.scaling * k;
	t.finish();
	t.set_tau(s.tau, s.dt * kt);
	for (double& F : t.F)
		F *= k / kt;
	State y = x;
	c.desc << s.str() << ", " << kind << ", velocities times " << k << ", times times " << kt;
	c.label(s.kind());
	c.nontrivial = k != 1 && kind != "equilibrium";
	c.key = "rescaling/" + s.kind();
	V f0 = point(x.f, 0), feq;
	reference(s, f0, V(), &feq);
	run(s, x);
	run(t, y);
	for (size_t q = 0; q < s.si->Q; q++)
		CLOSE(y.f[q][0], x.f[q][0], 10 * tol_of(s, f0, feq) + 1e-13 * norm1(feq) / s.tau, "population " << q);
	for (size_t d = 0; d < s.si->D; d++)
		CLOSE(y.u[d][0], k * x.u[d][0], 1e-10 * k * s.scaling * emax(s) * norm1(f0) / x.rho[0], "reported velocity");
}
HARNESS_MAIN
