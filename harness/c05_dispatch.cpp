// C05: the configured collision is executed exactly once, or rejected without touching the populations.
#include "collision.h"
using namespace coll;

static const std::vector<CollisionSchemeName>& schemes() {
	static std::vector<CollisionSchemeName> v { BGK_STANDARD, BGK_REGULARIZED, MRT_STANDARD, BGK_STANDARD_TRANSFORMED,
			BGK_STEADY_STATE, BGK_MULTIPHASE, BGK_INCOMPRESSIBLE, MRT_ENTROPIC, ENTROPIC_STABILIZED, KBC_STANDARD,
			KBC_CENTRAL, BGK_MULTI_AM4, BGK_MULTI_BDF2 };
	return v;
}
static const std::vector<EquilibriumSchemeName>& equilibria() {
	static std::vector<EquilibriumSchemeName> v { BGK_EQUILIBRIUM, QUARTIC_EQUILIBRIUM, INCOMPRESSIBLE_EQUILIBRIUM,
			STEADYSTATE_EQUILIBRIUM, ENTROPIC_EQUILIBRIUM };
	return v;
}
static bool supported(const Setup& s) {
	bool yes = false;
	for (auto& k : s.compressible ? compressible() : isothermal())
		yes = yes || (s.si->name == k.st && s.scheme == k.scheme && s.eq == k.eq);
	if (!yes)
		return false;
	if (s.has_force() && (s.forcing == NO_FORCING || s.forcing == GUO))
		return false;
	if (s.scheme == MRT_STANDARD) {
		if (s.si->name == "D2Q9") {
			if (s.basis == DHUMIERES_D3Q19 || s.relax == RELAX_DHUMIERES_PAPER)
				return false;
			return s.basis == DELLAR_D2Q9 || s.relax == RELAX_FULL;
		}
		return s.basis == DHUMIERES_D3Q19 && s.relax != DELLAR_RELAX_ONLY_N;
	}
	return true;
}
static void state(Gen& g, const Setup& s, size_t n, State& x) {
	double rmin;
	x.f.assign(s.si->Q, V(n));
	for (size_t i = 0; i < n; i++) {
		V u(s.si->D);
		for (auto& v : u)
			v = std::sqrt(s.cs2) * g.real(-0.3, 0.3, 0.1);
		V e = hermite_eq(s, g.real(0.5, 2, 1.0), u, 1, 2);
		for (size_t q = 0; q < s.si->Q; q++)
			x.f[q][i] = e[q] + s.st->getWeight(q) * 0.1 * g.real(-1, 1, 0.5);
	}
	(void) rmin;
	if (s.compressible)
		for (auto& f : x.f) {
			x.g.push_back(f);
			for (double& v : x.g.back())
				v *= 2 / (s.gamma - 1) - s.si->D;
		}
}
static void dispatch(Setup& s, Gen& g, Ctx& c) {
	s.scaling = g.logreal(0.1, 50, 1.0);
	s.finish();
	s.set_tau(0.5 + g.logreal(1e-2, 3, 0.3), g.logreal(1e-3, 1, 1.0));
	if (s.compressible) {
		s.gamma = g.real(1.1, 1.0 + 2.0 / s.si->D, 1.4);
		s.prandtl_set = g.flag();
		s.prandtl = s.prandtl_set ? g.logreal(0.2, 5, 0.71) : 1;
		s.sutherland = g.chance(30);
	} else if (g.chance(40)) {
		static const std::vector<ForceType> ft { SHIFTING_VELOCITY, EXACT_DIFFERENCE, NO_FORCING, GUO };
		s.forcing = g.pick(ft);
		s.F.assign(s.si->D, 0.0);
		s.F[0] = 0.01 * s.scaling / s.dt;
		s.F[s.si->D - 1] = g.real(-0.01, 0.01, 0.0) * s.scaling / s.dt;
	} else {
		static const std::vector<ForceType> ft { NO_FORCING, SHIFTING_VELOCITY, EXACT_DIFFERENCE, GUO };
		s.forcing = g.pick(ft);
	}
	const size_t n = g.range(1, 3);
	State x, y;
	state(g, s, n, x);
	y = x;
	const bool ok = supported(s);
	c.desc << s.str() << (ok ? ": supported" : ": not supported");
	c.label(ok ? "supported" : "not supported");
	c.label(s.compressible ? "compressible" : "isothermal");
	c.nontrivial = true;
	c.key = std::string("dispatch/") + (s.compressible ? "compressible/" : "") + s.kind() + (s.has_force() ? "/force" : "");
	bool thrown = false;
	try {
		run(s, x);
	} catch (NATriuMException& e) {
		thrown = true;
	}
	if (!ok) {
		CHECK(thrown, "the configuration is not supported, but the collision was accepted");
		for (size_t q = 0; q < s.si->Q; q++)
			for (size_t i = 0; i < n; i++) {
				CHECK(x.f[q][i] == y.f[q][i], "rejected, but population " << q << " was changed");
				if (s.compressible)
					CHECK(x.g[q][i] == y.g[q][i], "rejected, but second population " << q << " was changed");
			}
		return;
	}
	CHECK(!thrown, "the configuration is supported, but the collision was rejected");
	for (size_t i = 0; i < n; i++) {
		V f = point(y.f, i);
		double tol = 1e-7 * norm1(f) + wtol(s) * 1e3;
		if (s.compressible) {
			V gg = point(y.g, i), f0 = f;
			const double amp = std::max(1.0, 1 / s.prandtl) * std::max(1.0, 1 / s.cs2);
			tol *= amp;
			reference_compressible(s, f, gg);
			if (s.scheme == BGK_REGULARIZED) {
				// whatever a regularized scheme does, it is not the plain BGK scheme for a state with arbitrary high moments
				double d = 0, e = 0;
				for (size_t q = 0; q < s.si->Q; q++) {
					d += std::fabs(x.f[q][i] - f[q]);
					e += std::fabs(f0[q] - f[q]);
				}
				CHECK(d > 1e-6 * e || e < 1e-6, "regularized collision configured, but the plain BGK collision was executed");
				continue;
			}
			for (size_t q = 0; q < s.si->Q; q++)
				CLOSE(x.g[q][i], gg[q], tol * 2 / (s.gamma - 1), "second population " << q << " of point " << i);
		} else
			f = reference(s, f, V());
		for (size_t q = 0; q < s.si->Q; q++)
			CLOSE(x.f[q][i], f[q], tol, "population " << q << " of point " << i << " (before: " << y.f[q][i] << ")");
	}
}
static void options(Gen& g, Setup& s) {
	static const std::vector<MomentBasis> b { DELLAR_D2Q9, LALLEMAND_D2Q9, DHUMIERES_D3Q19 };
	static const std::vector<RelaxMode> r { RELAX_FULL, DELLAR_RELAX_ONLY_N, RELAX_DHUMIERES_PAPER };
	s.basis = g.pick(b);
	s.relax = g.pick(r);
}

LAW(supported_combinations, 80000, 1000000, 6) {
	Setup s;
	s.compressible = g.chance(40);
	if (s.compressible)
		set_combo(s, compressible()[g.draw(8)]);
	else
		set_combo(s, g.pick(isothermal()));
	options(g, s);
	if (s.scheme == MRT_STANDARD && g.flag()) { // the matching basis more often
		s.basis = s.si->name == "D3Q19" ? DHUMIERES_D3Q19 : s.basis;
		s.relax = RELAX_FULL;
	}
	dispatch(s, g, c);
}
LAW(any_combination, 40000, 600000, 4) {
	Setup s;
	s.compressible = g.flag();
	s.si = &all_stencils()[g.draw(13)];
	s.scheme = g.chance(50) ? g.pick(schemes()) : schemes()[g.draw(3)];
	s.eq = g.pick(equilibria());
	options(g, s);
	dispatch(s, g, c);
}
// the whole product velocity set x scheme x equilibrium x (isothermal|compressible), once per case
LAW(product, 3, 200, 3) {
	uint64_t seed = g.draw(1u << 30);
	size_t n = 0;
	std::string last;
	c.nontrivial = true;
	for (size_t k = 0; k < 13; k++)
		for (auto sc : schemes())
			for (auto eq : equilibria())
				for (int comp = 0; comp < 2; comp++) {
					if (comp && sc == BGK_REGULARIZED && all_stencils()[k].name == "D2Q25H" && eq == BGK_EQUILIBRIUM)
						continue; // law supported_combinations
					Gen gg(seed + 7919 * n++);
					Ctx cc;
					Setup s;
					s.si = &all_stencils()[k];
					s.scheme = sc;
					s.eq = eq;
					s.compressible = comp;
					s.basis = s.si->name == "D3Q19" ? DHUMIERES_D3Q19 : DELLAR_D2Q9;
					dispatch(s, gg, cc);
				}
	c.desc << n << " combinations of velocity set, scheme and equilibrium, parameters from seed " << seed;
}

// a point without density anywhere makes the collision fail
LAW(low_density, 8000, 300000, 4) {
	Setup s;
	gen_isothermal(g, s);
	if (g.chance(30)) {
		set_combo(s, compressible()[g.draw(8)]);
		s.compressible = true;
		s.scaling = 1;
		s.finish();
		s.set_tau(1, 1);
	}
	const size_t n = g.range(1, 12), i = g.draw(n);
	State x;
	state(g, s, n, x);
	int kind = g.draw(3);
	double target = kind == 0 ? 0 : kind == 1 ? g.logreal(1e-16, 9e-11, 1e-11) : -g.logreal(1e-9, 2, 0.1);
	for (size_t q = 0; q < s.si->Q; q++)
		x.f[q][i] = kind == 0 ? 0 : s.st->getWeight(q) * target;
	c.desc << s.str() << ", density " << target << " at point " << i << " of " << n;
	c.label(s.kind());
	c.nontrivial = n > 1;
	c.key = std::string("low_density/") + (s.compressible ? "compressible/" : "") + s.kind();
	bool thrown = false;
	try {
		run(s, x);
	} catch (NATriuMException& e) {
		thrown = true;
	}
	CHECK(thrown, "density " << target << " was accepted");
}
// and a small but sufficient density does not
LAW(small_density, 3000, 100000, 2) {
	Setup s;
	gen_isothermal(g, s);
	State x;
	state(g, s, 1, x);
	double rho = g.logreal(2e-10, 1e-3, 1e-9), sum = 0;
	for (auto& f : x.f)
		sum += f[0];
	for (auto& f : x.f)
		f[0] *= rho / sum;
	c.desc << s.str() << ", density " << rho;
	c.nontrivial = true;
	c.key = "small_density/" + s.kind();
	V f0 = point(x.f, 0), r = reference(s, f0, V());
	run(s, x);
	for (size_t q = 0; q < s.si->Q; q++)
		CLOSE(x.f[q][0], r[q], 1e-8 * norm1(f0), "population " << q);
}
HARNESS_MAIN
