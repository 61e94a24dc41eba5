// C01: every velocity set is a valid lattice quadrature.
#include "stencils.h"

// constructing D2Q777 inverts a 777x777 matrix: keep it rare
static const StencilInfo& pick_stencil(Gen& g) {
	const auto& v = all_stencils();
	size_t i = g.draw(v.size() - 1 + 13 * 1);
	return v[i % 13];
}
static int degree_of(const StencilInfo& s) {
	// odd degree up to which the weights integrate polynomials against a Gaussian
	static const std::map<std::string, int> d { { "D2Q19H", 7 }, { "D2Q19V", 7 }, { "D2Q25H", 9 }, { "D3V27", 7 }, {
			"D3Q45", 7 }, { "D3Q77", 9 }, { "D2Q777", 7 } };
	auto it = d.find(s.name);
	return it == d.end() ? 5 : it->second;
}
static double dfact(int n) {
	double r = 1;
	for (int k = n - 1; k > 1; k -= 2)
		r *= k;
	return r;
}

static void quadrature(const StencilInfo& si, Gen& g, Ctx& c) {
	double sc = g.logreal(1e-3, 1e4, 1.0);
	StencilP s = si.make(sc);
	const size_t D = s->getD(), Q = s->getQ();
	c.desc << si.name << " scaling=" << sc << " ";
	c.key = "quadrature/" + si.name;
	CHECK(D == si.D && Q == si.Q, si.name << " says D=" << D << " Q=" << Q);
	CHECK(s->getStencilType() == si.type, si.name << " reports another type");
	CHECK(s->getDirections().size() == Q && s->getWeights().size() == Q, "sizes of directions and weights");
	// a polynomial: product of two powers of linear forms
	std::vector<double> a(D), b(D);
	int nza = 0;
	double na = 0, nb = 0, ab = 0;
	for (size_t k = 0; k < D; k++) {
		a[k] = g.real(-1, 1, k == 0 ? 1.0 : 0.0);
		b[k] = g.real(-1, 1, k == 1 ? 1.0 : 0.0);
		na += a[k] * a[k];
		nb += b[k] * b[k];
		ab += a[k] * b[k];
		nza += a[k] != 0;
	}
	if (na < 1e-4 || nb < 1e-4)
		throw pbt::Discard();
	const int deg = degree_of(si);
	int p = g.range(0, deg), q = g.range(0, deg - p);
	c.desc << "moment <(a.e)^" << p << " (b.e)^" << q << ">";
	c.label(si.name);
	c.label("degree " + std::to_string(p + q));
	c.nontrivial = sc != 1.0 && nza >= 2 && p + q >= 2;
	const double cs2 = s->getSpeedOfSoundSquare(), cs = s->getSpeedOfSound();
	CHECK(cs2 > 0 && cs > 0, "speed of sound must be positive");
	CLOSE(cs * cs / cs2, 1, 1e-9, "speed of sound squared");
	double m = 0, mabs = 0, wsum = 0;
	for (size_t i = 0; i < Q; i++) {
		CHECK(s->getDirection(i).size() == D, "direction " << i << " has wrong dimension");
		CHECK(s->getWeight(i) > 0, "weight " << i << " is not positive: " << s->getWeight(i));
		CHECK(s->getWeight(i) == s->getWeights()[i], "weight accessors differ");
		double x = 0, y = 0;
		for (size_t k = 0; k < D; k++) {
			x += a[k] * s->getDirection(i)(k);
			y += b[k] * s->getDirection(i)(k);
			CHECK(s->getDirection(i)(k) == s->getDirections()[i](k), "direction accessors differ");
		}
		double t = s->getWeight(i) * std::pow(x / std::sqrt(na * cs2), p) * std::pow(y / std::sqrt(nb * cs2), q);
		m += t;
		mabs += std::fabs(t);
		wsum += s->getWeight(i);
	}
	// exact Gaussian moment E[X^p Y^q], correlation rho (Isserlis, expanding Y = rho X + sqrt(1-rho^2) Z)
	double rho = ab / std::sqrt(na * nb), ref = 0;
	if (rho > 1)
		rho = 1;
	if (rho < -1)
		rho = -1;
	double binom = 1;
	for (int k = 0; k <= q; k++) {
		int px = p + q - k;
		if (px % 2 == 0 && k % 2 == 0)
			ref += binom * std::pow(rho, q - k) * std::pow(1 - rho * rho, k / 2.0) * dfact(px) * dfact(k);
		binom = binom * (q - k) / (k + 1);
	}
	const double tol = si.name == "D2Q777" ? 1e-5 * (1 + std::fabs(ref) + mabs) : 1e-11 * (1 + mabs);
	CLOSE(wsum, 1, si.name == "D2Q777" ? 1e-7 : 1e-12, "sum of the weights of " << si.name);
	CLOSE(m, ref, tol, si.name << ": moment of degree " << p << "+" << q);
}

LAW(quadrature, 200000, 400000, 4) {
	quadrature(pick_stencil(g), g, c);
}

LAW(quadrature_large, 2, 40, 1) {
	quadrature(all_stencils()[13], g, c);
}

static void opposite(const StencilInfo& si, Gen& g, Ctx& c) {
	double sc = g.logreal(1e-3, 1e4, 1.0);
	StencilP s = si.make(sc), s1 = si.make(1.0);
	const size_t D = s->getD(), Q = s->getQ();
	size_t i = g.draw(Q);
	c.desc << si.name << " scaling=" << sc << " direction=" << i;
	c.label(si.name);
	c.nontrivial = sc != 1.0 && i > 0;
	c.key = "opposite/" + si.name;
	size_t o = s->getIndexOfOppositeDirection(i);
	CHECK(o < Q, "opposite direction " << o << " out of range");
	CHECK(s->getIndexOfOppositeDirection(o) == i, "opposite of the opposite of " << i << " is "
			<< s->getIndexOfOppositeDirection(o));
	CHECK((o == i) == (i == 0), "direction " << i << " is its own opposite");
	CLOSE(s->getWeight(i) / s->getWeight(o), 1, 1e-9, "weights of opposite directions");
	for (size_t k = 0; k < D; k++) {
		CLOSE(s->getDirection(i)(k), -s->getDirection(o)(k), 1e-9 * sc, "component " << k << " of the opposite direction of " << i);
		CLOSE(s->getDirection(i)(k), sc * s1->getDirection(i)(k), 1e-9 * sc, "direction " << i << " does not scale");
		if (i == 0)
			CLOSE(s->getDirection(i)(k), 0, 0, "direction 0 must be at rest");
	}
	CLOSE(s->getWeight(i), s1->getWeight(i), 0, "weights must not depend on the scaling");
	CLOSE(s->getScaling(), sc, 1e-12 * sc, "reported scaling");
	CLOSE(s->getSpeedOfSoundSquare(), sc * sc * s1->getSpeedOfSoundSquare(), 1e-9 * sc * sc, "cs^2 must scale quadratically");
	CLOSE(s->getMaxParticleVelocityMagnitude(), sc * s1->getMaxParticleVelocityMagnitude(), 1e-9 * sc,
			"particle speed must scale linearly");
	CHECK(s1->getMaxParticleVelocityMagnitude() > s1->getSpeedOfSound(), "particle speed below the speed of sound");
	// all directions are distinct
	for (size_t j = 0; j < Q; j++) {
		double d = 0;
		for (size_t k = 0; k < D; k++)
			d += std::fabs(s1->getDirection(i)(k) - s1->getDirection(j)(k));
		CHECK(i == j || d > 1e-3, "directions " << i << " and " << j << " coincide");
	}
}
LAW(opposite, 40000, 200000, 2) {
	opposite(pick_stencil(g), g, c);
}
LAW(opposite_large, 1, 40, 1) {
	opposite(all_stencils()[13], g, c);
}

// every direction of every set once (the generated cases above sample them)
LAW(opposite_all, 1, 1, 1) {
	g.draw(1);
	for (size_t k = 0; k < 13; k++)
		for (size_t i = 0; i < all_stencils()[k].Q; i++) {
			std::vector<uint64_t> in { 0, i };
			Gen gg(in);
			Ctx cc;
			opposite(all_stencils()[k], gg, cc);
		}
	c.desc << "all directions of all sets";
	c.nontrivial = true;
}

// moments (matrix times populations) and back
LAW(moment_basis, 20000, 20000, 2) {
	static const std::vector<int> with { 0, 5, 6, 8, 1, 3, 4 };
	const StencilInfo& si = all_stencils()[g.pick(with)];
	double sc = g.logreal(0.05, 50, 1.0);
	StencilP s = si.make(sc);
	const size_t Q = s->getQ();
	c.key = "moment_basis/" + si.name;
	numeric_matrix M, I;
	s->getMomentBasis(M);
	s->getInverseMomentBasis(I);
	CHECK(M.m() == Q && M.n() == Q && I.m() == Q && I.n() == Q, "size of the moment basis");
	numeric_vector f(Q), m(Q), b(Q);
	for (size_t i = 0; i < Q; i++)
		f(i) = g.real(-1, 1, 0);
	M.vmult(m, f);
	I.vmult(b, m);
	// condition of the basis bounds the error of the round trip
	double cond = M.linfty_norm() * I.linfty_norm();
	c.desc << si.name << " scaling=" << sc << " cond=" << cond;
	c.label(si.name);
	c.nontrivial = f.linfty_norm() > 0;
	for (size_t i = 0; i < Q; i++)
		CLOSE(b(i), f(i), 1e-14 * cond * Q + 1e-13, si.name << ": population " << i << " after moments and back");
}
HARNESS_MAIN
