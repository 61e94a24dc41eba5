// Running the library's collision on generated populations, and an independent model of what it must do.
#pragma once
#include "stencils.h"
#include <deal.II/grid/grid_generator.h>
#include <deal.II/base/index_set.h>
#include "natrium/collision/CollisionModel.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/collision/ExternalForceFunctions.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/solver/DistributionFunctions.h"

namespace coll {
typedef std::vector<double> V;
typedef std::vector<std::vector<double> > VV; // [direction][point]

template<size_t D> class P: public ProblemDescription<D> {
public:
	P() :
			ProblemDescription<D>(mesh(), 1.0, 1.0) {
	}
	static boost::shared_ptr<Mesh<D> > mesh() {
		boost::shared_ptr<Mesh<D> > m = boost::make_shared<Mesh<D> >(MPI_COMM_WORLD);
		dealii::GridGenerator::hyper_cube(*m, 0, 1);
		return m;
	}
	virtual void refine(Mesh<D>&) {
	}
	virtual void transform(Mesh<D>&) {
	}
	virtual bool isCartesian() {
		return true;
	}
};

struct Setup {
	const StencilInfo* si = nullptr;
	double scaling = 1, nu = 1, dt = 1;
	CollisionSchemeName scheme = BGK_STANDARD;
	EquilibriumSchemeName eq = BGK_EQUILIBRIUM;
	ForceType forcing = NO_FORCING;
	MomentBasis basis = DELLAR_D2Q9;
	RelaxMode relax = RELAX_FULL;
	V F;               // empty: problem without force
	bool init = false; // velocity prescribed
	bool compressible = false, prandtl_set = false, sutherland = false;
	double gamma = 1.4, prandtl = 1;
	// filled in
	StencilP st;
	double cs2 = 0, tau = 0; // unscaled
	void finish() {
		if (si->name == "D2Q777") {
			static std::map<double, StencilP> cache;
			StencilP& p = cache[scaling];
			if (!p)
				p = si->make(scaling);
			st = p;
		} else
			st = si->make(scaling);
		cs2 = st->getSpeedOfSoundSquare() / (scaling * scaling);
	}
	void set_tau(double t, double step) {
		tau = t;
		dt = step;
		nu = (tau - 0.5) * dt * st->getSpeedOfSoundSquare();
	}
	std::string str() const {
		std::ostringstream o;
		o.precision(10);
		static const char* S[] = { "BGK", "BGK_TRANSFORMED", "BGK_STEADY", "BGK_MULTIPHASE", "BGK_INCOMPRESSIBLE",
				"MRT", "MRT_ENTROPIC", "ENTROPIC_STABILIZED", "KBC", "KBC_CENTRAL", "AM4", "BDF2", "REGULARIZED" };
		static const char* E[] = { "BGK_EQ", "QUARTIC", "INCOMPRESSIBLE_EQ", "STEADY_EQ", "ENTROPIC_EQ" };
		static const char* FO[] = { "no forcing", "shifting velocity", "exact difference", "Guo" };
		static const char* B[] = { "Dellar", "Lallemand", "dHumieres" };
		static const char* R[] = { "full", "only N", "paper" };
		o << si->name << "/" << S[scheme] << "/" << E[eq];
		if (scheme == MRT_STANDARD)
			o << "/" << B[basis] << "/" << R[relax];
		if (compressible)
			o << " compressible gamma=" << gamma << (prandtl_set ? " Pr=" : " Pr off ") << prandtl
					<< (sutherland ? " Sutherland" : "");
		o << " scaling=" << scaling << " tau=" << tau << " dt=" << dt;
		o << " " << FO[forcing];
		if (!F.empty()) {
			o << " F=(";
			for (double x : F)
				o << x << " ";
			o << ")";
		}
		if (init)
			o << " init";
		return o.str();
	}
	std::string kind() const {
		std::string s = str();
		return s.substr(0, s.find(' '));
	}
	bool has_force() const {
		for (double x : F)
			if (x != 0)
				return true;
		return false;
	}
};

struct State {
	VV f, g;     // [q][point]
	V rho, T, S; // densities, temperatures, shock sensor
	VV u;        // [d][point]
};

inline void to_vec(const V& a, distributed_vector& v) {
	for (size_t i = 0; i < a.size(); i++)
		v(i) = a[i];
	v.compress(dealii::VectorOperation::insert);
}
inline V from_vec(const distributed_vector& v, size_t n) {
	V a(n);
	for (size_t i = 0; i < n; i++)
		a[i] = v(i);
	return a;
}

/// (the Prandtl number and Sutherland's law can be switched on only)
inline SolverConfiguration& config(bool prandtl, bool sutherland) {
	static SolverConfiguration c[4];
	return c[2 * prandtl + sutherland];
}

template<size_t D> void run_dim(const Setup& s, State& x) {
	static P<D> plain, forced;
	P<D>* prob = &plain;
	if (!s.F.empty()) {
		prob = &forced;
		dealii::Tensor<1, D> t;
		for (size_t i = 0; i < D; i++)
			t[i] = s.F[i];
		forced.setExternalForce(boost::make_shared<ConstantExternalForce<D> >(t));
	}
	SolverConfiguration& cfg = config(s.prandtl_set, s.sutherland);
	cfg.setStencil(s.si->type);
	cfg.setCollisionScheme(s.scheme);
	cfg.setEquilibriumScheme(s.eq);
	cfg.setForcingScheme(s.forcing);
	cfg.setMRTBasis(s.basis);
	cfg.setMRTRelaxationTimes(s.relax);
	const size_t n = x.f[0].size(), Q = s.si->Q;
	dealii::IndexSet own = dealii::complete_index_set(n);
	std::vector<distributed_vector> fv(Q), gv(s.compressible ? Q : 0);
	for (size_t q = 0; q < Q; q++) {
		fv[q].reinit(own, MPI_COMM_SELF);
		to_vec(x.f[q], fv[q]);
		if (s.compressible) {
			gv[q].reinit(own, MPI_COMM_SELF);
			to_vec(x.g[q], gv[q]);
		}
	}
	DistributionFunctions f(fv);
	distributed_vector rho, T, S;
	std::vector<distributed_vector> u(D);
	for (auto* v : { &rho, &T, &S })
		v->reinit(own, MPI_COMM_SELF);
	for (size_t d = 0; d < D; d++) {
		u[d].reinit(own, MPI_COMM_SELF);
		if (d < x.u.size())
			to_vec(x.u[d], u[d]);
	}
	auto fetch = [&](DistributionFunctions* gp) {
		for (size_t q = 0; q < Q; q++) {
			x.f[q] = from_vec(f.at(q), n);
			if (gp)
				x.g[q] = from_vec(gp->at(q), n);
		}
		x.rho = from_vec(rho, n);
		x.T = from_vec(T, n);
		x.S = from_vec(S, n);
		x.u.resize(D);
		for (size_t d = 0; d < D; d++)
			x.u[d] = from_vec(u[d], n);
	};
	if (s.compressible) {
		DistributionFunctions gg(gv);
		cfg.setHeatCapacityRatioGamma(s.gamma);
		if (s.prandtl_set)
			cfg.setPrandtlNumber(s.prandtl);
		if (s.sutherland)
			cfg.setSutherlandLaw();
		try {
			selectCollision<D>(cfg, *prob, f, gg, rho, u, T, S, own, s.nu, s.dt, *s.st, s.init);
		} catch (...) {
			fetch(&gg);
			throw;
		}
		fetch(&gg);
	} else {
		try {
			selectCollision<D>(cfg, *prob, f, rho, u, own, s.nu, s.dt, *s.st, s.init);
		} catch (...) {
			fetch(nullptr);
			throw;
		}
		fetch(nullptr);
	}
}
/// one collision of the library on x
inline void run(const Setup& s, State& x) {
	if (s.si->D == 2)
		run_dim<2>(s, x);
	else
		run_dim<3>(s, x);
}

// ---------------------------------------------------------------- reference
inline double E(const Setup& s, size_t q, size_t d) {
	return s.st->getDirection(q)(d) / s.scaling;
}
inline V moments(const Setup& s, const V& f) { // rho, momentum (unscaled)
	V m(1 + s.si->D, 0.0);
	for (size_t q = 0; q < f.size(); q++) {
		m[0] += f[q];
		for (size_t d = 0; d < s.si->D; d++)
			m[1 + d] += f[q] * E(s, q, d);
	}
	return m;
}
inline V point(const VV& f, size_t i) {
	V r(f.size());
	for (size_t q = 0; q < f.size(); q++)
		r[q] = f[q][i];
	return r;
}
/// Hermite expansion of the Maxwellian with relative temperature T, up to `order`, loops over all index tuples
inline V hermite_eq(const Setup& s, double rho, const V& u, double T, int order) {
	const size_t D = s.si->D, Q = s.si->Q;
	const double c = s.cs2, th = c * (T - 1);
	V r(Q);
	auto dl = [](size_t a, size_t b) {return a == b ? 1.0 : 0.0;};
	for (size_t q = 0; q < Q; q++) {
		V e(D);
		for (size_t d = 0; d < D; d++)
			e[d] = E(s, q, d);
		double t = 1;
		for (size_t a = 0; a < D; a++) {
			t += u[a] * e[a] / c;
			for (size_t b = 0; b < D; b++) {
				double A2 = u[a] * u[b] + th * dl(a, b), H2 = e[a] * e[b] - c * dl(a, b);
				t += A2 * H2 / (2 * c * c);
				if (order >= 3)
					for (size_t k = 0; k < D; k++) {
						double A3 = u[a] * u[b] * u[k] + th * (u[a] * dl(b, k) + u[b] * dl(a, k) + u[k] * dl(a, b));
						double H3 = e[a] * e[b] * e[k] - c * (e[a] * dl(b, k) + e[b] * dl(a, k) + e[k] * dl(a, b));
						t += A3 * H3 / (6 * c * c * c);
						if (order >= 4)
							for (size_t l = 0; l < D; l++) {
								double d2 = dl(a, b) * dl(k, l) + dl(a, k) * dl(b, l) + dl(a, l) * dl(b, k);
								auto sym = [&](const V& v) {return v[a] * v[b] * dl(k, l) + v[a] * v[k] * dl(b, l)
									+ v[a] * v[l] * dl(b, k) + v[b] * v[k] * dl(a, l) + v[b] * v[l] * dl(a, k)
									+ v[k] * v[l] * dl(a, b);};
								double A4 = u[a] * u[b] * u[k] * u[l] + th * sym(u) + th * th * d2;
								double H4 = e[a] * e[b] * e[k] * e[l] - c * sym(e) + c * c * d2;
								t += A4 * H4 / (24 * c * c * c * c);
							}
					}
			}
		}
		r[q] = s.st->getWeight(q) * rho * t;
	}
	return r;
}
inline V equilibrium(const Setup& s, double rho, const V& u, double T = 1) {
	return hermite_eq(s, rho, u, T, s.eq == QUARTIC_EQUILIBRIUM ? 4 : 2);
}
/// moment polynomials of the MRT bases at direction e, in the library's documented order
inline V mrt_row(const Setup& s, size_t q) {
	double x = E(s, q, 0), y = E(s, q, 1);
	if (s.basis == DELLAR_D2Q9) {
		double N = (1 - 3 * x * x) * (1 - 3 * y * y);
		return V { 1, x, y, 4.5 * x * x - 1.5, 9 * x * y, 4.5 * y * y - 1.5, N, -2 * x * (1 - 3 * y * y), -2 * y
				* (1 - 3 * x * x) };
	}
	if (s.basis == LALLEMAND_D2Q9) {
		double r = x * x + y * y;
		return V { 1, x, y, x * x - y * y, x * y, -4 + 3 * r, x * (-5 + 3 * r), y * (-5 + 3 * r), 4 - 10.5 * r
				+ 4.5 * r * r };
	}
	double z = E(s, q, 2), r = x * x + y * y + z * z;
	return V { 1, 19 * r - 30, (21 * r * r - 53 * r + 24) / 2, x, (5 * r - 9) * x, y, (5 * r - 9) * y, z, (5 * r - 9)
			* z, 3 * x * x - r, (3 * r - 5) * (3 * x * x - r), y * y - z * z, (3 * r - 5) * (y * y - z * z), x * y, y
			* z, x * z, (y * y - z * z) * x, (z * z - x * x) * y, (x * x - y * y) * z };
}
/// rates in the order of mrt_row; conserved moments: -1
inline V mrt_rates(const Setup& s) {
	double w = 1 / s.tau;
	V r(s.si->Q, w);
	if (s.basis != DHUMIERES_D3Q19) {
		if (s.relax == RELAX_FULL)
			r[6] = r[7] = r[8] = 1;
		else
			r[6] = 1; // only N
	} else if (s.relax == RELAX_FULL) {
		for (int i : { 2, 4, 6, 8, 10, 12, 16, 17, 18 })
			r[i] = 1;
	} else {
		r[1] = 1.19;
		r[2] = 1.4;
		r[4] = r[6] = r[8] = 1.2;
		r[10] = r[12] = 1.4;
		r[16] = r[17] = r[18] = 1.98;
	}
	return r;
}
/// the isothermal textbook scheme at one point; u_init used when s.init
inline V reference(const Setup& s, const V& f, const V& u_init, V* feq_out = nullptr) {
	const size_t D = s.si->D, Q = s.si->Q;
	V m = moments(s, f), u(D), ueq(D);
	for (size_t d = 0; d < D; d++) {
		u[d] = s.init ? u_init[d] / s.scaling : m[1 + d] / m[0];
		ueq[d] = u[d];
		if (s.has_force() && s.forcing == SHIFTING_VELOCITY && !s.init)
			ueq[d] += s.tau * s.dt * s.F[d] / m[0] / s.scaling;
	}
	V feq = equilibrium(s, m[0], ueq), r(Q);
	if (feq_out)
		*feq_out = feq;
	const double w = 1 / s.tau;
	if (s.scheme == BGK_STANDARD) {
		for (size_t q = 0; q < Q; q++)
			r[q] = f[q] + w * (feq[q] - f[q]);
	} else if (s.scheme == BGK_REGULARIZED) {
		// non-equilibrium part replaced by its first and second order Hermite projection
		V n1(D, 0.0);
		VV n2(D, V(D, 0.0));
		for (size_t q = 0; q < Q; q++)
			for (size_t a = 0; a < D; a++) {
				n1[a] += (f[q] - feq[q]) * E(s, q, a);
				for (size_t b = 0; b < D; b++)
					n2[a][b] += (f[q] - feq[q]) * E(s, q, a) * E(s, q, b);
			}
		for (size_t q = 0; q < Q; q++) {
			double t = 0;
			for (size_t a = 0; a < D; a++) {
				t += n1[a] * E(s, q, a) / s.cs2;
				for (size_t b = 0; b < D; b++)
					t += n2[a][b] * (E(s, q, a) * E(s, q, b) - (a == b ? s.cs2 : 0)) / (2 * s.cs2 * s.cs2);
			}
			r[q] = feq[q] + (1 - w) * s.st->getWeight(q) * t;
		}
	} else {
		// the moments of the non-equilibrium part, relaxed; rows orthogonal (Dellar: with respect to the weights)
		VV M(Q);
		for (size_t q = 0; q < Q; q++)
			M[q] = mrt_row(s, q);
		V rates = mrt_rates(s);
		r = f;
		for (size_t k = 0; k < Q; k++) {
			double mk = 0, norm = 0;
			for (size_t q = 0; q < Q; q++) {
				mk += M[q][k] * (f[q] - feq[q]);
				norm += M[q][k] * M[q][k] * (s.basis == DELLAR_D2Q9 ? s.st->getWeight(q) : 1.0);
			}
			for (size_t q = 0; q < Q; q++)
				r[q] -= rates[k] * mk * M[q][k] / norm * (s.basis == DELLAR_D2Q9 ? s.st->getWeight(q) : 1.0);
		}
	}
	if (s.has_force() && s.forcing == EXACT_DIFFERENCE) {
		V us(D);
		for (size_t d = 0; d < D; d++)
			us[d] = u[d] + s.dt * s.F[d] / m[0] / s.scaling;
		V fs = equilibrium(s, m[0], us);
		for (size_t q = 0; q < Q; q++)
			r[q] += fs[q] - feq[q];
	}
	return r;
}

// ---------------------------------------------------------------- generation
struct Combo {
	const char* st;
	CollisionSchemeName scheme;
	EquilibriumSchemeName eq;
};
inline const std::vector<Combo>& isothermal() {
	static std::vector<Combo> v { { "D2Q9", BGK_STANDARD, BGK_EQUILIBRIUM }, { "D2Q9", BGK_STANDARD,
			QUARTIC_EQUILIBRIUM }, { "D2Q9", BGK_REGULARIZED, BGK_EQUILIBRIUM }, { "D2Q9", MRT_STANDARD,
			BGK_EQUILIBRIUM }, { "D2Q25H", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D2Q19H", BGK_STANDARD,
			QUARTIC_EQUILIBRIUM }, { "D2Q19V", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D3Q13", BGK_STANDARD,
			BGK_EQUILIBRIUM }, { "D3Q15", BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3Q15", BGK_REGULARIZED,
			BGK_EQUILIBRIUM }, { "D3Q19", BGK_STANDARD, BGK_EQUILIBRIUM },
			{ "D3Q19", BGK_REGULARIZED, BGK_EQUILIBRIUM }, { "D3Q19", MRT_STANDARD, BGK_EQUILIBRIUM }, { "D3Q21",
					BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3Q27", BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3Q27",
					BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D3Q27", BGK_REGULARIZED, BGK_EQUILIBRIUM }, { "D3V27",
					BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3V27", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D3Q45",
					BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3Q45", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D3Q77",
					BGK_STANDARD, BGK_EQUILIBRIUM }, { "D3Q77", BGK_STANDARD, QUARTIC_EQUILIBRIUM } };
	return v;
}
inline const std::vector<Combo>& compressible() {
	static std::vector<Combo> v { { "D2Q25H", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D2Q19H", BGK_STANDARD,
			QUARTIC_EQUILIBRIUM }, { "D2Q19V", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D3Q45", BGK_STANDARD,
			QUARTIC_EQUILIBRIUM }, { "D3Q77", BGK_STANDARD, QUARTIC_EQUILIBRIUM }, { "D2Q25H", BGK_STANDARD,
			BGK_EQUILIBRIUM }, { "D2Q19H", BGK_STANDARD, BGK_EQUILIBRIUM }, { "D2Q25H", BGK_REGULARIZED,
			BGK_EQUILIBRIUM }, { "D2Q777", BGK_STANDARD, QUARTIC_EQUILIBRIUM } };
	return v;
}
inline const StencilInfo* find_stencil(const std::string& n) {
	for (auto& s : all_stencils())
		if (s.name == n)
			return &s;
	return nullptr;
}
inline void set_combo(Setup& s, const Combo& k) {
	s.si = find_stencil(k.st);
	s.scheme = k.scheme;
	s.eq = k.eq;
	s.basis = s.si->name == "D3Q19" ? DHUMIERES_D3Q19 : DELLAR_D2Q9;
}
/// supported isothermal setup
inline void gen_isothermal(Gen& g, Setup& s) {
	set_combo(s, g.pick(isothermal()));
	if (s.scheme == MRT_STANDARD) {
		if (s.si->name == "D2Q9") {
			s.basis = g.flag() ? LALLEMAND_D2Q9 : DELLAR_D2Q9;
			s.relax = s.basis == DELLAR_D2Q9 && g.flag() ? DELLAR_RELAX_ONLY_N : RELAX_FULL;
		} else
			s.relax = g.flag() ? RELAX_DHUMIERES_PAPER : RELAX_FULL;
	}
	s.scaling = g.logreal(0.05, 100, 1.0);
	s.finish();
	double t = 0.5 + g.logreal(1e-4, 20, 0.5);
	s.set_tau(t, g.logreal(1e-5, 1, 1.0));
}
inline void gen_force(Gen& g, Setup& s, double rho) {
	if (!g.chance(55))
		return;
	s.forcing = g.flag() ? EXACT_DIFFERENCE : SHIFTING_VELOCITY;
	// kick velocity dt F / rho well below the particle speed; tau amplifies it
	double kick = g.logreal(1e-6, 0.3, 0.01) / std::max(1.0, s.tau) * rho * s.scaling / s.dt;
	s.F.assign(s.si->D, 0.0);
	for (size_t d = 0; d < s.si->D; d++)
		s.F[d] = kick * g.real(-1, 1, d == 0 ? 1.0 : 0.0);
	if (!s.has_force())
		s.F[0] = kick;
}
/// populations at n points; returns a name of their kind
inline std::string gen_populations(Gen& g, const Setup& s, size_t n, VV& f, double& rho_min) {
	const size_t Q = s.si->Q, D = s.si->D;
	f.assign(Q, V(n));
	rho_min = 1e300;
	std::string kind;
	double rho0 = g.chance(30) ? g.logreal(1e-3, 1e3, 1.0) : 1.0;
	int k = g.draw(4);
	for (size_t i = 0; i < n; i++) {
		V u(D);
		double amp = 0;
		if (k != 2) {
			for (size_t d = 0; d < D; d++)
				u[d] = std::sqrt(s.cs2) * g.real(-0.4, 0.4, 0.0);
			amp = k == 0 ? 0 : g.logreal(1e-5, 0.9, 0.1);
		}
		double rho = rho0 * g.real(0.5, 2, 1.0);
		V e = hermite_eq(s, rho, u, 1, 2);
		double sum = 0;
		for (size_t q = 0; q < Q; q++) {
			if (k == 0)
				f[q][i] = e[q]; // (second order) equilibrium
			else if (k == 1)
				f[q][i] = e[q] * (1 + amp * g.real(-1, 1, 0)); // near equilibrium
			else if (k == 2)
				f[q][i] = rho / Q * g.logreal(1e-3, 3, 1.0); // arbitrary positive
			else
				f[q][i] = e[q] + rho * amp * g.real(-1, 1, 0) / Q; // may be negative
			sum += f[q][i];
		}
		if (!(sum > 0.05 * rho)) { // keep the density away from zero
			for (size_t q = 0; q < Q; q++)
				f[q][i] += rho / Q;
			sum += rho;
		}
		rho_min = std::min(rho_min, sum);
	}
	static const char* K[] = { "equilibrium", "near equilibrium", "arbitrary positive", "some negative" };
	return K[k];
}
inline double norm1(const V& a) {
	double r = 0;
	for (double x : a)
		r += std::fabs(x);
	return r;
}
inline double emax(const Setup& s) {
	double r = 0;
	for (size_t q = 0; q < s.si->Q; q++)
		for (size_t d = 0; d < s.si->D; d++)
			r = std::max(r, std::fabs(E(s, q, d)));
	return r;
}
/// precision of the set's own weights (D2Q777 is computed numerically, some tables have finite digits)
inline double wtol(const Setup& s) {
	return s.si->name == "D2Q777" ? 1e-6 : 1e-10;
}
}

namespace coll {
/// the compressible scheme at one point (two populations; BGK with a separate rate for the heat flux)
inline void reference_compressible(const Setup& s, V& f, V& g) {
	const size_t D = s.si->D, Q = s.si->Q;
	V m = moments(s, f), u(D);
	for (size_t d = 0; d < D; d++)
		u[d] = m[1 + d] / m[0];
	double en = 0;
	for (size_t q = 0; q < Q; q++) {
		double c2 = 0;
		for (size_t d = 0; d < D; d++)
			c2 += (E(s, q, d) - u[d]) * (E(s, q, d) - u[d]);
		en += c2 * f[q] / s.cs2 + g[q];
	}
	const double T = en * (s.gamma - 1) / (2 * m[0]);
	V feq = equilibrium(s, m[0], u, s.eq == QUARTIC_EQUILIBRIUM ? T : 1), nf(Q), ng(Q); // (the second order one is isothermal)
	for (size_t q = 0; q < Q; q++) {
		nf[q] = f[q] - feq[q];
		ng[q] = g[q] - feq[q] * T * (2 / (s.gamma - 1) - D);
	}
	double tv = (s.tau - 0.5) * (s.sutherland ? std::pow(T / 0.85, 0.7) : 1) / (T * m[0]) + 0.5;
	double tp = (tv - 0.5) / s.prandtl + 0.5;
	V A(D * D * D, 0.0), B(D, 0.0);
	for (size_t q = 0; q < Q; q++)
		for (size_t a = 0; a < D; a++) {
			double ca = E(s, q, a) - u[a];
			B[a] += ca * ng[q];
			for (size_t b = 0; b < D; b++)
				for (size_t k = 0; k < D; k++)
					A[(a * D + b) * D + k] += ca * (E(s, q, b) - u[b]) * (E(s, q, k) - u[k]) * nf[q];
		}
	for (size_t q = 0; q < Q; q++) {
		double fs = 0, gs = 0;
		auto dl = [](size_t a, size_t b) {return a == b ? 1.0 : 0.0;};
		for (size_t a = 0; a < D; a++) {
			gs += B[a] * E(s, q, a) / s.cs2;
			for (size_t b = 0; b < D; b++)
				for (size_t k = 0; k < D; k++) {
					double H3 = E(s, q, a) * E(s, q, b) * E(s, q, k)
							- s.cs2 * (E(s, q, a) * dl(b, k) + E(s, q, b) * dl(a, k) + E(s, q, k) * dl(a, b));
					fs += A[(a * D + b) * D + k] * H3 / (6 * s.cs2 * s.cs2 * s.cs2);
				}
		}
		const double w = s.st->getWeight(q), split = s.prandtl_set ? 1 / tv - 1 / tp : 0;
		f[q] += -nf[q] / tv + split * w * fs;
		g[q] += -ng[q] / tv + split * w * gs;
	}
}
}
