// C06: the populations a run starts from.
#include "solver.h"
using namespace slv;

extern "C" int MPI_Abort(MPI_Comm, int) {
	throw std::runtime_error("MPI_Abort");
}

inline VV get(const DistributionFunctions& f, size_t Q, size_t n) {
	VV r(Q, V(n));
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			r[q][i] = f.at(q)(i);
	return r;
}

/// derivative of the field v at the place of a grid point, seen from a cell
template<size_t dim> double slope(const sl::Cells<dim>& cl, size_t cell, const std::vector<double>& nd, const dealii::Point<dim>& x,
		const V& v, size_t a) {
	auto& c = cl.cells[cell];
	double r = 0;
	for (auto d : c.dofs) {
		double w = 1;
		for (size_t b = 0; b < dim; b++) {
			double h = c.hi[b] - c.lo[b], y = (x[b] - c.lo[b]) / h, s = (cl.points.at(d)[b] - c.lo[b]) / h;
			size_t k = 99;
			for (size_t i = 0; i < nd.size(); i++)
				if (std::fabs(nd[i] - s) < 1e-8)
					k = i;
			if (k == 99)
				throw pbt::Discard();
			if (a != b)
				w *= sl::Cells<dim>::lagrange(nd, k, y);
			else {
				double sum = 0;
				for (size_t m = 0; m < nd.size(); m++) {
					if (m == k)
						continue;
					double t = 1 / (nd[k] - nd[m]);
					for (size_t j = 0; j < nd.size(); j++)
						if (j != k && j != m)
							t *= (y - nd[j]) / (nd[k] - nd[j]);
					sum += t;
				}
				w *= sum / h;
			}
		}
		r += w * v[d];
	}
	return r;
}

/// equilibrium plus what the velocity gradients demand
template<size_t dim> void gradients(Gen& g, Ctx& c, size_t cells) {
	Run<dim> r;
	gen_run<dim>(g, r, coll::isothermal(), cells);
	bool dg = g.chance(40);
	if (dg) {
		r.pts = GAUSS_LOBATTO_POINTS;
		r.ptn = "Gauss-Lobatto";
		r.s.local.clear();
	}
	r.set.F.clear();
	r.set.forcing = NO_FORCING;
	double dt = r.cfl * min_edge(r.s) / (r.set.st->getMaxParticleVelocityMagnitude() * r.order * r.order);
	r.set.set_tau(r.set.tau, dt);
	r.describe(c.desc);
	coll::Setup& s = r.set;
	c.desc << (dg ? ", SEDG" : ", semi-Lagrangian");
	c.key = std::string("gradients/") + (dg ? "SEDG" : "semi-Lagrangian");
	r.make_config();
	if (dg)
		r.cfg->setAdvectionScheme(SEDG);
	r.cfg->setInitializationScheme(GRADIENTS);
	r.make_problem();
	CFDSolver<dim> solver(r.cfg, r.pb);
	const size_t n = solver.getNumberOfDoFs(), Q = s.si->Q;
	CLOSE(solver.getTimeStepSize(), s.dt, 1e-12 * s.dt, "time step");
	sl::Cells<dim> cl(*solver.getAdvectionOperator());
	auto nd = sl::nodes(r.pts, r.order);
	VV u(dim, V(n));
	V rho(n), times(n);
	for (auto& pt : cl.points) {
		rho[pt.first] = r.rho->value(pt.second);
		for (size_t a = 0; a < dim; a++)
			u[a][pt.first] = r.u->value(pt.second, a);
	}
	// gradients, averaged over the cells around a point
	std::vector<VV> G(dim, VV(dim, V(n)));
	for (size_t k = 0; k < cl.cells.size(); k++)
		for (auto d : cl.cells[k].dofs) {
			times[d] += 1;
			for (size_t a = 0; a < dim; a++)
				for (size_t b = 0; b < dim; b++)
					G[a][b][d] += slope<dim>(cl, k, nd, cl.points.at(d), u[a], b);
		}
	const double cs2 = s.st->getSpeedOfSoundSquare(), factor = s.nu / cs2 + 0.5 * s.dt;
	VV f = get(solver.getF(), Q, n);
	bool shared = false;
	double strain = 0;
	for (auto& pt : cl.points) {
		size_t i = pt.first;
		shared |= times[i] > 1;
		V v(dim);
		for (size_t a = 0; a < dim; a++)
			v[a] = u[a][i] / s.scaling;
		V e = coll::hermite_eq(s, rho[i], v, 1, 2);
		for (size_t q = 0; q < Q; q++) {
			double t = 0, big = 0;
			for (size_t a = 0; a < dim; a++)
				for (size_t b = 0; b < dim; b++) {
					double k = (s.st->getDirection(q)(a) * s.st->getDirection(q)(b) - (a == b ? cs2 : 0)) * G[a][b][i] / times[i];
					t += k;
					big += std::fabs(k);
				}
			t *= -s.st->getWeight(q) * rho[i] * factor / cs2;
			big *= s.st->getWeight(q) * rho[i] * factor / cs2;
			strain = std::max(strain, std::fabs(t) / e[q]);
			CLOSE(f[q][i], e[q] + t, coll::wtol(s) + 1e-10 * big, "population " << q << " at (" << pt.second << "), equilibrium " << e[q]);
		}
	}
	c.nontrivial = strain > 1e-6;
	c.label(dg ? "SEDG" : "semi-Lagrangian");
	if (shared)
		c.label("shared points");
}
LAW(gradients2d, 500, 8000, 4) {
	gradients<2>(g, c, 24);
}
LAW(gradients3d, 100, 1000, 4) {
	gradients<3>(g, c, 12);
}

/// stream and collide with given velocities until the densities stay
template<size_t dim> void iterative(Gen& g, Ctx& c, size_t cells) {
	Run<dim> r;
	std::vector<coll::Combo> bgk;
	for (auto& k : coll::isothermal())
		if (k.scheme == BGK_STANDARD && k.eq == BGK_EQUILIBRIUM)
			bgk.push_back(k);
	gen_run<dim>(g, r, bgk, cells);
	r.set.F.clear();
	r.set.forcing = NO_FORCING;
	coll::Setup& s = r.set;
	size_t most = g.range(1, 12);
	double residual = g.chance(30) ? 1e-25 : g.logreal(1e-9, 1, 1e-3);
	r.describe(c.desc);
	c.desc << ", at most " << most << " iterations, residual " << residual;
	c.key = "iterative";
	r.make_config();
	r.make_problem();
	CFDSolver<dim> simple(r.cfg, r.pb);
	const size_t n = simple.getNumberOfDoFs(), Q = s.si->Q;
	sl::Cells<dim> cl(*simple.getAdvectionOperator());
	Transport<dim> tr(r.s, cl, *s.st, sl::nodes(r.pts, r.order), s.dt);
	if (tr.doubtful)
		throw pbt::Discard();
	VV f(Q, V(n)), u(n, V(dim));
	V rho(n);
	for (auto& pt : cl.points) {
		size_t i = pt.first;
		for (size_t a = 0; a < dim; a++)
			u[i][a] = r.u->value(pt.second, a) / s.scaling;
		rho[i] = r.rho->value(pt.second);
		V e = coll::hermite_eq(s, rho[i], u[i], 1, 2);
		for (size_t q = 0; q < Q; q++)
			f[q][i] = e[q];
	}
	size_t k = 0;
	for (; k < most;) {
		tr.apply(f);
		double res = 0;
		for (size_t i = 0; i < n; i++) {
			double d = 0;
			for (size_t q = 0; q < Q; q++)
				d += f[q][i];
			if (!(d > 0.1 && d < 10))
				throw pbt::Discard();
			V e = coll::hermite_eq(s, d, u[i], 1, 2);
			for (size_t q = 0; q < Q; q++)
				f[q][i] += (e[q] - f[q][i]) / s.tau;
			res += (d - rho[i]) * (d - rho[i]);
			rho[i] = d;
		}
		k++;
		if (std::fabs(res - residual) < 1e-6 * residual)
			throw pbt::Discard(); // round-off decides
		if (!(res > residual))
			break;
		// with a residual far below round-off of the densities the number of iterations is a matter of chance
		if (residual < 1e-20 && res < 1e-20)
			throw pbt::Discard();
	}
	r.make_config();
	r.cfg->setInitializationScheme(ITERATIVE);
	r.cfg->setIterativeInitializationNumberOfIterations(most);
	r.cfg->setIterativeInitializationResidual(residual);
	r.make_problem();
	CFDSolver<dim> solver(r.cfg, r.pb);
	VV got = get(solver.getF(), Q, n);
	double tol = coll::wtol(s) * 20 * std::pow(1 + std::max(1.0, 2 / s.tau), (double) std::min(k, (size_t) 8));
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			CLOSE(got[q][i], f[q][i], tol, "population " << q << " at (" << cl.points[i] << ") after " << k << " iterations");
	for (size_t i = 0; i < n; i++) {
		CLOSE(solver.getDensity()(i), rho[i], Q * tol, "density at (" << cl.points[i] << ")");
		for (size_t a = 0; a < dim; a++)
			CLOSE(solver.getVelocity()[a](i) / s.scaling, u[i][a], 1e-12, "velocity " << a << " at (" << cl.points[i] << ")");
	}
	CHECK(solver.getTime() == 0 && solver.getIteration() == 0, "time " << solver.getTime() << ", iteration " << solver.getIteration());
	c.nontrivial = k > 1;
	c.label(k < most ? "converged" : "stopped");
	if (tr.hits)
		c.label("walls");
	if (r.s.local.size())
		c.label("locally refined");
}
LAW(iterative2d, 600, 10000, 4) {
	iterative<2>(g, c, 24);
}
LAW(iterative3d, 100, 1200, 4) {
	iterative<3>(g, c, 12);
}

/// compressible: a number of iterations with given density, velocity, temperature
template<size_t dim> void compressible(Gen& g, Ctx& c, size_t cells) {
	Run<dim> r;
	gen_flow<dim>(g, r, true, cells);
	if (r.set.eq != QUARTIC_EQUILIBRIUM)
		throw pbt::Discard();
	coll::Setup& s = r.set;
	size_t most = g.range(1, 6);
	r.describe(c.desc);
	c.desc << ", " << most << " iterations";
	c.key = "compressible";
	std::vector<VV> f, h;
	VV u(dim);
	V rho, T;
	size_t n = 0;
	const size_t Q = s.si->Q;
	boost::shared_ptr<CompressibleCFDSolver<dim> > last;
	for (size_t m : { most, most + 1 }) {
		r.make_config();
		r.cfg->setHeatCapacityRatioGamma(s.gamma);
		r.cfg->setInitializationScheme(COMPRESSIBLE_ITERATIVE);
		r.cfg->setIterativeInitializationNumberOfIterations(m);
		r.make_problem();
		last = boost::make_shared<CompressibleCFDSolver<dim> >(r.cfg, r.pb);
		last->initializeDistributions();
		n = last->getNumberOfDoFs();
		f.push_back(get(last->getF(), Q, n));
		h.push_back(get(last->getG(), Q, n));
	}
	sl::Cells<dim> cl(*last->getAdvectionOperator());
	Transport<dim> tr(r.s, cl, *s.st, sl::nodes(r.pts, r.order), s.dt);
	if (tr.doubtful)
		throw pbt::Discard();
	for (auto& x : f)
		for (auto& y : x)
			for (double z : y)
				if (!(std::fabs(z) < 10))
					throw pbt::Discard();
	tr.apply(f[0]);
	tr.apply(h[0]);
	for (auto& pt : cl.points) {
		size_t i = pt.first;
		CLOSE(last->getDensity()(i), r.rho->value(pt.second), 1e-12, "density at (" << pt.second << ")");
		CLOSE(last->getTemperature()(i), r.T->value(pt.second), 1e-12, "temperature at (" << pt.second << ")");
		double a0 = 0, a1 = 0, mag = 0;
		for (size_t q = 0; q < Q; q++) {
			a0 += f[0][q][i];
			a1 += f[1][q][i];
			mag += std::fabs(f[0][q][i]) + std::fabs(f[1][q][i]);
		}
		CLOSE(a1, a0, (1e-10 + 20 * coll::wtol(s)) * mag, "mass of one more iteration at (" << pt.second << ")");
		// j towards rho u with rate w, energy by w rho (given u^2 - u^2); cs = 1
		double num = 0, den = 0, kin = 0, en0 = 0, en1 = 0;
		const double cs2 = s.st->getSpeedOfSoundSquare();
		for (size_t q = 0; q < Q; q++) {
			double e2 = 0;
			for (size_t a = 0; a < dim; a++)
				e2 += s.st->getDirection(q)(a) * s.st->getDirection(q)(a) / cs2;
			en0 += e2 * f[0][q][i] + h[0][q][i];
			en1 += e2 * f[1][q][i] + h[1][q][i];
		}
		for (size_t a = 0; a < dim; a++) {
			double given = r.u->value(pt.second, a), j0 = 0, j1 = 0;
			CLOSE(last->getVelocity()[a](i), given, 1e-12 * s.scaling, "velocity " << a << " at (" << pt.second << ")");
			for (size_t q = 0; q < Q; q++) {
				j0 += f[0][q][i] * s.st->getDirection(q)(a);
				j1 += f[1][q][i] * s.st->getDirection(q)(a);
			}
			// the relaxation time depends on the temperature: only the direction of the change is fixed
			double to = a0 * given;
			CHECK(std::fabs(j1 - to) <= std::fabs(j0 - to) * (1 + 1e-9) + (1e-9 + 50 * coll::wtol(s)) * mag * s.scaling,
					"momentum " << a << " at (" << pt.second << ") goes from " << j0 << " to " << j1 << " instead of towards " << to);
			num += (j1 - j0) * (to - j0) / cs2;
			den += (to - j0) * (to - j0) / cs2;
			kin += (to * to - j0 * j0) / a0 / cs2;
		}
		if (den > 1e-8) {
			CLOSE(en1 - en0, num / den * kin, 1e-5 * std::fabs(kin) + (1e-9 + 200 * coll::wtol(s)) * mag, "change of energy at (" << pt.second << ")");
			c.nontrivial = true;
		}
	}
}
LAW(compressible2d, 200, 2000, 4) {
	compressible<2>(g, c, 12);
}

/// changing the velocity of a solver equals starting with this velocity
template<size_t dim> void changed(Gen& g, Ctx& c, size_t cells) {
	Run<dim> r;
	std::vector<coll::Combo> some;
	for (auto& k : coll::isothermal())
		if (k.scheme == BGK_STANDARD && k.eq == BGK_EQUILIBRIUM)
			some.push_back(k);
	gen_run<dim>(g, r, some, cells);
	coll::Setup& s = r.set;
	s.F.clear();
	s.forcing = NO_FORCING;
	if (r.s.local.size())
		throw pbt::Discard();
	const double factor = g.real(-1.5, 1.5, 0.5);
	const bool scale = g.flag();
	InitializationSchemeName scheme = std::vector<InitializationSchemeName> { EQUILIBRIUM, GRADIENTS }[g.draw(2)];
	const bool dg = g.chance(30);
	if (dg) {
		r.pts = GAUSS_LOBATTO_POINTS;
		r.ptn = "Gauss-Lobatto";
	}
	Wave<dim> more(r.s, dim);
	for (size_t a = 0; a < dim; a++)
		more.gen(g, a, 0, 0.05 * s.scaling, 0.05 * s.scaling);
	r.describe(c.desc);
	c.desc << (dg ? ", SEDG" : ", semi-Lagrangian") << ", initialization " << scheme << (scale ? ", velocity scaled by " : ", added velocity");
	if (scale)
		c.desc << factor;
	else
		more.print(c.desc, "v");
	c.key = scale ? "scaled" : "added";
	class Sum: public dealii::Function<dim> {
	public:
		const Wave<dim>& a, &b;
		double fa;
		bool add;
		Sum(const Wave<dim>& x, const Wave<dim>& y, double f, bool s) :
				dealii::Function<dim>(dim), a(x), b(y), fa(f), add(s) {
		}
		double value(const dealii::Point<dim>& p, unsigned int i = 0) const override {
			return fa * a.value(p, i) + (add ? b.value(p, i) : 0);
		}
	};
	auto start = [&](bool target) {
		r.make_config();
		if (dg)
			r.cfg->setAdvectionScheme(SEDG);
		r.cfg->setInitializationScheme(scheme);
		r.cfg->setIterativeInitializationNumberOfIterations(3);
		r.cfg->setIterativeInitializationResidual(1e-25);
		r.make_problem();
		if (target)
			r.pb->setU(boost::make_shared<Sum>(*r.u, more, scale ? factor : 1.0, !scale));
		return boost::make_shared<CFDSolver<dim> >(r.cfg, r.pb);
	};
	auto one = start(false), two = start(true);
	if (scale)
		one->scaleVelocity(factor);
	else
		one->addToVelocity(boost::make_shared<Wave<dim> >(more));
	const size_t n = one->getNumberOfDoFs(), Q = s.si->Q;
	VV a = get(one->getF(), Q, n), b = get(two->getF(), Q, n);
	for (size_t i = 0; i < n; i++) {
		for (size_t d = 0; d < dim; d++)
			CLOSE(one->getVelocity()[d](i), two->getVelocity()[d](i), 1e-12 * s.scaling, "velocity " << d << " at dof " << i);
		for (size_t q = 0; q < Q; q++)
			CLOSE(a[q][i], b[q][i], 20 * coll::wtol(s) , "population " << q << " at dof " << i);
	}
	CHECK(one->getTime() == 0, "time " << one->getTime());
	c.nontrivial = true;
	c.label(scale ? "scaled" : "added");
	c.label(scheme == EQUILIBRIUM ? "equilibrium" : "gradients");
}
LAW(changed2d, 300, 4000, 2) {
	changed<2>(g, c, 20);
}
LAW(changed3d, 60, 600, 2) {
	changed<3>(g, c, 10);
}
HARNESS_MAIN
