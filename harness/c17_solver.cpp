// C17: whole runs of the solver against a reference lattice Boltzmann solver.
#include "solver.h"
using namespace slv;

/// populations of the library at all points
inline VV get(const DistributionFunctions& f, size_t Q, size_t n) {
	VV r(Q, V(n));
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			r[q][i] = f.at(q)(i);
	return r;
}

template<size_t dim> void reference_run(Gen& g, Ctx& c, size_t cells, bool moving) {
	Run<dim> r;
	gen_run<dim>(g, r, coll::isothermal(), cells);
	std::vector<boost::shared_ptr<WallVelocity<dim> > > wu(2 * dim);
	if (moving) {
		size_t ax = g.draw(dim);
		for (size_t a = 0; a < dim; a++)
			r.s.wall[a] = a == ax;
		for (size_t a = 0; a < dim; a++)
			if (a != ax)
				while (r.s.cells(a) < 2) {
					r.s.reps[a]++;
					r.s.len[a] *= 2;
				}
		r.rho->s = r.u->s = r.s;
		r.set.set_tau(r.set.tau, r.cfl * min_edge(r.s) / (r.set.st->getMaxParticleVelocityMagnitude() * r.order * r.order));
		const double cs = std::sqrt(r.set.st->getSpeedOfSoundSquare());
		for (size_t w = 2 * ax; w < 2 * ax + 2; w++) {
			wu[w] = boost::make_shared<WallVelocity<dim> >();
			for (size_t a = 0; a < dim; a++) {
				wu[w]->a[a] = cs * g.real(-0.2, 0.2, 0.1);
				wu[w]->bt[a] = g.chance(60) ? cs / r.set.dt * g.real(-0.05, 0.05, 0.01) : 0;
				if (g.chance(30))
					for (size_t b = 0; b < dim; b++)
						if (b == ax)
							wu[w]->bx[a][b] = cs / r.s.len[b] * g.real(-0.1, 0.1, 0.05);
			}
		}
		r.s.boundary = [wu](size_t w) -> boost::shared_ptr<Boundary<dim> > {
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(wu[w]));
		};
		c.desc << "walls moving with ";
		for (size_t w = 2 * ax; w < 2 * ax + 2; w++)
			for (size_t a = 0; a < dim; a++)
				c.desc << wu[w]->a[a] << "+" << wu[w]->bt[a] << "*t ";
	}
	r.describe(c.desc);
	coll::Setup& s = r.set;
	c.label(s.kind());
	c.key = "run/" + s.kind();
	r.make_config();
	r.make_problem();
	CFDSolver<dim> solver(r.cfg, r.pb);
	const size_t n = solver.getNumberOfDoFs(), Q = s.si->Q;
	CLOSE(solver.getTimeStepSize(), s.dt, 1e-12 * s.dt, "time step");
	CLOSE(solver.getTau() + (s.scheme == BGK_STANDARD ? 0.5 : 0), s.scheme == BGK_STANDARD ? s.tau : 0, 1e-10 * s.tau, "relaxation time");
	sl::Cells<dim> cl(*solver.getAdvectionOperator());
	Transport<dim> tr(r.s, cl, *s.st, sl::nodes(r.pts, r.order), s.dt);
	if (tr.doubtful)
		throw pbt::Discard();
	VV f(Q, V(n));
	for (auto& pt : cl.points) {
		V u(dim);
		for (size_t a = 0; a < dim; a++)
			u[a] = r.u->value(pt.second, a) / s.scaling;
		V e = coll::hermite_eq(s, r.rho->value(pt.second), u, 1, 2);
		for (size_t q = 0; q < Q; q++)
			f[q][pt.first] = e[q];
	}
	VV f0 = get(solver.getF(), Q, n);
	double tol = (1 + std::max(1.0, 2 / s.tau)) * coll::wtol(s);
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			CLOSE(f0[q][i], f[q][i], tol, "initial population " << q << " at (" << cl.points[i] << ")");
	auto collide = [&]() {
		for (size_t i = 0; i < n; i++) {
			double d = 0;
			for (size_t q = 0; q < Q; q++)
				d += f[q][i];
			if (!(d > 0.1 && d < 10))
				throw pbt::Discard(); // unstable
			V x = coll::reference(s, coll::point(f, i), V());
			for (size_t q = 0; q < Q; q++)
				f[q][i] = x[q];
		}
	};
	collide();
	for (size_t k = 0; k < r.steps; k++) {
		tr.apply(f);
		if (moving)
			tr.walls(f, [&](size_t w, size_t a, const std::vector<double>& x, double t) {return wu[w]->at(a, x.data(), t);}, (k + 1) * s.dt);
		if (k + 1 == r.steps)
			break;
		collide();
	}
	VV before = f;
	collide();
	double big = 0;
	for (auto& x : f)
		for (double y : x)
			big = std::max(big, std::fabs(y));
	if (!(big < 10))
		throw pbt::Discard(); // unstable
	solver.run();
	CHECK(solver.getIteration() == r.steps, "iterations: " << solver.getIteration());
	CLOSE(solver.getTime(), r.steps * s.dt, 1e-12 * r.steps * s.dt, "time");
	VV got = get(solver.getF(), Q, n);
	tol *= 20 * std::pow(3.0, (double) r.steps);
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			CLOSE(got[q][i], f[q][i], tol, "population " << q << " at (" << cl.points[i] << ") after " << r.steps << " steps");
	for (size_t i = 0; i < n; i++) {
		V m = coll::moments(s, coll::point(before, i));
		CLOSE(solver.getDensity()(i), m[0], Q * tol, "density at (" << cl.points[i] << ")");
		for (size_t a = 0; a < dim; a++)
			CLOSE(solver.getVelocity()[a](i) / s.scaling, (m[1 + a] + (s.has_force() ? 0.5 * s.dt * s.F[a] / s.scaling : 0)) / m[0], 3 * Q * tol,
					"velocity " << a << " at (" << cl.points[i] << ")");
	}
	c.nontrivial = true;
	if (tr.hits)
		c.label("walls");
	if (s.has_force())
		c.label("force");
	if (r.s.local.size())
		c.label("locally refined");
	c.label("order " + std::to_string(r.order));
}
LAW(reference2d, 1200, 20000, 8) {
	reference_run<2>(g, c, 24, false);
}
LAW(reference3d, 240, 3000, 8) {
	reference_run<3>(g, c, 12, false);
}
LAW(moving_walls2d, 240, 5000, 4) {
	reference_run<2>(g, c, 24, true);
}
LAW(moving_walls3d, 48, 800, 4) {
	reference_run<3>(g, c, 12, true);
}

template<size_t dim> void compressible_run(Gen& g, Ctx& c, size_t cells) {
	Run<dim> r;
	gen_run<dim>(g, r, coll::compressible(), cells);
	coll::Setup& s = r.set;
	s.F.clear();
	s.forcing = NO_FORCING;
	s.compressible = true;
	s.gamma = g.chance(70) ? 1.4 : g.real(1.1, 1.6, 1.3);
	s.prandtl_set = g.chance(50);
	s.prandtl = s.prandtl_set ? g.real(0.4, 2, 0.71) : 1;
	s.sutherland = g.chance(30);
	for (size_t a = 0; a < dim; a++) {
		r.s.wall[a] = false;
		while (r.s.cells(a) < 2) {
			r.s.reps[a]++;
			r.s.len[a] *= 2;
		}
	}
	r.rho->s = r.u->s = r.s;
	s.set_tau(s.tau, r.cfl * min_edge(r.s) / (s.st->getMaxParticleVelocityMagnitude() * r.order * r.order));
	r.T = boost::make_shared<Wave<dim> >(r.s, 1);
	r.T->gen(g, 0, 1, 0.05, 0.05);
	r.describe(c.desc);
	c.label(s.kind());
	c.key = "compressible/" + s.kind();
	r.make_config();
	r.cfg->setHeatCapacityRatioGamma(s.gamma);
	if (s.prandtl_set)
		r.cfg->setPrandtlNumber(s.prandtl);
	if (s.sutherland)
		r.cfg->setSutherlandLaw();
	r.make_problem();
	CompressibleCFDSolver<dim> solver(r.cfg, r.pb);
	const size_t n = solver.getNumberOfDoFs(), Q = s.si->Q;
	CLOSE(solver.getTimeStepSize(), s.dt, 1e-12 * s.dt, "time step");
	sl::Cells<dim> cl(*solver.getAdvectionOperator());
	Transport<dim> tr(r.s, cl, *s.st, sl::nodes(r.pts, r.order), s.dt);
	VV f(Q, V(n)), h(Q, V(n));
	for (auto& pt : cl.points) {
		V u(dim);
		for (size_t a = 0; a < dim; a++)
			u[a] = r.u->value(pt.second, a) / s.scaling;
		double T = r.T->value(pt.second);
		V e = coll::hermite_eq(s, r.rho->value(pt.second), u, T, 4);
		for (size_t q = 0; q < Q; q++) {
			f[q][pt.first] = e[q];
			h[q][pt.first] = e[q] * T * (2 / (s.gamma - 1) - dim);
		}
	}
	auto temperature = [&](size_t i) {
		V m = coll::moments(s, coll::point(f, i));
		double en = 0;
		for (size_t q = 0; q < Q; q++) {
			double c2 = 0;
			for (size_t a = 0; a < dim; a++) {
				double ca = coll::E(s, q, a) - m[1 + a] / m[0];
				c2 += ca * ca;
			}
			en += c2 * f[q][i] / s.cs2 + h[q][i];
		}
		return en * (s.gamma - 1) / 2 / m[0];
	};
	auto collide = [&]() {
		for (size_t i = 0; i < n; i++) {
			V x = coll::point(f, i), y = coll::point(h, i);
			coll::reference_compressible(s, x, y);
			for (size_t q = 0; q < Q; q++) {
				f[q][i] = x[q];
				h[q][i] = y[q];
			}
		}
	};
	collide();
	V T(n), rho(n);
	for (size_t k = 0; k < r.steps; k++) {
		tr.apply(f);
		tr.apply(h);
		for (size_t i = 0; i < n; i++) {
			T[i] = temperature(i);
			rho[i] = coll::moments(s, coll::point(f, i))[0];
			if (!(T[i] > 0.3 && T[i] < 2 && rho[i] > 0.3 && rho[i] < 3))
				throw pbt::Discard(); // unstable
		}
		collide();
	}
	solver.run();
	CHECK(solver.getIteration() == r.steps, "iterations: " << solver.getIteration());
	CLOSE(solver.getTime(), r.steps * s.dt, 1e-12 * r.steps * s.dt, "time");
	VV got = get(solver.getF(), Q, n), goth = get(solver.getG(), Q, n);
	double tol = (2 + 2 / s.tau) * coll::wtol(s) * 100 * std::pow(3.0, (double) r.steps);
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++) {
			CLOSE(got[q][i], f[q][i], tol, "population " << q << " at (" << cl.points[i] << ") after " << r.steps << " steps");
			CLOSE(goth[q][i], h[q][i], 10 * tol, "energy population " << q << " at (" << cl.points[i] << ") after " << r.steps << " steps");
		}
	for (size_t i = 0; i < n; i++) {
		CLOSE(solver.getDensity()(i), rho[i], Q * tol, "density at (" << cl.points[i] << ")");
		CLOSE(solver.getTemperature()(i), T[i], 10 * Q * tol, "temperature at (" << cl.points[i] << ")");
	}
	c.nontrivial = true;
	c.label("order " + std::to_string(r.order));
}
LAW(compressible2d, 120, 3000, 4) {
	compressible_run<2>(g, c, 16);
}
LAW(compressible3d, 16, 200, 4) {
	compressible_run<3>(g, c, 8);
}
HARNESS_MAIN
