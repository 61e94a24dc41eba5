// C07: semi-Lagrangian streaming transports the populations along their velocities.
#include "sl.h"
using namespace sl;

template<size_t dim> struct Case {
	BoxSpec<dim> s;
	StencilP st;
	double scaling, dt;
	size_t order;
	SupportPointsName pts;
	std::string stn, ptn;
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<SemiLagrangian<dim> > op;
	void describe(std::ostream& o) {
		o << stn << " scaling " << scaling << " order " << order << " " << ptn << " points, dt " << dt << " (CFL " << dt * emax<dim>(*st) / s.hmin()
				<< " cells), ";
		s.print(o);
	}
};
template<size_t dim> void gen_case(Gen& g, Ctx& c, Case<dim>& k, size_t cells, bool walls) {
	k.s = gen_box<dim>(g, cells, walls);
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 45, k.scaling, k.stn);
	k.order = 1 + g.draw(dim == 2 ? 5 : 2);
	k.pts = gen_points(g, k.ptn);
	// Courant number in cells
	double cfl;
	switch (g.draw(4)) {
	case 0:
		cfl = g.real(0.05, 0.95, 0.5);
		break;
	case 1:
		cfl = g.logreal(1e-3, 0.5, 0.1);
		break;
	case 2:
		cfl = g.real(0.9, 2.7, 1.5);
		break;
	default:
		cfl = 0.25 * g.range(1, 8);
	}
	k.dt = cfl * k.s.hmin() / emax<dim>(*k.st);
}
template<size_t dim> void make(Case<dim>& k) {
	k.pb = boost::make_shared<BoxProblem<dim> >(k.s);
	k.pb->refineAndTransform();
	k.op = boost::make_shared<SemiLagrangian<dim> >(*k.pb, k.order, QGAUSS_LOBATTO, k.pts, k.st, k.dt);
	k.op->setupDoFs();
	k.op->setDeltaT(k.dt);
	k.op->reassemble();
}

template<size_t dim> void rows(Gen& g, Ctx& c, bool local) {
	Case<dim> k;
	gen_case<dim>(g, c, k, dim == 2 ? 40 : 24, true);
	if (!local && g.chance(30)) {
		k.s.shape = 3;
		k.s.amount = g.real(-0.5, 0.5, 0.3);
	}
	if (local) {
		// only cells which do not touch a periodic boundary
		for (size_t n = 1 + g.draw(3); n > 0; n--) {
			std::array<double, dim> p;
			for (size_t a = 0; a < dim; a++) {
				if (!k.s.wall[a]) {
					while (k.s.cells(a) < 3)
						k.s.reps[a]++;
					p[a] = (1 + g.draw(k.s.cells(a) - 2) + 0.5) / k.s.cells(a);
				} else
					p[a] = (g.draw(k.s.cells(a)) + 0.5) / k.s.cells(a);
			}
			k.s.local.push_back(p);
		}
	}
	k.describe(c.desc);
	make(k);
	const Stencil& st = *k.st;
	Cells<dim> cells(*k.op);
	std::vector<double> nd = nodes(k.pts, k.order);
	bool walls = false, lost = false, doubtful = false, multi = false;
	size_t hits = 0;
	const double n_dofs = k.op->getDoFHandler()->n_dofs();
	// all rows of small cases, random ones of bigger cases
	for (auto& pt : cells.points) {
		for (size_t i = 1; i < st.getQ(); i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
				if (e[a] * k.dt > 1.0001 * k.s.h(a))
					multi = true;
			}
			Path p = trace<dim>(k.s, x, e, k.dt);
			hits += p.hits.size();
			if (p.hits.size())
				walls = true;
			if (p.lost)
				lost = true;
			if (p.doubtful)
				doubtful = true;
			if (p.doubtful)
				continue;
			auto got = row(*k.op, i, pt.first);
			size_t from = p.reversed ? opposite(st, i) : i;
			std::ostringstream where;
			where << "row of direction " << i << " (";
			for (size_t a = 0; a < dim; a++)
				where << " " << e[a];
			where << " ) at (";
			for (size_t a = 0; a < dim; a++)
				where << " " << x[a];
			where << " )";
			if (p.lost) {
				CHECK(got.size() == 1 && got.begin()->first == std::make_pair(i, (size_t)pt.first)
						&& std::fabs(got.begin()->second - 1) < 1e-12,
						where.str() << ": a path trapped in a corner does not leave the population unchanged");
				continue;
			}
			// any cell with the departure point (on faces between cells there are several)
			auto in = candidates<dim>(k.s, cells, p.y);
			CHECK(in.size() > 0, "internal: no cell");
			std::string why;
			for (auto& cy : in) {
				auto w = cells.weights(cy.first, nd, cy.second);
				CHECK(w.size() > 0, "the support points are not the " << k.ptn << " points");
				std::map<std::pair<size_t, size_t>, double> diff = got;
				for (auto& q : w)
					diff[std::make_pair(from, (size_t) q.first)] -= q.second;
				why = "";
				for (auto& q : diff)
					if (!(std::fabs(q.second) < 1e-7)) {
						std::ostringstream o;
						o << where.str() << ": the weight of direction " << q.first.first << ", node (" << cells.points[q.first.second]
								<< ") is " << (got.count(q.first) ? got[q.first] : 0.) << ", interpolation at the departure point (";
						for (size_t a = 0; a < dim; a++)
							o << " " << p.y[a];
						o << " ) gives " << (w.count(q.first.second) && q.first.first == from ? w[q.first.second] : 0.);
						why = o.str();
						break;
					}
				if (why == "")
					break;
			}
			CHECK(why == "", why);
		}
	}
	(void) n_dofs;
	if (!lost && !doubtful)
		CHECK(k.op->getBoundaryHandler().n_hits() == hits,
				"number of wall hits is " << k.op->getBoundaryHandler().n_hits() << ", paths hit walls " << hits << " times");
	c.label(walls ? "walls" : "periodic");
	if (lost)
		c.label("trapped");
	if (multi)
		c.label("several cells");
	if (k.s.shape)
		c.label("stretched");
	c.nontrivial = k.s.shape == 3 || walls || multi || k.order > 1 || local;
}
LAW(rows2d, 60, 3000, 8) {
	rows<2>(g, c, false);
}
LAW(rows3d, 40, 1000, 4) {
	rows<3>(g, c, false);
}
LAW(local2d, 16, 800, 4) {
	rows<2>(g, c, true);
}
LAW(local3d, 10, 300, 2) {
	rows<3>(g, c, true);
}

// deformed cells (Q1 mapping): every row interpolates linear functions exactly (affine cells: all polynomials of the order)
template<size_t dim> void deformed(Gen& g, Ctx& c) {
	Case<dim> k;
	gen_case<dim>(g, c, k, dim == 2 ? 50 : 24, true);
	if (k.dt * emax<dim>(*k.st) > k.s.hmin())
		k.dt = 0.9 * k.s.hmin() / emax<dim>(*k.st);
	k.s.shape = 1 + g.draw(2);
	if (k.s.shape == 1) {
		k.s.wall[1] = true;
		k.s.amount = g.real(-0.5, 0.5, 0.3);
		// paths in the slanted x walls are not straight back; keep x periodic
		k.s.wall[0] = false;
		while (k.s.cells(0) < 2)
			k.s.reps[0]++;
	} else {
		// no walls: in bilinear cells the path is followed straight in the unit cell, it meets walls elsewhere
		k.s.amount = g.real(-0.3, 0.3, 0.2);
		for (size_t a = 0; a < dim; a++) {
			k.s.wall[a] = false;
			while (k.s.cells(a) < 2)
				k.s.reps[a]++;
		}
	}
	k.describe(c.desc);
	make(k);
	const Stencil& st = *k.st;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	const double h = k.s.hmin();
	bool curved = false;
	for (auto& pt : points) {
		for (size_t i = 1; i < st.getQ(); i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
			}
			// x of a sheared box is not confined: the trace only needs the walls in the other directions
			Path p = trace<dim>(k.s, x, e, k.dt);
			if (p.doubtful || p.lost)
				continue;
			auto got = row(*k.op, i, pt.first);
			size_t from = p.reversed ? opposite(st, i) : i;
			double sum = 0;
			std::vector<double> y(dim, 0.0);
			std::ostringstream where;
			where << "row of direction " << i << " (";
			for (size_t a = 0; a < dim; a++)
				where << " " << e[a];
			where << " ) at (" << pt.second << ")";
			for (auto& q : got) {
				CHECK(q.first.first == from, where.str() << ": couples to direction " << q.first.first << ", not " << from);
				sum += q.second;
				for (size_t a = 0; a < dim; a++)
					y[a] += q.second * points[q.first.second][a];
			}
			CLOSE(sum, 1., 1e-7, where.str() << ": sum of the weights");
			for (size_t a = 0; a < dim; a++) {
				double d = y[a] - p.y[a];
				if (!k.s.wall[a])
					d -= k.s.len[a] * std::round(d / k.s.len[a]);
				CLOSE(d, 0., (k.s.shape == 1 ? 1e-6 : 1e-4) * h, where.str() << ": the interpolated coordinate " << a << " misses the departure point " << p.y[a]);
			}
			if (k.s.shape == 1 && k.order > 1 && got.size()) {
				// (u - u0)^m along random directions, m <= order
				double d[3];
				for (size_t a = 0; a < dim; a++)
					d[a] = std::cos(1.0 + 2.1 * a + 0.37 * i);
				for (size_t m = 2; m <= k.order; m++) {
					double s = 0;
					for (auto& q : got) {
						double u = 0;
						for (size_t a = 0; a < dim; a++)
							u += d[a] * (points[q.first.second][a] - y[a]) / h;
						s += q.second * std::pow(u, (double) m);
					}
					CLOSE(s, 0., 1e-6 * std::pow(4., (double) m), where.str() << ": polynomial of degree " << m << " is not reproduced");
				}
				curved = true;
			}
		}
	}
	c.label(k.s.shape == 1 ? "sheared" : "bilinear");
	if (curved)
		c.label("polynomials");
	c.nontrivial = k.s.amount != 0;
}
LAW(deformed2d, 16, 900, 4) {
	deformed<2>(g, c);
}
LAW(deformed3d, 12, 300, 2) {
	deformed<3>(g, c);
}

// stream(): one step on arbitrary populations, also after other time steps were set before
template<size_t dim> void stream(Gen& g, Ctx& c) {
	Case<dim> k;
	gen_case<dim>(g, c, k, dim == 2 ? 40 : 16, true);
	k.describe(c.desc);
	int before = g.draw(3);
	double first = k.dt * g.real(0.2, 1.7, 0.5);
	double dt = k.dt;
	if (before)
		k.dt = first;
	make(k);
	k.dt = dt;
	if (before) {
		c.desc << ", time step changed from " << first;
		k.op->setDeltaT(dt);
		k.op->reassemble();
	}
	if (before == 2) {
		c.desc << ", assembled again";
		k.op->reassemble();
	}
	const Stencil& st = *k.st;
	const size_t Q = st.getQ();
	DistributionFunctions f, f_old;
	f.reinit(Q, k.op->getLocallyOwnedDofs(), k.op->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	f_old.reinit(Q, k.op->getLocallyOwnedDofs(), k.op->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	Cells<dim> cells(*k.op);
	std::vector<double> nd = nodes(k.pts, k.order);
	// equal on opposite periodic faces: a function of the point
	uint64_t salt = g.draw(1000000);
	auto value = [&](size_t q, const dealii::Point<dim>& p) {
		uint64_t hsh = salt * 1000003ull + q;
		for (size_t a = 0; a < dim; a++) {
			double r = (p[a] - k.s.lo[a]) / k.s.len[a];
			long v = std::lround(r * 1e7);
			if (!k.s.wall[a] && v == 10000000)
				v = 0;
			hsh = hsh * 6364136223846793005ull + (uint64_t) v;
		}
		return (double) (pbt::splitmix(hsh) >> 11) / 9007199254740992.0 - 0.3;
	};
	std::vector<std::vector<double>> v(Q, std::vector<double>(cells.points.size()));
	for (auto& pt : cells.points)
		for (size_t q = 0; q < Q; q++)
			f.at(q)(pt.first) = v[q][pt.first] = value(q, pt.second);
	f.compress(dealii::VectorOperation::insert);
	f.updateGhosted();
	double ret = k.op->stream(f_old, f, g.real(0, 10, 0.0));
	CLOSE(ret, dt, 0., "the time step which stream() returns");
	CLOSE(k.op->getDeltaT(), dt, 0., "time step");
	for (auto& pt : cells.points) {
		CLOSE(f.at(0)(pt.first), v[0][pt.first], 0., "the resting population changed");
		for (size_t q = 0; q < Q; q++)
			CLOSE(f_old.at(q)(pt.first), v[q][pt.first], 0., "the populations before streaming, direction " << q);
		for (size_t i = 1; i < Q; i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
			}
			Path p = trace<dim>(k.s, x, e, dt);
			if (p.doubtful)
				continue;
			size_t from = p.reversed ? opposite(st, i) : i;
			double want = 0;
			if (p.lost)
				want = v[i][pt.first];
			else {
				auto in = candidates<dim>(k.s, cells, p.y);
				CHECK(in.size(), "internal: no cell");
				for (auto& q : cells.weights(in[0].first, nd, in[0].second))
					want += q.second * v[from][q.first];
			}
			CLOSE(f.at(i)(pt.first), want, 1e-7, "direction " << i << " at (" << pt.second << ")");
		}
	}
	c.label(before == 0 ? "first" : before == 1 ? "changed dt" : "assembled again");
	c.nontrivial = true;
}
LAW(stream2d, 64, 2000, 2) {
	stream<2>(g, c);
}
LAW(stream3d, 24, 600, 2) {
	stream<3>(g, c);
}

// steps that fit the nodes move the populations without any change; after the period of the box they are back
LAW(lattice, 40, 2000, 2) {
	const size_t dim = 2;
	BoxSpec<dim> s;
	s.refine = g.draw(2);
	double h = g.logreal(0.1, 2, 1.0);
	s.reps[0] = 2 + g.draw(3);
	s.reps[1] = 2 + g.draw(3);
	for (size_t a = 0; a < dim; a++) {
		s.wall[a] = false;
		s.lo[a] = g.real(-2, 2, 0.0);
		s.len[a] = h * s.reps[a];
	}
	double scaling = g.logreal(0.2, 5, 1.0);
	StencilP st = boost::make_shared<D2Q9>(scaling);
	size_t order = 1 + g.draw(4);
	size_t steps = 1 + g.draw(12);
	double node = s.h(0) / order;
	double dt = node / scaling * (1 + g.draw(2));
	size_t per_step = std::lround(dt * scaling / node);
	c.desc << "D2Q9 scaling " << scaling << " order " << order << " equidistant, " << steps << " steps of " << dt << " (" << per_step << " nodes), ";
	s.print(c.desc);
	BoxProblem<dim> pb(s);
	pb.refineAndTransform();
	SemiLagrangian<dim> op(pb, order, QGAUSS_LOBATTO, EQUIDISTANT_POINTS, st, dt);
	op.setupDoFs();
	op.setDeltaT(dt);
	op.reassemble();
	DistributionFunctions f, f_old;
	f.reinit(9, op.getLocallyOwnedDofs(), op.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	f_old.reinit(9, op.getLocallyOwnedDofs(), op.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	op.mapDoFsToSupportPoints(points);
	long N[2] = { (long) (s.cells(0) * order), (long) (s.cells(1) * order) };
	std::vector<std::vector<double>> lat(9, std::vector<double>(N[0] * N[1]));
	uint64_t rng = g.draw(1000000);
	for (auto& l : lat)
		for (auto& x : l)
			x = (double) (pbt::splitmix(rng) >> 11) / 9007199254740992.0;
	auto at = [&](const dealii::Point<dim>& p, long sx, long sy) {
		long i = std::lround((p[0] - s.lo[0]) / node) - sx, j = std::lround((p[1] - s.lo[1]) / node) - sy;
		return ((i % N[0] + N[0]) % N[0]) * N[1] + ((j % N[1] + N[1]) % N[1]);
	};
	for (auto& pt : points)
		for (size_t q = 0; q < 9; q++)
			f.at(q)(pt.first) = lat[q][at(pt.second, 0, 0)];
	f.compress(dealii::VectorOperation::insert);
	f.updateGhosted();
	for (size_t n = 0; n < steps; n++)
		op.stream(f_old, f, n * dt);
	for (auto& pt : points)
		for (size_t q = 0; q < 9; q++) {
			long ex = std::lround(st->getDirection(q)(0) / scaling) * (long) (per_step * steps);
			long ey = std::lround(st->getDirection(q)(1) / scaling) * (long) (per_step * steps);
			CLOSE(f.at(q)(pt.first), lat[q][at(pt.second, ex, ey)], 1e-6 * steps, "direction " << q << " at (" << pt.second << ")");
		}
	c.nontrivial = true;
}

HARNESS_MAIN
