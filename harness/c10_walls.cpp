// C10: boundary conditions of semi-Lagrangian streaming.
#include "sl.h"
#include "collision.h"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/ThermalBounceBack.h"
using namespace sl;

// velocity of a wall: linear in space and time
template<size_t dim> struct WallU: public dealii::Function<dim> {
	double a[3], bx[3][3], bt[3];
	WallU() :
			dealii::Function<dim>(dim) {
	}
	double at(size_t i, const double* x, double t) const {
		double r = a[i] + bt[i] * t;
		for (size_t k = 0; k < dim; k++)
			r += bx[i][k] * x[k];
		return r;
	}
	double value(const dealii::Point<dim>& p, const unsigned int i = 0) const override {
		double x[3];
		for (size_t k = 0; k < dim; k++)
			x[k] = p[k];
		return at(i, x, this->get_time());
	}
	void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const override {
		for (size_t i = 0; i < dim; i++)
			v(i) = value(p, i);
	}
};

// a boundary of the user's own: bounces back and writes down what it is told
struct Seen {
	std::vector<double> p, rho_u;
	double eps, t, rho, drhodt, f1;
	size_t direction, index, wall;
};
static std::vector<Seen> g_seen;
template<size_t dim> class Recorder: public Boundary<dim> {
public:
	Recorder(size_t id) :
			Boundary<dim>(id, NONCONSTANT_VELOCITY_NEQ_BB, PrescribedBoundaryValues<dim>(dealii::Tensor<1, dim>())) {
	}
	bool isPeriodic() const override {
		return false;
	}
	bool isDGSupported() const override {
		return false;
	}
	bool isSLSupported() const override {
		return true;
	}
	BoundaryFlags getUpdateFlags() const override {
		return boundary_rho | boundary_u | boundary_drho_dt;
	}
	void calculateBoundaryValues(FEBoundaryValues<dim>& v, size_t q, const LagrangianPathDestination& d, double eps,
			double t) override {
		Seen s;
		for (size_t a = 0; a < dim; a++) {
			s.p.push_back(v.getPoint(q)[a]);
			s.rho_u.push_back(v.getRhoU()[a]);
		}
		s.eps = eps;
		s.t = t;
		s.rho = v.getRho();
		s.drhodt = v.getDrhodt();
		s.f1 = v.getDistribution(1, q);
		s.direction = d.direction;
		s.index = d.index;
		s.wall = this->getBoundaryIndicator();
		g_seen.push_back(s);
	}
};

enum Kind {
	FIXED, MOVING, RECORD, INLET, FIRST_ORDER, OUTLET, THERMAL
};
template<size_t dim> struct Case {
	BoxSpec<dim> s;
	StencilP st;
	double scaling, dt, t;
	size_t order;
	SupportPointsName pts;
	std::string stn, ptn;
	std::vector<Kind> kind;                       // of each wall
	std::vector<boost::shared_ptr<WallU<dim> > > u;
	std::vector<double> temperature;
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<SemiLagrangian<dim> > op;
	DistributionFunctions f, f_old;
};

/// box with at least one wall axis
template<size_t dim> void gen_case(Gen& g, Ctx& c, Case<dim>& k, size_t cells, double max_cfl, const std::vector<Kind>& kinds, bool local) {
	k.s = gen_box<dim>(g, cells, true);
	size_t ax = g.draw(dim);
	k.s.wall[ax] = true;
	k.order = 1 + g.draw(dim == 2 ? 4 : 2);
	k.pts = gen_points(g, k.ptn);
	double cfl = g.draw(3) ? g.real(0.02, max_cfl, 0.5) : g.logreal(1e-3, 0.5, 0.1);
	k.dt = cfl * k.s.hmin() / emax<dim>(*k.st);
	k.t = g.real(-5, 5, 0.0);
	k.kind.assign(2 * dim, FIXED);
	k.u.resize(2 * dim);
	k.temperature.assign(2 * dim, 1.0);
	const double cs = std::sqrt(k.st->getSpeedOfSoundSquare());
	for (size_t w = 0; w < 2 * dim; w++) {
		if (!k.s.wall[w / 2])
			continue;
		k.kind[w] = kinds[g.draw(kinds.size())];
		k.u[w] = boost::make_shared<WallU<dim> >();
		bool varies = k.kind[w] == MOVING || k.kind[w] == THERMAL;
		double T = k.dt * 20 + 5;
		for (size_t i = 0; i < dim; i++) {
			k.u[w]->a[i] = k.kind[w] == FIXED ? 0 : cs * g.real(-0.3, 0.3, 0.1);
			k.u[w]->bt[i] = varies ? cs * g.real(-0.2, 0.2, 0.0) / k.dt : 0;
			for (size_t j = 0; j < dim; j++)
				k.u[w]->bx[i][j] = varies && k.s.wall[j] ? cs * g.real(-0.2, 0.2, 0.0) / k.s.len[j] : 0;
		}
		(void) T;
		k.temperature[w] = k.kind[w] == INLET || k.kind[w] == THERMAL ? g.real(0.7, 1.4, 1.1) : 1.0;
	}
	if (local)
		for (size_t n = 1 + g.draw(3); n > 0; n--) {
			std::array<double, dim> p;
			for (size_t a = 0; a < dim; a++) {
				if (!k.s.wall[a]) {
					while (k.s.cells(a) < 3)
						k.s.reps[a]++;
					p[a] = (1 + g.draw(k.s.cells(a) - 2) + 0.5) / k.s.cells(a);
				} else
					p[a] = (g.draw(k.s.cells(a)) + 0.5) / k.s.cells(a);
			}
			k.s.local.push_back(p);
		}
	c.desc << k.stn << " scaling " << k.scaling << " order " << k.order << " " << k.ptn << " points, dt " << k.dt << " (CFL " << cfl << " cells), t "
			<< k.t << ", walls";
	const char* names[] = { "fixed", "moving", "user-defined", "equilibrium", "first-order", "outlet", "thermal" };
	for (size_t w = 0; w < 2 * dim; w++)
		if (k.u[w]) {
			c.desc << " " << w << ":" << names[k.kind[w]];
			c.label(names[k.kind[w]]);
		}
	c.desc << ", ";
	k.s.print(c.desc);
}
template<size_t dim> void make(Case<dim>& k) {
	k.s.boundary = [&](size_t w) -> boost::shared_ptr<Boundary<dim> > {
		dealii::Tensor<1, dim> u;
		dealii::Vector<double> uv(dim);
		for (size_t i = 0; i < dim; i++)
			u[i] = uv(i) = k.u[w]->a[i];
		switch (k.kind[w]) {
		case MOVING:
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(k.u[w]));
		case RECORD:
			return boost::make_shared<Recorder<dim> >(w);
		case INLET:
			if (k.temperature[w] == 1.1) return boost::make_shared<SLEquilibriumBoundary<dim> >(w, u, k.temperature[w]);
			return boost::make_shared<SLEquilibriumBoundary<dim> >(w, uv, k.temperature[w]);
		case FIRST_ORDER:
			return boost::make_shared<SLFirstOrderBounceBack<dim> >(w);
		case OUTLET:
			return boost::make_shared<DoNothingBoundary<dim> >(w);
		case THERMAL:
			return boost::make_shared<ThermalBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(k.u[w]), k.temperature[w]);
		default:
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, u);
		}
	};
	k.pb = boost::make_shared<BoxProblem<dim> >(k.s);
	k.pb->refineAndTransform();
	k.op = boost::make_shared<SemiLagrangian<dim> >(*k.pb, k.order, QGAUSS_LOBATTO, k.pts, k.st, k.dt);
	k.op->setupDoFs();
	k.op->setDeltaT(k.dt);
	k.op->reassemble();
	for (DistributionFunctions* f : { &k.f, &k.f_old })
		f->reinit(k.st->getQ(), k.op->getLocallyOwnedDofs(), k.op->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
}
template<size_t dim> void finish(Case<dim>& k) {
	k.f.compress(dealii::VectorOperation::insert);
	k.f.updateGhosted();
}
template<size_t dim> void random_f(Case<dim>& k, uint64_t rng) {
	for (size_t q = 0; q < k.st->getQ(); q++)
		for (size_t i = 0; i < k.op->getDoFHandler()->n_dofs(); i++)
			k.f.at(q)(i) = k.st->getWeight(q) * (0.5 + (double) (pbt::splitmix(rng) >> 11) / 9007199254740992.0);
	finish(k);
}
/// the product of the matrix with f, column by column of every row
template<size_t dim> double product(const Case<dim>& k, const DistributionFunctions& f, size_t alpha, size_t dof) {
	double r = 0;
	for (auto& e : row(*k.op, alpha, dof))
		r += e.second * f.at(e.first.first)(e.first.second);
	return r;
}
template<class P> std::string at(const P& p, const Stencil& st, size_t i) {
	const size_t dim = st.getD();
	std::ostringstream o;
	o << "direction " << i << " (";
	for (size_t a = 0; a < dim; a++)
		o << " " << st.getDirection(i)(a);
	o << " ) at (" << p << ")";
	return o.str();
}

// walls at rest, moving walls: the bounced population gains 2 w e.u/cs^2, u at the place and time of the hit
template<size_t dim> void moving(Gen& g, Ctx& c, bool local) {
	Case<dim> k;
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 45, k.scaling, k.stn);
	gen_case<dim>(g, c, k, dim == 2 ? 30 : 12, 2.5, { MOVING, MOVING, FIXED }, local);
	make(k);
	uint64_t salt = g.draw(1000000);
	random_f(k, salt);
	const Stencil& st = *k.st;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	size_t steps = 1 + g.draw(2);
	bool any = false;
	for (size_t n = 0; n < steps; n++) {
		double t = k.t + n * k.dt * 0.37;
		k.op->stream(k.f_old, k.f, t);
		k.f_old.updateGhosted();
		for (auto& pt : points)
			for (size_t i = 1; i < st.getQ(); i++) {
				double x[3], e[3];
				for (size_t a = 0; a < dim; a++) {
					x[a] = pt.second[a];
					e[a] = st.getDirection(i)(a);
				}
				Path p = trace<dim>(k.s, x, e, k.dt);
				if (p.doubtful)
					continue;
				double want = product(k, k.f_old, i, pt.first), scale = std::fabs(want);
				if (!p.lost)
					for (size_t h = 0; h < p.hits.size(); h++) {
						double eu = 0;
						for (size_t a = 0; a < dim; a++)
							eu += e[a] * k.u[p.hit_wall[h]]->at(a, p.hits[h].first.data(), t - p.hits[h].second);
						// particles which are reflected again leave the earlier wall in the opposite direction
						double add = (h % 2 ? -2 : 2) * st.getWeight(i) * eu / st.getSpeedOfSoundSquare();
						want += add;
						scale += std::fabs(add);
						if (p.hits.size() == 1 || p.hit_wall.size() > 1)
							any = true;
					}
				// two walls are reached at the same time in edges: either may count as hit
				bool edge = false;
				for (size_t h = 0; h + 1 < p.hits.size(); h++)
					if (std::fabs(p.hits[h].second - p.hits[h + 1].second) < 1e-9 * k.dt && p.hit_wall[h] != p.hit_wall[h + 1])
						edge = true;
				for (auto& h : p.hits) {
					int on = 0;
					for (size_t a = 0; a < dim; a++)
						if (k.s.wall[a] && std::min(std::fabs(h.first[a] - k.s.lo[a]), std::fabs(h.first[a] - k.s.lo[a] - k.s.len[a])) < 1e-8 * k.s.len[a])
							on++;
					if (on > 1)
						edge = true;
				}
				if (edge && !p.lost)
					continue;
				CLOSE(k.f.at(i)(pt.first), want, 1e-7 * scale + 1e-13, at(pt.second, st, i) << ", " << p.hits.size() << " wall hits" << (p.lost ? " (trapped in a corner)" : ""));
			}
	}
	c.nontrivial = any;
}
LAW(moving2d, 60, 3000, 6) {
	moving<2>(g, c, false);
}
LAW(moving3d, 24, 800, 3) {
	moving<3>(g, c, false);
}
LAW(moving_local, 16, 800, 2) {
	if (g.chance(25))
		moving<3>(g, c, true);
	else
		moving<2>(g, c, true);
}

// a user-defined boundary is told of every hit: once, with place, time, destination and the flow field there
template<size_t dim> void record(Gen& g, Ctx& c) {
	Case<dim> k;
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 27, k.scaling, k.stn);
	gen_case<dim>(g, c, k, dim == 2 ? 24 : 8, 1.7, { RECORD }, g.chance(25));
	for (size_t a = 0; a < dim; a++)
		k.s.wall[a] = k.s.wall[a] || g.chance(50);
	for (size_t w = 0; w < 2 * dim; w++)
		if (k.s.wall[w / 2]) {
			k.kind[w] = RECORD;
			if (!k.u[w])
				k.u[w] = boost::make_shared<WallU<dim> >();
			for (size_t i = 0; i < dim; i++)
				k.u[w]->a[i] = 0;
		}
	make(k);
	const Stencil& st = *k.st;
	const size_t Q = st.getQ();
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	// populations: polynomials of the order of the elements along random directions
	std::vector<std::array<double, 6>> co(Q);
	for (auto& q : co)
		for (auto& v : q)
			v = g.real(-1, 1, 0.5);
	auto poly = [&](size_t q, const double* x, double* grad) {
		double z = 0, d[3];
		for (size_t a = 0; a < dim; a++) {
			d[a] = co[q][a] / k.s.len[a];
			z += d[a] * (x[a] - k.s.lo[a]);
		}
		double w = st.getWeight(q);
		double r = 2 + co[q][3] * z, dr = co[q][3];
		if (k.order > 1) {
			r += co[q][4] * std::pow(z, (double) k.order);
			dr += co[q][4] * k.order * std::pow(z, k.order - 1.);
		}
		if (grad)
			for (size_t a = 0; a < dim; a++)
				grad[a] = w * dr * d[a];
		return w * r;
	};
	for (auto& pt : points) {
		double x[3];
		for (size_t a = 0; a < dim; a++)
			x[a] = pt.second[a];
		for (size_t q = 0; q < Q; q++)
			k.f.at(q)(pt.first) = poly(q, x, nullptr);
	}
	finish(k);
	g_seen.clear();
	k.op->stream(k.f_old, k.f, k.t);
	bool unsure = false;
	std::map<std::pair<size_t, size_t>, std::vector<std::pair<std::vector<double>, double>>> want;
	size_t n = 0;
	for (auto& pt : points)
		for (size_t i = 1; i < Q; i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
			}
			Path p = trace<dim>(k.s, x, e, k.dt);
			if (p.doubtful)
				unsure = true;
			if (p.doubtful || p.lost)
				continue;
			if (p.hits.size())
				want[std::make_pair(i, (size_t) pt.first)] = p.hits;
			n += p.hits.size();
		}
	if (unsure)
		return;
	CHECK(g_seen.size() == n, "the boundary was called for " << g_seen.size() << " hits, paths hit walls " << n << " times");
	for (auto& s : g_seen) {
		auto it = want.find(std::make_pair(s.direction, s.index));
		CHECK(it != want.end(), "hit reported for " << at(points[s.index], st, s.direction) << ", whose path meets no wall");
		size_t best = 99;
		for (size_t h = 0; h < it->second.size(); h++) {
			bool same = std::fabs(it->second[h].second - s.eps) < 1e-7 * k.dt;
			for (size_t a = 0; a < dim; a++)
			{
				double d = it->second[h].first[a] - s.p[a];
				if (!k.s.wall[a])
					d -= k.s.len[a] * std::round(d / k.s.len[a]);
				if (std::fabs(d) > 1e-7 * k.s.len[a])
					same = false;
			}
			if (same)
				best = h;
		}
		std::ostringstream o;
		o << "hit reported for " << at(points[s.index], st, s.direction) << ": point";
		for (double v : s.p)
			o << " " << v;
		o << ", " << s.eps << " before the arrival; expected";
		for (auto& h : it->second) {
			o << " (";
			for (double v : h.first)
				o << " " << v;
			o << " ; " << h.second << ")";
		}
		CHECK(best != 99, o.str());
		std::vector<double> x = s.p;
		it->second.erase(it->second.begin() + best);
		CLOSE(s.t, k.t, 0., "time told to the boundary");
		bool on = false;
		size_t a = s.wall / 2;
		on = std::fabs(x[a] - (k.s.lo[a] + (s.wall % 2) * k.s.len[a])) < 1e-8 * k.s.len[a];
		CHECK(on, "a hit at (" << x[0] << " " << x[1] << " ...) was given to the boundary " << s.wall);
		double rho = 0, rate = 0, mass = 0, ru[3] = { 0, 0, 0 }, rscale = 0;
		for (size_t q = 0; q < Q; q++) {
			double gr[3], v = poly(q, x.data(), gr);
			rho += v;
			mass += std::fabs(v);
			for (size_t b = 0; b < dim; b++) {
				ru[b] += v * st.getDirection(q)(b);
				rate -= gr[b] * st.getDirection(q)(b);
				rscale += std::fabs(v * st.getDirection(q)(b)) / k.s.h(b);
			}
		}
		CLOSE(s.rho, rho, 1e-8 * mass, "density at the hit point");
		CLOSE(s.f1, poly(1, x.data(), nullptr), 1e-8 * mass, "population 1 at the hit point");
		for (size_t b = 0; b < dim; b++)
			CLOSE(s.rho_u[b], ru[b], 1e-8 * mass * emax<dim>(st), "momentum " << b << " at the hit point");
		CLOSE(s.drhodt, rate, 1e-6 * rscale, "time derivative of the density at the hit point");
	}
	c.nontrivial = n > 0;
}
// walls which move with the fluid do not change a uniform flow, however often the paths are reflected (and in corners)
template<size_t dim> void uniform(Gen& g, Ctx& c) {
	Case<dim> k;
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 45, k.scaling, k.stn);
	gen_case<dim>(g, c, k, dim == 2 ? 30 : 12, g.chance(50) ? 1.0 : 5.0, { MOVING }, g.chance(20));
	const double cs2 = k.st->getSpeedOfSoundSquare(), cs = std::sqrt(cs2);
	double u0[3];
	for (size_t a = 0; a < dim; a++)
		u0[a] = cs * g.real(-0.3, 0.3, 0.1);
	for (auto& u : k.u)
		if (u)
			for (size_t a = 0; a < dim; a++) {
				u->a[a] = u0[a];
				u->bt[a] = 0;
				for (size_t b = 0; b < dim; b++)
					u->bx[a][b] = 0;
			}
	make(k);
	const Stencil& st = *k.st;
	std::vector<double> want;
	for (size_t q = 0; q < st.getQ(); q++) {
		double eu = 0;
		for (size_t a = 0; a < dim; a++)
			eu += st.getDirection(q)(a) * u0[a];
		want.push_back(st.getWeight(q) * (1 + eu / cs2 + 0.5 * eu * eu / cs2 / cs2));
		for (size_t i = 0; i < k.op->getDoFHandler()->n_dofs(); i++)
			k.f.at(q)(i) = want.back();
	}
	finish(k);
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	for (int n = 0; n < 2; n++) {
		k.op->stream(k.f_old, k.f, k.t + n * k.dt);
		k.f_old.updateGhosted();
		for (auto& pt : points)
			for (size_t i = 0; i < st.getQ(); i++)
				CLOSE(k.f.at(i)(pt.first), want[i], 1e-7, at(pt.second, st, i) << " of a uniform flow with the walls, step " << n);
	}
	c.nontrivial = k.op->getBoundaryHandler().n_hits() > 0;
}
LAW(uniform2d, 40, 1500, 3) {
	uniform<2>(g, c);
}
LAW(uniform3d, 12, 500, 2) {
	uniform<3>(g, c);
}

LAW(userdefined2d, 30, 1500, 3) {
	record<2>(g, c);
}
LAW(userdefined3d, 8, 300, 2) {
	record<3>(g, c);
}

// inlets: what comes from the wall is the equilibrium of the prescribed state, in the second population set too
template<size_t dim> void equilibrium(Gen& g, Ctx& c) {
	Case<dim> k;
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 45, k.scaling, k.stn);
	gen_case<dim>(g, c, k, dim == 2 ? 30 : 12, 1.5, { INLET, INLET, FIXED }, false);
	make(k);
	random_f(k, g.draw(1000000));
	const Stencil& st = *k.st;
	const double cs2 = st.getSpeedOfSoundSquare();
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	DistributionFunctions gd(k.f);
	k.op->stream(k.f_old, k.f, k.t);
	const double gamma = g.real(1.1, 1.9, 1.4);
	k.op->applyBoundaryConditionsToG(k.f, gd, k.t, gamma);
	size_t n = 0;
	for (auto& pt : points)
		for (size_t i = 1; i < st.getQ(); i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
			}
			Path p = trace<dim>(k.s, x, e, k.dt);
			if (p.doubtful || p.lost || p.hits.size() == 0)
				continue;
			bool single = true;
			for (auto& h : p.hits) {
				int on = 0;
				for (size_t a = 0; a < dim; a++)
					if (k.s.wall[a] && std::min(std::fabs(h.first[a] - k.s.lo[a]), std::fabs(h.first[a] - k.s.lo[a] - k.s.len[a])) < 1e-8 * k.s.len[a])
						on++;
				if (on > 1)
					single = false;
			}
			size_t w = p.hit_wall[0];
			if (!single || k.kind[w] != INLET)
				continue;
			// Hermite expansion up to fourth order: rho = 1, u, T
			double u[3], feq = 1, ee = 0;
			for (size_t a = 0; a < dim; a++) {
				u[a] = k.u[w]->a[a] / std::sqrt(cs2);
				ee += e[a] * e[a];
			}
			double th = k.temperature[w] - 1, xi[3];
			for (size_t a = 0; a < dim; a++)
				xi[a] = e[a] / std::sqrt(cs2);
			double fac = 1;
			for (int nn = 1; nn <= 4; nn++) {
				fac *= nn;
				size_t total = 1;
				for (int m = 0; m < nn; m++)
					total *= dim;
				double s = 0;
				for (size_t code = 0; code < total; code++) {
					size_t idx[4], cc = code;
					for (int m = 0; m < nn; m++) {
						idx[m] = cc % dim;
						cc /= dim;
					}
					// moments of the Maxwellian minus those of the reference: sums over pairings
					auto tensor = [&](const double* v, double pairing) {
						// prod v + pairing * sum over pairs delta * prod of the rest + pairing^2 * double pairs
						double r = 1;
						for (int m = 0; m < nn; m++)
							r *= v[idx[m]];
						for (int p1 = 0; p1 < nn; p1++)
							for (int p2 = p1 + 1; p2 < nn; p2++)
								if (idx[p1] == idx[p2]) {
									double z = pairing;
									for (int m = 0; m < nn; m++)
										if (m != p1 && m != p2)
											z *= v[idx[m]];
									r += z;
								}
						if (nn == 4)
							r += pairing * pairing * ((idx[0] == idx[1]) * (idx[2] == idx[3]) + (idx[0] == idx[2]) * (idx[1] == idx[3])
											+ (idx[0] == idx[3]) * (idx[1] == idx[2]));
						return r;
					};
					s += tensor(u, th) * tensor(xi, -1);
				}
				feq += s / fac;
			}
			feq *= st.getWeight(i);
			CLOSE(k.f.at(i)(pt.first), feq, 1e-9 * st.getWeight(i) * std::pow(1 + ee / cs2, 2.),
					at(pt.second, st, i) << " comes from the inlet " << w << " with temperature " << k.temperature[w]);
			double geq = feq * k.temperature[w] * (2 / (gamma - 1) - dim);
			CLOSE(gd.at(i)(pt.first), geq, 1e-8 * st.getWeight(i) * std::pow(1 + ee / cs2, 2.) / (gamma - 1),
					at(pt.second, st, i) << " comes from the inlet " << w << " with temperature " << k.temperature[w] << ", second population set, gamma " << gamma);
			n++;
		}
	c.nontrivial = n > 0;
}
LAW(equilibrium2d, 40, 1500, 3) {
	equilibrium<2>(g, c);
}
LAW(equilibrium3d, 16, 500, 2) {
	equilibrium<3>(g, c);
}

// first-order bounce-back and outlets
template<size_t dim> void simple(Gen& g, Ctx& c) {
	Case<dim> k;
	k.st = gen_stencil(g, dim, dim == 2 ? 25 : 45, k.scaling, k.stn);
	gen_case<dim>(g, c, k, dim == 2 ? 30 : 12, 0.98, { FIRST_ORDER, OUTLET, OUTLET, FIXED }, false);
	// wide enough that a step beyond the outlet, mirrored, stays inside
	for (size_t a = 0; a < dim; a++)
		if (k.s.wall[a]) {
			double h = k.s.h(a);
			while (k.s.cells(a) < 3)
				k.s.reps[a]++;
			k.s.len[a] = h * k.s.cells(a);
		}
	make(k);
	// equal on opposite periodic faces
	uint64_t salt = g.draw(1000000);
	const Stencil& st = *k.st;
	Cells<dim> cells(*k.op);
	for (auto& pt : cells.points)
		for (size_t q = 0; q < st.getQ(); q++) {
			uint64_t h = salt * 1000003ull + q;
			for (size_t a = 0; a < dim; a++) {
				long v = std::lround((pt.second[a] - k.s.lo[a]) / k.s.len[a] * 1e7);
				if (!k.s.wall[a] && v == 10000000)
					v = 0;
				h = h * 6364136223846793005ull + (uint64_t) v;
			}
			k.f.at(q)(pt.first) = st.getWeight(q) * (0.5 + (double) (pbt::splitmix(h) >> 11) / 9007199254740992.0);
		}
	finish(k);
	std::vector<double> nd = nodes(k.pts, k.order);
	k.op->stream(k.f_old, k.f, k.t);
	k.f_old.updateGhosted();
	size_t n = 0;
	for (auto& pt : cells.points)
		for (size_t i = 1; i < st.getQ(); i++) {
			double x[3], e[3], back[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
				back[a] = -e[a];
			}
			Path p = trace<dim>(k.s, x, e, k.dt), b = trace<dim>(k.s, x, back, k.dt);
			if (p.doubtful || b.doubtful || p.lost || p.hits.size() != 1 || b.hits.size())
				continue;
			int on = 0;
			for (size_t a = 0; a < dim; a++)
				if (k.s.wall[a] && std::min(std::fabs(p.hits[0].first[a] - k.s.lo[a]), std::fabs(p.hits[0].first[a] - k.s.lo[a] - k.s.len[a])) < 1e-8 * k.s.len[a])
					on++;
			if (on > 1)
				continue;
			Kind kind = k.kind[p.hit_wall[0]];
			size_t o = opposite(st, i);
			if (kind == FIRST_ORDER) {
				CLOSE(k.f.at(i)(pt.first), k.f.at(o)(pt.first), 1e-13, at(pt.second, st, i) << ": first-order bounce-back does not return the opposite population");
				n++;
			} else if (kind == OUTLET) {
				auto in = candidates<dim>(k.s, cells, b.y);
				CHECK(in.size(), "internal: no cell");
				double want = 0;
				for (auto& q : cells.weights(in[0].first, nd, in[0].second))
					want += q.second * k.f_old.at(i)(q.first);
				CLOSE(k.f.at(i)(pt.first), want, 1e-7, at(pt.second, st, i) << ": the outlet does not take the population from one step further inside");
				n++;
			}
		}
	c.nontrivial = n > 0;
}
LAW(simple2d, 40, 1500, 3) {
	simple<2>(g, c);
}
LAW(simple3d, 12, 400, 2) {
	simple<3>(g, c);
}

// walls of given temperature (D3Q45, heat capacity ratio 1.4)
LAW(thermal, 10, 300, 2) {
	const size_t dim = 3;
	Case<dim> k;
	k.scaling = g.chance(50) ? g.logreal(0.2, 5, 1.0) : 1.0;
	k.stn = "D3Q45";
	k.st = boost::make_shared<D3Q45>(k.scaling);
	gen_case<dim>(g, c, k, 8, 0.9, { THERMAL }, false);
	make(k);
	const Stencil& st = *k.st;
	const size_t Q = 45;
	const double cs2 = st.getSpeedOfSoundSquare(), gamma = 1.4, cv = 1 / (gamma - 1);
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	// uniform Maxwellian with gradients and a non-equilibrium part without density, momentum and energy
	DistributionFunctions gd(k.f);
	coll::Setup cs;
	cs.st = k.st;
	double grad = g.real(-0.05, 0.05, 0.02), neq = g.real(-0.02, 0.02, 0.01);
	double T0 = g.real(0.8, 1.3, 1.0);
	coll::V u0(3);
	for (auto& v : u0)
		v = g.real(-0.1, 0.1, 0.05);
	for (auto& pt : points) {
		double r = 0;
		for (size_t a = 0; a < dim; a++)
			r += std::sin(2 * M_PI * (pt.second[a] - k.s.lo[a]) / k.s.len[a] + a);
		// rho, u, T with small variations, written as Hermite series of second order
		double rho = 1 + grad * r, T = T0 * (1 + 0.5 * grad * r);
		for (size_t q = 0; q < Q; q++) {
			double eu = 0, uu = 0, ee = 0;
			for (size_t a = 0; a < dim; a++) {
				double xi = st.getDirection(q)(a) / std::sqrt(cs2);
				eu += xi * u0[a];
				uu += u0[a] * u0[a];
				ee += xi * xi;
			}
			double xy = st.getDirection(q)(0) * st.getDirection(q)(1) / cs2;
			double w = st.getWeight(q);
			double feq = w * rho * (1 + eu + 0.5 * (eu * eu - uu) + 0.5 * (T - 1) * (ee - 3));
			k.f.at(q)(pt.first) = feq + w * neq * xy;
			gd.at(q)(pt.first) = feq * T * (2 * cv - 3);
		}
	}
	finish(k);
	gd.compress(dealii::VectorOperation::insert);
	gd.updateGhosted();
	DistributionFunctions f_old(k.f), g_old(gd);
	k.op->getSystemMatrix().vmult(k.f.getFStream(), f_old.getFStream());
	k.op->getSystemMatrix().vmult(gd.getFStream(), g_old.getFStream());
	DistributionFunctions before(k.f), gbefore(gd);
	k.op->applyBoundaryConditions(f_old, k.f, gd, k.t);
	size_t n = 0;
	for (auto& pt : points) {
		bool hit = false, unsure = false;
		double Tw = 0;
		int walls = 0;
		for (size_t i = 1; i < Q; i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = pt.second[a];
				e[a] = st.getDirection(i)(a);
			}
			Path p = trace<dim>(k.s, x, e, k.dt);
			if (p.doubtful)
				unsure = true;
			if (p.lost)
				continue;
			for (auto& h : p.hits) {
				int on = 0;
				for (size_t a = 0; a < dim; a++)
					if (k.s.wall[a] && std::min(std::fabs(h.first[a] - k.s.lo[a]), std::fabs(h.first[a] - k.s.lo[a] - k.s.len[a])) < 1e-8 * k.s.len[a])
						on++;
				if (on > 1)
					walls = 99;   // edges: either wall may act last
			}
			for (size_t w : p.hit_wall) {
				hit = true;
				if (Tw != k.temperature[w])
					walls++;
				Tw = k.temperature[w];
			}
		}
		if (unsure)
			continue;
		double m0[5] = { 0 }, m1[5] = { 0 }, g0 = 0, g1 = 0;
		for (size_t q = 0; q < Q; q++) {
			double b = before.at(q)(pt.first), a = k.f.at(q)(pt.first);
			m0[0] += b;
			m1[0] += a;
			g1 += gd.at(q)(pt.first);
			g0 += gbefore.at(q)(pt.first);
			for (size_t d = 0; d < dim; d++) {
				double xi = st.getDirection(q)(d) / std::sqrt(cs2);
				m0[1 + d] += b * xi;
				m1[1 + d] += a * xi;
				m0[4] += b * xi * xi;
				m1[4] += a * xi * xi;
			}
			if (!hit) {
				CLOSE(a, b, 0., "population " << q << " at (" << pt.second << "), which no path from a wall reaches");
				CLOSE(gd.at(q)(pt.first), gbefore.at(q)(pt.first), 0., "second population " << q << " at (" << pt.second << "), which no path from a wall reaches");
			}
		}
		CLOSE(m1[0], m0[0], 1e-10, "density at (" << pt.second << ") changed by the thermal wall");
		for (size_t d = 0; d < dim; d++)
			CLOSE(m1[1 + d], m0[1 + d], 1e-10, "momentum at (" << pt.second << ") changed by the thermal wall");
		if (walls == 1) {
			// temperatures before and after; the wall's is reached up to the non-equilibrium part of the energy, which g loses
			double uu = 0;
			for (size_t d = 0; d < dim; d++)
				uu += m0[1 + d] * m0[1 + d] / m0[0];
			double tr0 = m0[4] - uu, tr1 = m1[4] - uu;
			double T0 = (tr0 + g0) / (2 * cv * m0[0]), T1 = (tr1 + g1) / (2 * cv * m0[0]);
			double A = std::fabs(tr0 - 3 * m0[0] * T0) / (2 * cv * m0[0]);
			if (std::fabs(T0 - Tw) > 1e-4)
				CLOSE(T1, Tw, A + 1.1e-5, "temperature at the thermal wall, point (" << pt.second << "), before " << T0);
		}
		n += hit;
	}
	c.nontrivial = n > 0;
}

// values that belong to a boundary are kept with it
LAW(prescribed, 60, 2000, 1) {
	double p = g.real(-2, 3, 0.5), T = g.real(0.1, 4, 1.5);
	dealii::Tensor<1, 3> u;
	dealii::Tensor<2, 3> du;
	for (size_t i = 0; i < 3; i++) {
		u[i] = g.real(-1, 1, 0.25);
		for (size_t j = 0; j < 3; j++)
			du[i][j] = g.real(-1, 1, 0.125);
	}
	c.desc << "p " << p << " T " << T << " u " << u;
	dealii::Point<3> x(g.real(-9, 9), g.real(-9, 9), 1);
	PrescribedBoundaryValues<3> orig(p, u, T);
	PrescribedBoundaryValues<3> copy(orig);
	for (PrescribedBoundaryValues<3>* v : { &orig, &copy }) {
		const char* n = v == &orig ? "" : " of the copy";
		CHECK(v->getPressure() && v->getVelocity() && v->getTemperature(), "values" << n << " are missing");
		CLOSE(v->getPressure()->value(x), p, 0., "pressure" << n);
		CLOSE(v->getTemperature()->value(x), T, 0., "temperature" << n);
		for (size_t i = 0; i < 3; i++)
			CLOSE(v->getVelocity()->value(x, i), u[i], 0., "velocity" << n);
		CHECK(v->getPrescribedValues() == boundary_pUT, "flag" << n);
	}
	PrescribedBoundaryValues<3> vel(u), pre(p), gra(du);
	CHECK(vel.getPrescribedValues() == boundary_u && vel.getVelocity() && !vel.getPressure(), "values of a velocity");
	CHECK(pre.getPrescribedValues() == boundary_p && pre.getPressure() && !pre.getVelocity(), "values of a pressure");
	CHECK(gra.getPrescribedValues() == boundary_du_dx && gra.getVelocityGradient(), "values of a gradient");
	CLOSE((gra.getVelocityGradient()->value(x) - du).norm(), 0., 0., "gradient");
	CLOSE(pre.getPressure()->value(x), p, 0., "pressure");
	dealii::Vector<double> v(3);
	vel.getVelocity()->vector_value(x, v);
	for (size_t i = 0; i < 3; i++)
		CLOSE(v(i), u[i], 0., "velocity");
	c.nontrivial = true;
}

HARNESS_MAIN
