// C12: modal filters and the limiter
#include "common.h"
#include "solver.h"
#include "lin.h"
#include "natrium/smoothing/ExponentialFilter.h"
#include "natrium/smoothing/NewFilter.h"
#include "natrium/smoothing/VmultLimiter.h"
#include "natrium/advection/SemiLagrangian.h"
#include "deal.II/fe/fe_dgq.h"
#include "deal.II/fe/fe_q.h"
#include "deal.II/lac/dynamic_sparsity_pattern.h"

namespace {
using lin::L;
/// Legendre polynomial on [0,1]
L legendre(size_t k, L x) {
	L z = 2 * x - 1, a = 1, b = z;
	if (k == 0)
		return a;
	for (size_t i = 1; i < k; i++) {
		L n = ((2 * i + 1) * z * b - i * a) / (i + 1);
		a = b;
		b = n;
	}
	return b;
}
/// values at points of a cell -> coefficients of products of Legendre polynomials
template<size_t dim> struct Modes {
	size_t n;
	std::vector<std::array<size_t, dim> > degree;
	std::vector<std::vector<L> > to, from;
	Modes(size_t p, const std::vector<dealii::Point<dim> >& pts) :
			n(pts.size()), degree(n), to(n, std::vector<L>(n, 0)), from(n, std::vector<L>(n)) {
		for (size_t i = 0; i < n; i++)
			for (size_t a = 0, r = i; a < dim; a++, r /= p + 1)
				degree[i][a] = r % (p + 1);
		for (size_t i = 0; i < n; i++)
			for (size_t j = 0; j < n; j++) {
				from[i][j] = 1;
				for (size_t a = 0; a < dim; a++)
					from[i][j] *= legendre(degree[j][a], pts[i][a]);
			}
		std::vector<std::vector<L> > m = from;
		for (size_t i = 0; i < n; i++)
			to[i][i] = 1;
		for (size_t k = 0; k < n; k++) {
			size_t b = k;
			for (size_t i = k; i < n; i++)
				if (std::fabs(m[i][k]) > std::fabs(m[b][k]))
					b = i;
			std::swap(m[k], m[b]);
			std::swap(to[k], to[b]);
			L q = 1 / m[k][k];
			for (size_t j = 0; j < n; j++)
				m[k][j] *= q, to[k][j] *= q;
			for (size_t i = 0; i < n; i++)
				if (i != k && (q = m[i][k]) != 0)
					for (size_t j = 0; j < n; j++)
						m[i][j] -= q * m[k][j], to[i][j] -= q * to[k][j];
		}
	}
};
struct Par {
	bool exponential = true, sum = false;
	double alpha = 1, s = 1;
	size_t Nc = 1;
	void print(std::ostream& o) const {
		if (exponential)
			o << "exponential filter alpha " << alpha << " s " << s << " Nc " << Nc << (sum ? " by sums" : " by maximum");
		else
			o << "new filter alpha " << alpha << " s " << s;
	}
	/// damping of a mode
	template<size_t dim> L sigma(const std::array<size_t, dim>& d, size_t p) const {
		size_t deg = 0, total = 0;
		for (auto k : d)
			deg = std::max(deg, k), total += k;
		if (!exponential)
			return std::exp(-alpha * std::pow((L) total / (dim * p), (L) s));
		size_t max = sum ? dim * p : p;
		if (sum)
			deg = total;
		if (deg < Nc)
			return 1;
		return std::exp(-alpha * std::pow(((L) deg + 1 - Nc) / ((L) max + 1 - Nc), (L) s));
	}
};
Par gen_par(Gen& g, size_t dim, size_t p) {
	Par r;
	r.exponential = g.chance(70);
	r.sum = g.flag();
	r.alpha = g.logreal(0.01, 36, 1);
	r.s = g.chance(50) ? g.range(1, 32) : g.logreal(0.3, 40, 2);
	r.Nc = 1 + g.draw(r.sum ? dim * p : p);
	return r;
}
/// what the filter does to the values in each cell
template<size_t dim> void oracle(const dealii::DoFHandler<dim>& dh, const Par& q, coll::VV& fs) {
	const auto& fe = dh.get_fe();
	const size_t p = fe.degree, n = fe.dofs_per_cell;
	Modes<dim> m(p, fe.get_unit_support_points());
	std::vector<dealii::types::global_dof_index> dofs(n);
	for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
		cell->get_dof_indices(dofs);
		for (auto& f : fs) {
			std::vector<L> c(n, 0);
			for (size_t i = 0; i < n; i++) {
				for (size_t j = 0; j < n; j++)
					c[i] += m.to[i][j] * f[dofs[j]];
				c[i] *= q.sigma<dim>(m.degree[i], p);
			}
			for (size_t i = 0; i < n; i++) {
				L v = 0;
				for (size_t j = 0; j < n; j++)
					v += m.from[i][j] * c[j];
				f[dofs[i]] = v;
			}
		}
	}
}
template<size_t dim> boost::shared_ptr<Filter<dim> > make_filter(const Par& q, const dealii::Quadrature<dim>& quad, const dealii::FiniteElement<dim>& fe) {
	if (q.exponential)
		return boost::make_shared<ExponentialFilter<dim> >(q.alpha, q.s, q.Nc, q.sum, quad, fe);
	return boost::make_shared<NewFilter<dim> >(q.alpha, q.s, quad, fe);
}
template<size_t dim> void set(Filter<dim>& f, const Par& q) {
	if (q.exponential) {
		auto& e = dynamic_cast<ExponentialFilter<dim>&>(f);
		e.setAlpha(q.alpha);
		e.setS(q.s);
	} else {
		auto& e = dynamic_cast<NewFilter<dim>&>(f);
		e.setAlpha(q.alpha);
		e.setS(q.s);
	}
}

template<size_t dim> void modal(Gen& g, Ctx& c, size_t cells, size_t pmax) {
	BoxSpec<dim> s = gen_box<dim>(g, cells, true);
	if (g.chance(30)) {
		for (size_t a = 0; a < dim; a++)
			s.wall[a] = true;
		std::array<double, dim> x;
		for (size_t a = 0; a < dim; a++)
			x[a] = g.real(0.05, 0.95, 0.3);
		s.local.push_back(x);
	} else if (g.chance(30)) {
		s.shape = 3;
		s.amount = g.real(-0.3, 0.3, 0.3);
	}
	const size_t p = 1 + g.draw(pmax);
	const bool continuous = g.chance(25) && s.shape == 0 && s.local.empty();
	Par q = gen_par(g, dim, p);
	int points = g.draw(3), quadrature = g.draw(3);
	s.print(c.desc);
	c.desc << ", order " << p << (continuous ? " continuous" : "") << ", points " << points << ", quadrature " << quadrature << ", ";
	q.print(c.desc);
	c.key = std::string("modal/") + (q.exponential ? "exponential" : "new") + (continuous ? "/continuous" : "");
	c.label(q.exponential ? q.sum ? "by sums" : "by maximum" : "new");
	c.label(continuous ? "continuous" : "discontinuous");
	BoxProblem<dim> pb(s);
	pb.refineAndTransform();
	dealii::QGaussLobatto<1> gl(p + 1);
	dealii::QGauss<1> ga(p + 1);
	boost::shared_ptr<dealii::FiniteElement<dim> > fe;
	if (continuous)
		fe.reset(new dealii::FE_Q<dim>(gl));
	else if (points == 0)
		fe.reset(new dealii::FE_DGQArbitraryNodes<dim>(gl));
	else if (points == 1)
		fe.reset(new dealii::FE_DGQArbitraryNodes<dim>(ga));
	else
		fe.reset(new dealii::FE_DGQ<dim>(p));
	dealii::QGaussLobatto<dim> q0(p + 1);
	dealii::QGauss<dim> q1(p + 1), q2(p + 2);
	const dealii::Quadrature<dim>& quad = quadrature == 0 ? (const dealii::Quadrature<dim>&) q0 : quadrature == 1 ? q1 : q2;
	dealii::DoFHandler<dim> dh(*pb.getMesh());
	dh.distribute_dofs(*fe);
	const size_t n = dh.n_dofs();
	boost::shared_ptr<Filter<dim> > filter = make_filter<dim>(q, quad, *fe);
	distributed_vector v;
	v.reinit(dh.locally_owned_dofs(), MPI_COMM_WORLD);
	coll::VV f(1, coll::V(n));
	double top = 0;
	std::array<size_t, dim> deg;
	if (continuous) {
		// a polynomial of low degree in a mesh of equal cells belongs to the unfiltered modes
		size_t most = q.exponential ? q.Nc - 1 : 0, left = most;
		for (size_t a = 0; a < dim; a++) {
			deg[a] = std::min<size_t>(p, g.draw((q.exponential && q.sum ? left : most) + 1));
			left -= std::min(left, deg[a]);
		}
		dealii::MappingQ<dim> mp(1);
		std::map<dealii::types::global_dof_index, dealii::Point<dim> > x;
		dealii::DoFTools::map_dofs_to_support_points(mp, dh, x);
		for (size_t i = 0; i < n; i++) {
			f[0][i] = 1.3;
			for (size_t a = 0; a < dim; a++)
				f[0][i] *= std::pow((x[i][a] - s.lo[a]) / s.len[a] + 0.3, (double) deg[a]);
		}
	} else
		for (size_t i = 0; i < n; i++)
			f[0][i] = g.real(-1, 1, i % 3 ? 0.5 : -0.25);
	for (size_t i = 0; i < n; i++) {
		v(i) = f[0][i];
		top = std::max(top, std::fabs(f[0][i]));
	}
	v.compress(dealii::VectorOperation::insert);
	int times = g.range(1, 3);
	for (int t = 0; t < times; t++) {
		if (t && g.flag()) {
			q.alpha = g.logreal(0.01, 36, 1);
			q.s = g.logreal(0.3, 40, 2);
			set<dim>(*filter, q);
			c.desc << "; then alpha " << q.alpha << " s " << q.s;
		}
		filter->applyFilter(dh, v);
		if (!continuous)
			oracle<dim>(dh, q, f);
		for (size_t i = 0; i < n; i++)
			CLOSE(v(i), f[0][i], 1e-9 * top, "value " << i << " after application " << t + 1);
	}
	c.nontrivial = p > 1 && (!continuous || q.Nc > 1);
}
}
LAW(modal2d, 4000, 200000, 4) {
	modal<2>(g, c, 12, 7);
}
LAW(modal3d, 800, 30000, 4) {
	modal<3>(g, c, 6, 4);
}

namespace {
/// the whole solver with a filter
template<size_t dim> void solver(Gen& g, Ctx& c, size_t cells) {
	slv::Run<dim> r;
	slv::gen_flow<dim>(g, r, false, cells);
	r.pts = GAUSS_LOBATTO_POINTS;
	r.s.local.clear();
	r.cfl = g.real(0.05, 0.3, 0.2);
	const double um = r.set.st->getMaxParticleVelocityMagnitude();
	const double dt = r.cfl * slv::min_edge(r.s) / (um * r.order * r.order);
	r.set.set_tau(r.set.tau > 0 ? r.set.tau : 1, dt);
	r.make_config();
	SolverConfiguration& cf = *r.cfg;
	Par q = gen_par(g, dim, r.order);
	q.alpha = g.logreal(0.01, 3, 0.3);
	size_t interval = g.range(1, 3);
	cf.setAdvectionScheme(SEDG);
	cf.setTimeIntegrator(RUNGE_KUTTA_5STAGE);
	cf.setFiltering(true);
	cf.setFilteringScheme(q.exponential ? EXPONENTIAL_FILTER : NEW_FILTER);
	cf.setExponentialFilterAlpha(q.alpha);
	cf.setExponentialFilterS(q.s);
	cf.setExponentialFilterNc(q.Nc);
	cf.setFilterDegreeByComponentSums(q.sum);
	cf.setFilterInterval(interval);
	q.print(c.desc);
	c.desc << " every " << interval << " steps, ";
	r.describe(c.desc);
	c.key = "solver";
	c.label(q.exponential ? q.sum ? "by sums" : "by maximum" : "new");
	r.make_problem();
	CFDSolver<dim> sol(r.cfg, r.pb);
	const auto& op = *sol.getAdvectionOperator();
	const size_t Q = r.set.st->getQ(), n = op.getNumberOfDoFs();
	lin::Lin A = lin::of_operator<dim>(op);
	lin::LV b(A.N), f(A.N);
	for (size_t i = 0; i < A.N; i++)
		b[i] = (double) op.getSystemVector()(i);
	coll::VV x(Q, coll::V(n));
	for (size_t i = 0; i < Q; i++)
		for (size_t d = 0; d < n; d++)
			x[i][d] = sol.getF().at(i)(d);
	coll::Setup set = r.set;
	auto collide = [&] {
		for (size_t d = 0; d < n; d++) {
			coll::V y = coll::reference(set, coll::point(x, d), coll::V(3, 0));
			for (size_t i = 0; i < Q; i++)
				x[i][d] = y[i];
		}
	};
	collide();
	size_t filtered = 0;
	for (size_t it = 1; it <= r.steps; it++) {
		for (size_t i = 1; i < Q; i++)
			for (size_t d = 0; d < n; d++)
				f[(i - 1) * n + d] = x[i][d];
		f = lin::low_storage(A, b, f, dt);
		for (size_t i = 1; i < Q; i++)
			for (size_t d = 0; d < n; d++)
				x[i][d] = f[(i - 1) * n + d];
		if (it % interval == 0) {
			oracle<dim>(*op.getDoFHandler(), q, x);
			filtered++;
		}
		collide();
	}
	double top = 0;
	for (auto& y : x)
		for (double v : y) {
			if (!(std::fabs(v) < 10))
				throw pbt::Discard();
			top = std::max(top, std::fabs(v));
		}
	sol.run();
	CHECK(sol.getIteration() == r.steps, "iterations: " << sol.getIteration());
	for (size_t i = 0; i < Q; i++)
		for (size_t d = 0; d < n; d++)
			CLOSE(sol.getF().at(i)(d), x[i][d], 1e-9 * top, "population " << i << " at " << d);
	c.nontrivial = filtered && r.rho->comp[0].c1 != 0;
}
}
LAW(solver2d, 400, 15000, 6) {
	solver<2>(g, c, 12);
}
LAW(solver3d, 60, 1500, 6) {
	solver<3>(g, c, 4);
}

// ---- limiter
LAW(limiter, 6000, 300000, 2) {
	const size_t n = 1 + g.draw(12), m = 1 + g.draw(12);
	dealii::DynamicSparsityPattern sp(n, m);
	std::vector<std::vector<double> > a(n, std::vector<double>(m, 0));
	for (size_t i = 0; i < n; i++) {
		bool none = g.chance(15);
		for (size_t j = 0; j < m; j++) {
			if (g.chance(60))
				sp.add(i, j);
			else
				continue;
			if (!none && g.chance(70))
				a[i][j] = g.real(-1, 2, 0.5);
		}
	}
	distributed_sparse_matrix A;
	A.reinit(dealii::complete_index_set(n), dealii::complete_index_set(m), sp, MPI_COMM_WORLD);
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < m; j++)
			if (sp.exists(i, j))
				A.set(i, j, a[i][j]);
	A.compress(dealii::VectorOperation::insert);
	distributed_vector t, s;
	t.reinit(dealii::complete_index_set(n), MPI_COMM_WORLD);
	s.reinit(dealii::complete_index_set(m), MPI_COMM_WORLD);
	double shift = g.real(-3, 3, 0);
	coll::V tv(n), sv(m);
	bool product = g.flag();
	for (size_t j = 0; j < m; j++)
		s(j) = sv[j] = shift + g.real(-1, 1, 0.25);
	for (size_t i = 0; i < n; i++) {
		tv[i] = product ? 0 : shift + g.real(-2, 2, 0.5);
		if (product)
			for (size_t j = 0; j < m; j++)
				tv[i] += a[i][j] * sv[j];
		t(i) = tv[i];
	}
	t.compress(dealii::VectorOperation::insert);
	s.compress(dealii::VectorOperation::insert);
	c.desc << n << "x" << m << " matrix, " << (product ? "product" : "random target") << ", shift " << shift;
	c.key = "limiter";
	VmultLimiter::apply(A, t, s);
	for (size_t i = 0; i < n; i++) {
		double lo = 1e300, hi = -1e300;
		for (size_t j = 0; j < m; j++)
			if (std::fabs(a[i][j]) > 1e-12)
				lo = std::min(lo, sv[j]), hi = std::max(hi, sv[j]);
		double w = lo > hi ? tv[i] : std::min(hi, std::max(lo, tv[i]));
		CLOSE(t(i), w, 1e-14, "row " << i << " (" << tv[i] << " before, sources between " << lo << " and " << hi << ")");
		if (w != tv[i])
			c.nontrivial = true;
	}
	for (size_t j = 0; j < m; j++)
		CLOSE(s(j), sv[j], 0, "source " << j);
}
namespace {
template<size_t dim> void limited(Gen& g, Ctx& c, size_t cells) {
	slv::Run<dim> r;
	slv::gen_flow<dim>(g, r, false, cells);
	r.make_config();
	r.cfg->setVmultLimiter(true);
	r.describe(c.desc);
	c.key = "limited";
	r.make_problem();
	CFDSolver<dim> sol(r.cfg, r.pb);
	const auto& op = *sol.getAdvectionOperator();
	const size_t Q = r.set.st->getQ(), n = op.getNumberOfDoFs();
	// steep populations
	double jump = g.real(0, 3, 1);
	coll::VV f(Q, coll::V(n));
	for (size_t i = 0; i < Q; i++) {
		for (size_t d = 0; d < n; d++)
			f[i][d] = r.set.st->getWeight(i) * (1 + (g.chance(30) ? jump : 0));
		for (size_t d = 0; d < n; d++)
			sol.getF().at(i)(d) = f[i][d];
		sol.getF().at(i).compress(dealii::VectorOperation::insert);
	}
	c.desc << ", jump " << jump;
	sol.getF().updateGhosted();
	sol.stream();
	size_t clipped = 0;
	for (size_t i = 1; i < Q; i++)
		for (size_t d = 0; d < n; d++) {
			double v = 0, lo = 1e300, hi = -1e300;
			bool doubtful = false;
			for (auto& e : sl::row<dim>(op, i, d)) {
				double x = f[e.first.first][e.first.second];
				v += e.second * x;
				doubtful |= std::fabs(e.second) > 1e-14 && std::fabs(e.second) < 1e-10;
				if (std::fabs(e.second) > 1e-12)
					lo = std::min(lo, x), hi = std::max(hi, x);
			}
			if (doubtful)
				continue;
			double w = lo > hi ? v : std::min(hi, std::max(lo, v));
			clipped += std::fabs(w - v) > 1e-10;
			CLOSE(sol.getF().at(i)(d), w, 1e-12 * (1 + jump), "population " << i << " at " << d << " (" << v << " without limiter)");
		}
	for (size_t d = 0; d < n; d++)
		CLOSE(sol.getF().at(0)(d), f[0][d], 0, "resting population at " << d);
	c.nontrivial = clipped > 0;
}
}
LAW(limited2d, 300, 10000, 4) {
	limited<2>(g, c, 16);
}
LAW(limited3d, 40, 1000, 4) {
	limited<3>(g, c, 4);
}
HARNESS_MAIN
