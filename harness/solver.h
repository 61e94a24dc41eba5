// Small runs of the whole solver.
#pragma once
#include "sl.h"
#include "collision.h"
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"

namespace slv {
using coll::V;
using coll::VV;

/// smooth and periodic on the box: c0 + c1 sin(2 pi sum k_a r_a + phase)
template<size_t dim> class Wave: public dealii::Function<dim> {
public:
	struct Comp {
		double c0 = 0, c1 = 0, phase = 0;
		int k[3] = { 1, 0, 0 };
	};
	std::vector<Comp> comp;
	BoxSpec<dim> s;
	Wave(const BoxSpec<dim>& sp, size_t n) :
			dealii::Function<dim>(n), comp(n), s(sp) {
	}
	double value(const dealii::Point<dim>& p, unsigned int i = 0) const override {
		double ph = comp[i].phase;
		for (size_t a = 0; a < dim; a++)
			ph += 2 * 3.14159265358979323846 * comp[i].k[a] * (p[a] - s.lo[a]) / s.len[a];
		return comp[i].c0 + comp[i].c1 * std::sin(ph);
	}
	void gen(Gen& g, size_t i, double c0, double mean, double amp) {
		comp[i].c0 = c0 + g.real(-mean, mean, 0.0);
		comp[i].c1 = g.real(-amp, amp, 0.5 * amp);
		comp[i].phase = g.real(0, 6.3, 0.0);
		for (size_t a = 0; a < dim; a++)
			comp[i].k[a] = g.range(0, 2) * (g.flag() ? -1 : 1);
	}
	void print(std::ostream& o, const char* name) const {
		for (auto& c : comp) {
			o << " " << name << "=" << c.c0 << "+" << c.c1 << "*sin(2pi*(";
			for (size_t a = 0; a < dim; a++)
				o << c.k[a] << " ";
			o << ").r+" << c.phase << ")";
		}
	}
};

template<size_t dim> struct Run {
	BoxSpec<dim> s;
	coll::Setup set;
	size_t order = 1, steps = 1;
	double cfl = 1;
	bool output = false;
	SupportPointsName pts = GAUSS_LOBATTO_POINTS;
	std::string ptn;
	boost::shared_ptr<Wave<dim> > rho, u, T;
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<SolverConfiguration> cfg;
	void describe(std::ostream& o) const {
		o << set.str() << ", order " << order << " " << ptn << " points, CFL " << cfl << ", " << steps << " steps, ";
		s.print(o);
		rho->print(o, "rho");
		u->print(o, "u");
		if (T)
			T->print(o, "T");
	}
	void make_config() {
		cfg = boost::make_shared<SolverConfiguration>();
		cfg->setSwitchOutputOff(!output);
		cfg->setUserInteraction(false);
		cfg->setCommandLineVerbosity(0);
		cfg->setAdvectionScheme(SEMI_LAGRANGIAN);
		cfg->setSupportPoints(pts);
		cfg->setSedgOrderOfFiniteElement(order);
		cfg->setStencil(set.si->type);
		cfg->setStencilScaling(set.scaling);
		cfg->setCFL(cfl);
		cfg->setCollisionScheme(set.scheme);
		cfg->setEquilibriumScheme(set.eq);
		cfg->setForcingScheme(set.forcing);
		cfg->setMRTBasis(set.basis);
		cfg->setMRTRelaxationTimes(set.relax);
		cfg->setNumberOfTimeSteps(steps);
	}
	void make_problem() {
		pb = boost::make_shared<BoxProblem<dim> >(s, set.nu);
		pb->setRho(rho);
		pb->setU(u);
		if (T)
			pb->setT(T);
		if (!set.F.empty()) {
			dealii::Tensor<1, dim> t;
			for (size_t a = 0; a < dim; a++)
				t[a] = set.F[a];
			pb->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t));
		}
	}
};

/// the smallest distance of vertices (stretched lines included)
template<size_t dim> double min_edge(const BoxSpec<dim>& s) {
	double m = 1e300;
	for (size_t a = 0; a < dim; a++)
		for (size_t i = 0; i < s.cells(a); i++) {
			dealii::Point<dim> p, q;
			for (size_t b = 0; b < dim; b++)
				p[b] = q[b] = s.lo[b];
			p[a] = s.lo[a] + s.len[a] * i / s.cells(a);
			q[a] = s.lo[a] + s.len[a] * (i + 1) / s.cells(a);
			double d = s.shape ? BoxProblem<dim>::map(s, p).distance(BoxProblem<dim>::map(s, q)) : q[a] - p[a];
			m = std::min(m, d / (s.local.size() ? 2 : 1));
		}
	return m;
}

/// how one step transports the populations: (direction, dof) -> weights
template<size_t dim> struct Transport {
	typedef std::vector<std::pair<size_t, double> > Row; // dofs and weights
	std::vector<std::vector<Row> > rows;
	std::vector<std::vector<size_t> > from;
	struct Hit {
		size_t i, dof, wall, number;
		std::vector<double> x;
		double before;   // time between the hit and the end of the step
		double coefficient[3];
	};
	std::vector<Hit> wall_hits;
	bool doubtful = false;
	size_t hits = 0;
	Transport(const BoxSpec<dim>& s, const sl::Cells<dim>& cells, const Stencil& st, const std::vector<double>& nd, double dt) {
		const size_t Q = st.getQ(), n = cells.points.size();
		rows.assign(Q, std::vector<Row>(n));
		from.assign(Q, std::vector<size_t>(n));
		for (auto& pt : cells.points)
			for (size_t i = 0; i < Q; i++) {
				double x[3], e[3], m = 0;
				for (size_t a = 0; a < dim; a++) {
					x[a] = pt.second[a];
					e[a] = st.getDirection(i)(a);
					m = std::max(m, std::fabs(e[a]));
				}
				from[i][pt.first] = i;
				if (m == 0) {
					rows[i][pt.first].push_back(std::make_pair(pt.first, 1.0));
					continue;
				}
				sl::Path p = sl::trace<dim>(s, x, e, dt);
				doubtful |= p.doubtful;
				hits += p.hits.size();
				if (p.lost) {
					rows[i][pt.first].push_back(std::make_pair(pt.first, 1.0));
					continue;
				}
				for (size_t h = 0; h < p.hits.size(); h++) {
					Hit w { i, pt.first, p.hit_wall[h], h, p.hits[h].first, p.hits[h].second, { 0, 0, 0 } };
					for (size_t a = 0; a < dim; a++)
						w.coefficient[a] = (h % 2 ? -2 : 2) * st.getWeight(i) * e[a] / st.getSpeedOfSoundSquare();
					wall_hits.push_back(w);
				}
				if (p.reversed)
					from[i][pt.first] = sl::opposite(st, i);
				auto in = sl::candidates<dim>(s, cells, p.y);
				if (in.empty())
					throw pbt::Discard();
				for (auto& w : cells.weights(in[0].first, nd, in[0].second))
					rows[i][pt.first].push_back(w);
			}
	}
	void apply(VV& f) const {
		VV r(f.size(), V(f[0].size()));
		for (size_t i = 0; i < f.size(); i++)
			for (size_t d = 0; d < f[0].size(); d++) {
				double v = 0;
				for (auto& w : rows[i][d])
					v += w.second * f[from[i][d]][w.first];
				r[i][d] = v;
			}
		f = r;
	}
	/// what moving walls add in the step which ends at time t; u(wall, component, place, time)
	template<class F> void walls(VV& f, F u, double t) const {
		for (auto& h : wall_hits)
			for (size_t a = 0; a < dim; a++)
				f[h.i][h.dof] += h.coefficient[a] * u(h.wall, a, h.x, t - h.before);
	}
};

/// velocity of a wall: linear in space and time
template<size_t dim> struct WallVelocity: public dealii::Function<dim> {
	double a[3] = { 0, 0, 0 }, bx[3][3] = { { 0 } }, bt[3] = { 0, 0, 0 };
	WallVelocity() :
			dealii::Function<dim>(dim) {
	}
	double at(size_t i, const double* x, double t) const {
		double r = a[i] + bt[i] * t;
		for (size_t k = 0; k < dim; k++)
			r += bx[i][k] * x[k];
		return r;
	}
	double value(const dealii::Point<dim>& p, const unsigned int i = 0) const override {
		double x[3];
		for (size_t k = 0; k < dim; k++)
			x[k] = p[k];
		return at(i, x, this->get_time());
	}
	void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const override {
		for (size_t i = 0; i < dim; i++)
			v(i) = value(p, i);
	}
};

/// a random small run without force; the flow of the solver itself is the subject of C17
template<size_t dim> void gen_flow(Gen& g, Run<dim>& r, bool compressible, size_t cells) {
	std::vector<coll::Combo> mine;
	for (auto& k : compressible ? coll::compressible() : coll::isothermal())
		if (coll::find_stencil(k.st)->D == dim && coll::find_stencil(k.st)->Q < 50 && k.scheme == BGK_STANDARD)
			mine.push_back(k);
	coll::Setup& s = r.set;
	coll::set_combo(s, g.pick(mine));
	s.scaling = g.chance(50) ? g.logreal(0.3, 5, 1.0) : 1.0;
	s.finish();
	r.s = gen_box<dim>(g, cells, !compressible);
	r.order = 1 + g.draw(dim == 2 ? 3 : 2);
	r.pts = sl::gen_points(g, r.ptn);
	if (g.chance(30)) {
		r.s.shape = 3;
		r.s.amount = g.real(-0.3, 0.3, 0.3);
	}
	double um = s.st->getMaxParticleVelocityMagnitude();
	r.cfl = g.real(0.1, 0.7, 0.4) * um / sl::emax<dim>(*s.st) * r.order * r.order;
	double dt = r.cfl * min_edge(r.s) / (um * r.order * r.order);
	s.set_tau(0.55 + g.logreal(1e-2, 2, 0.5), dt);
	r.steps = g.range(1, 7);
	r.rho = boost::make_shared<Wave<dim> >(r.s, 1);
	r.rho->gen(g, 0, 1, 0.2, 0.1);
	r.u = boost::make_shared<Wave<dim> >(r.s, dim);
	double cs = std::sqrt(s.st->getSpeedOfSoundSquare());
	for (size_t a = 0; a < dim; a++)
		r.u->gen(g, a, 0, 0.1 * cs, 0.1 * cs);
	if (compressible) {
		s.compressible = true;
		s.gamma = g.chance(50) ? 1.4 : g.real(1.1, 1.6, 1.3);
		r.T = boost::make_shared<Wave<dim> >(r.s, 1);
		r.T->gen(g, 0, 1, 0.05, 0.05);
	}
}

/// a random run with all collision models, forces and resting walls
template<size_t dim> void gen_run(Gen& g, Run<dim>& r, const std::vector<coll::Combo>& combos, size_t cells) {
	std::vector<coll::Combo> mine;
	for (auto& k : combos)
		if (coll::find_stencil(k.st)->D == dim && coll::find_stencil(k.st)->Q < 70)
			mine.push_back(k);
	coll::Setup& s = r.set;
	coll::set_combo(s, g.pick(mine));
	if (s.scheme == MRT_STANDARD) {
		if (dim == 2) {
			s.basis = g.flag() ? LALLEMAND_D2Q9 : DELLAR_D2Q9;
			s.relax = s.basis == DELLAR_D2Q9 && g.flag() ? DELLAR_RELAX_ONLY_N : RELAX_FULL;
		} else
			s.relax = g.flag() ? RELAX_DHUMIERES_PAPER : RELAX_FULL;
	}
	s.scaling = g.chance(60) ? g.logreal(0.1, 50, 1.0) : 1.0;
	s.finish();
	r.s = gen_box<dim>(g, cells, true);
	r.order = 1 + g.draw(dim == 2 ? 4 : 2);
	r.pts = sl::gen_points(g, r.ptn);
	if (g.chance(20)) {
		r.s.shape = 3;
		r.s.amount = g.real(-0.4, 0.4, 0.3);
	}
	// the time step in units of cells
	double cfl_cells = g.chance(70) ? g.real(0.05, 0.9, 0.5) : g.logreal(1e-3, 1.6, 0.1);
	double um = s.st->getMaxParticleVelocityMagnitude();
	r.cfl = cfl_cells * um / sl::emax<dim>(*s.st) * r.order * r.order;
	double dt = r.cfl * min_edge(r.s) / (um * r.order * r.order);
	s.set_tau(0.5 + g.logreal(1e-3, 3, 0.5), dt);
	r.steps = g.range(1, 6);
	r.rho = boost::make_shared<Wave<dim> >(r.s, 1);
	r.rho->gen(g, 0, 1, 0.2, 0.1);
	r.u = boost::make_shared<Wave<dim> >(r.s, dim);
	double cs = std::sqrt(s.st->getSpeedOfSoundSquare());
	for (size_t a = 0; a < dim; a++)
		r.u->gen(g, a, 0, 0.1 * cs, 0.1 * cs);
	if (g.chance(30)) {
		s.forcing = g.flag() ? EXACT_DIFFERENCE : SHIFTING_VELOCITY;
		double kick = g.logreal(1e-5, 0.05, 0.01) * s.scaling / dt / std::max(1.0, s.tau);
		s.F.assign(dim, 0.0);
		for (size_t d = 0; d < dim; d++)
			s.F[d] = kick * g.real(-1, 1, d == 0 ? 1.0 : 0.0);
		if (!s.has_force())
			s.F[0] = kick;
	}
}
}
