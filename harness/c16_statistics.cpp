// C16: integrals, statistics, error norms and the tables they are written to.
#include "fields.h"
#include "solver.h"
#include "benchbox.h"
#include "natrium/solver/PhysicalProperties.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/problemdescription/Benchmark.h"
#include "natrium/dataprocessors/GlobalTurbulenceStats.h"
#include <fstream>
using namespace fld;

template<size_t dim> void shape(Gen& g, BoxSpec<dim>& s, bool local) {
	s.shape = g.draw(4);
	if (s.shape == 1) // periodic only along x
		for (size_t a = 1; a < dim; a++)
			s.wall[a] = true;
	s.amount = s.shape ? g.real(-0.3, 0.3, 0.2) : 0;
	if (s.shape == 0 && local && g.chance(30)) {
		std::array<double, dim> r;
		for (size_t a = 0; a < dim; a++)
			r[a] = g.real(0.01, 0.99, 0.3);
		s.local.push_back(r);
		for (size_t a = 0; a < dim; a++) // both sides of a periodic axis must be refined alike
			s.wall[a] = true;
	}
}
inline VD values(const distributed_vector& v) {
	VD r(v.size());
	for (size_t i = 0; i < r.size(); i++)
		r[i] = v(i);
	return r;
}
template<size_t dim> struct Operator {
	BoxSpec<dim> s;
	size_t order;
	SupportPointsName pts;
	bool lobatto;
	std::string ptn, sn;
	double scaling;
	StencilP st;
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<SemiLagrangian<dim> > op;
	std::vector<QPoint<dim> > qs;
	void make(Gen& g, Ctx& c, size_t cells, size_t max_order) {
		s = gen_box<dim>(g, cells, true);
		shape(g, s, true);
		order = 1 + g.draw(max_order);
		pts = sl::gen_points(g, ptn);
		lobatto = g.chance(60);
		st = sl::gen_stencil(g, dim, 27, scaling, sn);
		s.print(c.desc);
		c.desc << ", order " << order << " " << ptn << " points, " << (lobatto ? "Gauss-Lobatto" : "Gauss") << " quadrature, " << sn << " scaling " << scaling;
		pb = boost::make_shared<BoxProblem<dim> >(s);
		pb->refineAndTransform();
		op = boost::make_shared<SemiLagrangian<dim> >(*pb, order, lobatto ? QGAUSS_LOBATTO : QGAUSS, pts, st, 1e-3 * s.hmin());
		op->setupDoFs();
		op->setDeltaT(1e-3 * s.hmin());
		op->reassemble(); // the operator does not know its number of degrees of freedom before
		qs = quadrature<dim>(*op, sl::nodes(pts, order), lobatto);
	}
	size_t n() const {
		return op->getDoFHandler()->n_dofs();
	}
	distributed_vector vec(const VD& v) const {
		distributed_vector r;
		r.reinit(op->getLocallyOwnedDofs(), op->getLocallyRelevantDofs(), MPI_COMM_WORLD);
		distributed_vector w;
		w.reinit(op->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		for (size_t i = 0; i < v.size(); i++)
			w(i) = v[i];
		w.compress(dealii::VectorOperation::insert);
		r = w;
		return r;
	}
};
#define INTEGRAL(got, sum, what) do { fld::Sum s_ = (sum); CLOSE((got), s_.v, 1e-10 * s_.m + 1e-300, what); } while (0)

template<size_t dim> void properties(Gen& g, Ctx& c, size_t cells) {
	Operator<dim> k;
	k.make(g, c, cells, dim == 2 ? 5 : 3);
	const size_t n = k.n();
	const double um = g.logreal(1e-4, 1e3, 1.0);
	const bool rough = g.chance(70);
	uint64_t rng = g.draw(1ull << 40);
	auto rnd = [&]() {return (double) (pbt::splitmix(rng) >> 11) / 4503599627370496.0 - 1;};
	c.desc << ", velocities up to " << um << (rough ? "" : " constant");
	c.key = "properties";
	std::vector<VD> u(dim, VD(n));
	VD rho(n);
	for (auto& x : u) {
		double v = rnd();
		for (double& y : x)
			y = um * (rough ? rnd() : v);
	}
	for (double& y : rho)
		y = 1 + 0.5 * rnd();
	std::vector<distributed_vector> du;
	for (auto& x : u)
		du.push_back(k.vec(x));
	distributed_vector dr = k.vec(rho);
	typedef PhysicalProperties<dim> P;
	boost::shared_ptr<AdvectionOperator<dim> > op = k.op;
	INTEGRAL(P::mass(dr, op), nodal(k.qs, [&](size_t i) {return rho[i];}), "mass");
	INTEGRAL(P::kineticEnergy(du, dr, op), nodal(k.qs, [&](size_t i) {
		double e = 0;
		for (auto& x : u)
			e += x[i] * x[i];
		return 0.5 * rho[i] * e;
	}), "kinetic energy");
	double sq = -1;
	// gradients cancel: tolerance relative to the largest possible gradient
	double e = P::enstrophy(du, op, &sq), vol = 0, gmax = 0;
	for (auto& q : k.qs) {
		vol += q.w;
		for (auto& x : q.grad)
			for (double y : x)
				gmax = std::max(gmax, std::fabs(y));
	}
	gmax *= 3 * um * std::pow(k.order + 1.0, dim);
	auto oe = integral(k.qs, [&](const QPoint<dim>& q) {return enstrophy<dim>(q, u);});
	auto os = integral(k.qs, [&](const QPoint<dim>& q) {return std::pow(enstrophy<dim>(q, u), 2);});
	CLOSE(e, oe.v, 1e-9 * oe.m + 1e-24 * gmax * gmax * vol, "enstrophy");
	CLOSE(sq, os.v, 1e-9 * os.m + 1e-48 * std::pow(gmax, 4) * vol, "square of the enstrophy");
	double lo = 0, cs = std::sqrt(k.st->getSpeedOfSoundSquare());
	double hi = P::maximalPressure(dr, k.st->getSpeedOfSound(), lo);
	double mx = *std::max_element(rho.begin(), rho.end()), mn = *std::min_element(rho.begin(), rho.end());
	CLOSE(hi, (mx - 1) * cs * cs, 1e-13 * cs * cs, "maximal pressure");
	CLOSE(lo, (mn - 1) * cs * cs, 1e-13 * cs * cs, "minimal pressure");
	Sum mean = nodal(k.qs, [&](size_t i) {return u[0][i];});
	CLOSE(P::meanVelocityX(du[0], op), mean.v / vol, 1e-10 * mean.m / vol + 1e-300, "mean velocity");
	if (!rough)
		CLOSE(P::meanVelocityX(du[0], op), u[0][0], 1e-10 * um, "mean of a constant velocity");
	DistributionFunctions f;
	const size_t Q = k.st->getQ();
	f.reinit(Q, k.op->getLocallyOwnedDofs(), k.op->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	std::vector<VD> fv(Q, VD(n));
	for (size_t q = 0; q < Q; q++)
		for (size_t i = 0; i < n; i++)
			f.at(q)(i) = fv[q][i] = k.st->getWeight(q) * (1 + 0.9 * rnd());
	f.compress(dealii::VectorOperation::insert);
	f.updateGhosted();
	Sum ent;
	for (size_t q = 0; q < Q; q++) {
		Sum x = nodal(k.qs, [&](size_t i) {return -fv[q][i] * std::log(fv[q][i] / k.st->getWeight(q));});
		ent.v += x.v;
		ent.m += x.m;
	}
	INTEGRAL(P::entropy(f, op), ent, "entropy");
	CLOSE(Math::maxVelocityNorm(du, k.op->getLocallyOwnedDofs()), [&]() {
		double m = 0;
		for (size_t i = 0; i < n; i++) {
			double z = 0;
			for (auto& x : u)
				z += x[i] * x[i];
			m = std::max(m, std::sqrt(z));
		}
		return m;
	}(), 1e-12 * um, "largest velocity");
	double z = 0;
	for (auto& x : u)
		for (double y : x)
			z += y * y;
	CLOSE(Math::velocity2Norm(du, k.op->getLocallyOwnedDofs()), std::sqrt(z), 1e-11 * std::sqrt(z) + 1e-300, "2-norm of the velocities");
	c.nontrivial = rough;
	c.label("shape " + std::to_string(k.s.shape));
	c.label("order " + std::to_string(k.order));
}
LAW(properties2d, 1500, 30000, 8) {
	properties<2>(g, c, 30);
}
LAW(properties3d, 240, 4000, 8) {
	properties<3>(g, c, 18);
}

/// polynomials: the integrals are known without any quadrature
template<size_t dim> void exact(Gen& g, Ctx& c, size_t cells) {
	Operator<dim> k;
	k.make(g, c, cells, 4);
	const size_t n = k.n();
	double vol = 1;
	for (size_t a = 0; a < dim; a++)
		vol *= k.s.len[a];
	dealii::Point<dim> mid;
	for (size_t a = 0; a < dim; a++)
		mid[a] = k.s.lo[a] + 0.5 * k.s.len[a];
	if (k.s.shape == 1)
		mid[0] += 0.5 * k.s.amount * k.s.len[0];
	double u0[dim], G[dim][dim], r0 = g.real(0.2, 3, 1.0), r1[dim];
	for (size_t a = 0; a < dim; a++) {
		u0[a] = g.real(-2, 2, 1.0);
		r1[a] = g.real(-1, 1, 0.0);
		for (size_t b = 0; b < dim; b++)
			G[a][b] = g.real(-2, 2, a == 0 && b == 1 ? 1.0 : 0.0);
	}
	c.desc << ", u0 ";
	for (size_t a = 0; a < dim; a++) {
		c.desc << u0[a] << " gradient ";
		for (size_t b = 0; b < dim; b++)
			c.desc << G[a][b] << " ";
	}
	c.desc << ", rho " << r0;
	for (size_t a = 0; a < dim; a++)
		c.desc << " " << r1[a];
	c.key = "exact";
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	k.op->mapDoFsToSupportPoints(points);
	std::vector<VD> u(dim, VD(n));
	VD rho(n), one(n, 1.0);
	double big = 0;
	for (auto& pt : points) {
		rho[pt.first] = r0;
		for (size_t b = 0; b < dim; b++) {
			rho[pt.first] += r1[b] * (pt.second[b] - mid[b]);
			for (size_t a = 0; a < dim; a++)
				u[a][pt.first] += (b ? 0 : u0[a]) + G[a][b] * (pt.second[b] - mid[b]);
		}
		for (size_t a = 0; a < dim; a++)
			big = std::max(big, std::fabs(u[a][pt.first]));
	}
	std::vector<distributed_vector> du;
	for (auto& x : u)
		du.push_back(k.vec(x));
	typedef PhysicalProperties<dim> P;
	boost::shared_ptr<AdvectionOperator<dim> > op = k.op;
	double rsum = r0;
	for (size_t b = 0; b < dim; b++)
		rsum += std::fabs(r1[b]) * k.s.len[b];
	// the Jacobian of a bilinear cell has degree 1: Gauss-Lobatto with order 1 integrates x*J (degree 2) inexactly
	const bool fine = k.s.shape != 2 || k.order > dim - 1;
	if (fine) {
		CLOSE(P::mass(k.vec(rho), op), r0 * vol, 1e-9 * rsum * vol, "mass of a linear density");
		CLOSE(P::meanVelocityX(du[0], op), u0[0], 1e-9 * big, "mean of a linear velocity");
	}
	double w2 = 0;
	if (dim == 2)
		w2 = std::pow(G[1][0] - G[0][1], 2);
	else
		for (size_t a = 0; a < dim; a++)
			for (size_t b = 0; b < dim; b++)
				w2 += G[a][b] * G[a][b];
	if (k.s.shape != 2 || dim == 2 || k.order > 1) {
		double sq = 0, e = P::enstrophy(du, op, &sq);
		CLOSE(e, w2 * vol, 1e-8 * (w2 + big * big) * vol, "enstrophy of a linear velocity");
		CLOSE(sq, w2 * w2 * vol, 1e-8 * std::pow(w2 + big * big, 2) * vol, "squared enstrophy of a linear velocity");
	}
	// kinetic energy of a linear velocity with constant density, exact if the quadrature integrates the square
	if (k.order > 1 && k.s.shape != 2) {
		double ke = 0;
		for (size_t a = 0; a < dim; a++) {
			ke += u0[a] * u0[a];
			// variance of a linear function over the parallelepiped
			for (size_t b = 0; b < dim; b++) {
				double gb = G[a][b];
				if (b == 1 && k.s.shape == 1)
					gb += G[a][0] * k.s.amount * k.s.len[0] / k.s.len[1];
				ke += gb * gb * k.s.len[b] * k.s.len[b] / 12;
			}
		}
		CLOSE(P::kineticEnergy(du, k.vec(one), op), 0.5 * ke * vol, 1e-9 * big * big * vol, "kinetic energy of a linear velocity");
	}
	c.nontrivial = true;
	c.label("shape " + std::to_string(k.s.shape));
}
LAW(exact2d, 800, 15000, 4) {
	exact<2>(g, c, 30);
}
LAW(exact3d, 160, 3000, 4) {
	exact<3>(g, c, 12);
}

// ---- tables written by a running solver ----

/// keeps the state after every step
template<size_t dim> struct Recorder: public DataProcessor<dim> {
	struct State {
		double time;
		std::vector<VD> u, f;
		VD rho, T;
	};
	CFDSolver<dim>& s;
	CompressibleCFDSolver<dim>* cs;
	std::map<size_t, State>& out;
	Recorder(CFDSolver<dim>& solver, CompressibleCFDSolver<dim>* cs, std::map<size_t, State>& o) :
			DataProcessor<dim>(solver), s(solver), cs(cs), out(o) {
	}
	void apply() override {
		State x;
		x.time = s.getTime();
		x.rho = values(s.getDensity());
		for (auto& v : s.getVelocity())
			x.u.push_back(values(v));
		for (size_t q = 0; q < s.getStencil()->getQ(); q++)
			x.f.push_back(values(s.getF().at(q)));
		if (cs)
			x.T = values(cs->getTemperature());
		out[s.getIteration()] = x;
	}
};
inline std::vector<VD> read_table(const std::string& file, std::vector<std::string>& comments) {
	std::ifstream in(file);
	std::vector<VD> r;
	std::string line;
	while (std::getline(in, line)) {
		if (line.size() && line[0] == '#') {
			comments.push_back(line);
			continue;
		}
		std::istringstream s(line);
		VD v;
		std::string w;
		while (s >> w)
			v.push_back(strtod(w.c_str(), 0));
		r.push_back(v);
	}
	return r;
}
inline std::map<size_t, std::string> read_legend(const std::string& file) {
	std::ifstream in(file);
	std::map<size_t, std::string> r;
	std::string line;
	while (std::getline(in, line)) {
		std::istringstream s(line);
		size_t k;
		s >> k;
		std::string w, n;
		while (s >> w)
			n += (n.empty() ? "" : " ") + w;
		if (r.count(k))
			n = "(number used twice)";
		r[k] = n;
	}
	return r;
}
/// a number printed with 6 digits
#define PRINTED(got, want, scale, what) do { double w_ = (want); CLOSE((got), w_, 6e-6 * std::fabs(w_) + 1e-10 * (scale), what); } while (0)

template<size_t dim> void tables(Gen& g, Ctx& c, size_t cells, int kind /* 0 solver, 1 compressible, 2 benchmark, 3 compressible benchmark */) {
	slv::Run<dim> r;
	slv::gen_flow<dim>(g, r, kind % 2, cells);
	const size_t interval = g.range(1, 3), axis = g.draw(dim);
	const bool global = g.chance(60), planes = g.chance(60), lobatto = g.chance(60), compressible_stats = kind % 2;
	r.describe(c.desc);
	c.desc << ", table interval " << interval << (global ? ", global turbulence" : "") << (planes ? ", plane statistics" : "") << (lobatto ? "" : ", Gauss quadrature");
	c.key = "tables";
	r.make_config();
	r.cfg->setQuadrature(lobatto ? QGAUSS_LOBATTO : QGAUSS);
	const std::string dir = std::string(getenv("PBT_SCRATCH")) + "/out";
	boost::filesystem::remove_all(dir);
	boost::filesystem::create_directory(dir);
	r.cfg->setSwitchOutputOff(false);
	r.cfg->setOutputDirectory(dir);
	r.cfg->setOutputTableInterval(interval);
	r.cfg->setOutputSolutionInterval(200000000);
	r.cfg->setOutputCheckpointInterval(200000000);
	VD coords;
	if (global)
		r.cfg->setOutputGlobalTurbulenceStatistics(true);
	if (planes) {
		coords = gen_planes(g, r, axis);
		r.cfg->setOutputTurbulenceStatistics(true);
		r.cfg->setWallNormalDirection(axis);
		r.cfg->setWallNormalCoordinates(coords);
	}
	if (kind % 2) {
		r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
		r.cfg->setOutputCompressibleTurbulenceStatistics(compressible_stats);
	}
	boost::shared_ptr<CFDSolver<dim> > solver;
	boost::shared_ptr<CompressibleCFDSolver<dim> > comp;
	boost::shared_ptr<BenchmarkCFDSolver<dim> > bench;
	boost::shared_ptr<BenchmarkCompressibleCFDSolver<dim> > cbench;
	boost::shared_ptr<Travelling<dim> > arho, au;
	if (kind >= 2) {
		double om = g.real(-2, 2, 1.0) / (r.set.dt * r.steps);
		arho = boost::make_shared<Travelling<dim> >(*r.rho, om);
		au = boost::make_shared<Travelling<dim> >(*r.u, -0.5 * om);
		c.desc << ", analytic solution travels with " << om;
		if (kind == 2)
			solver = bench = boost::make_shared<BenchmarkCFDSolver<dim> >(r.cfg, boost::make_shared<BenchmarkBox<dim> >(r.s, r.set.nu, arho, au));
		else {
			auto box = boost::make_shared<BenchmarkBox<dim, CompressibleBenchmark<dim> > >(r.s, r.set.nu, arho, au);
			if (r.T)
				box->T(r.T);
			solver = comp = cbench = boost::make_shared<BenchmarkCompressibleCFDSolver<dim> >(r.cfg, box);
		}
	} else {
		r.make_problem();
		if (kind == 1)
			solver = comp = boost::make_shared<CompressibleCFDSolver<dim> >(r.cfg, r.pb);
		else
			solver = boost::make_shared<CFDSolver<dim> >(r.cfg, r.pb);
	}
	std::map<size_t, typename Recorder<dim>::State> rec;
	boost::shared_ptr<Recorder<dim> > recorder = boost::make_shared<Recorder<dim> >(*solver, comp.get(), rec);
	solver->appendDataProcessor(recorder);
	std::vector<QPoint<dim> > qs = quadrature<dim>(*solver->getAdvectionOperator(), sl::nodes(r.pts, r.order), lobatto);
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	solver->getAdvectionOperator()->mapDoFsToSupportPoints(points);
	double vol = 0;
	for (auto& q : qs)
		vol += q.w;
	if (comp)
		comp->run(); // not virtual
	else
		solver->run();
	for (auto& x : rec)
		for (double y : x.second.rho)
			if (!(y > 0.2 && y < 5))
				throw pbt::Discard(); // unstable
	const double cs = std::sqrt(r.set.st->getSpeedOfSoundSquare());
	std::vector<std::string> comments;
	std::vector<VD> t = read_table(dir + "/results_table.txt", comments);
	CHECK(t.size() == r.steps / interval + 1, "results table has " << t.size() << " lines");
	CHECK(comments.size() == 1, "results table has " << comments.size() << " header lines");
	size_t line = 0;
	for (size_t i = 0; i <= r.steps; i += interval, line++) {
		const VD& v = t[line];
		CHECK(v.size() == 13, "results table: columns " << v.size());
		CHECK(v[0] == i, "results table: iteration " << v[0] << " instead of " << i);
		PRINTED(v[1], i * r.set.dt, i * r.set.dt, "time in the table");
		if (!i)
			continue;
		const auto& x = rec.at(i);
		double big = 0;
		for (auto& y : x.u)
			for (double z : y)
				big = std::max(big, std::fabs(z));
		PRINTED(v[2], big, cs, "largest velocity component in iteration " << i);
		Sum m = nodal(qs, [&](size_t k) {return x.rho[k];});
		PRINTED(v[3], m.v, m.m, "mass in iteration " << i);
		m = nodal(qs, [&](size_t k) {
			double e = 0;
			for (auto& y : x.u)
				e += y[k] * y[k];
			return 0.5 * x.rho[k] * e;
		});
		PRINTED(v[4], m.v, m.m + 1e-6 * cs * cs * vol, "kinetic energy in iteration " << i);
		m = integral(qs, [&](const QPoint<dim>& q) {return enstrophy<dim>(q, x.u);});
		const double es = 1e-10 * std::pow(cs / r.s.hmin(), 2) * vol;
		PRINTED(v[5], m.v, m.m + es, "enstrophy in iteration " << i);
		Sum ent;
		for (size_t q = 0; q < x.f.size(); q++) {
			Sum y = nodal(qs, [&](size_t k) {return -x.f[q][k] * std::log(x.f[q][k] / r.set.st->getWeight(q));});
			ent.v += y.v;
			ent.m += y.m;
		}
		if (std::isfinite(ent.v))
			PRINTED(v[6], ent.v, ent.m + 0.1 * vol, "entropy in iteration " << i);
		PRINTED(v[7], (*std::max_element(x.rho.begin(), x.rho.end()) - 1) * cs * cs, cs * cs, "largest pressure in iteration " << i);
		PRINTED(v[8], (*std::min_element(x.rho.begin(), x.rho.end()) - 1) * cs * cs, cs * cs, "smallest pressure in iteration " << i);
		m = nodal(qs, [&](size_t k) {return x.u[0][k];});
		PRINTED(v[11], m.v / vol, m.m / vol + 0.01 * cs, "mean velocity in iteration " << i);
		m = integral(qs, [&](const QPoint<dim>& q) {return std::pow(enstrophy<dim>(q, x.u), 2);});
		PRINTED(v[12], m.v, m.m + es * es / vol, "square of the enstrophy in iteration " << i);
	}
	if (global) {
		comments.clear();
		std::vector<VD> t = read_table(dir + "/global_turbulence_table.txt", comments);
		std::map<size_t, std::string> legend = read_legend(dir + "/global_turbulence_table.legend");
		CHECK(t.size() == r.steps / interval, "global turbulence table has " << t.size() << " lines");
		size_t line = 0;
		const char* xyz = "xyz";
		std::vector<std::string> names;
		names.push_back("rho");
		for (size_t a = 0; a < dim; a++)
			names.push_back(std::string("drho/d") + xyz[a]);
		for (size_t a = 0; a < dim; a++)
			names.push_back(std::string("u") + xyz[a]);
		for (size_t b = 0; b < dim; b++)
			for (size_t a = 0; a < dim; a++)
				names.push_back(std::string("du") + xyz[b] + "/d" + xyz[a]);
		const size_t N = names.size();
		for (size_t i = interval; i <= r.steps; i += interval, line++) {
			const auto& x = rec.at(i);
			const VD& v = t[line];
			CHECK(legend.size() == v.size() && legend.begin()->first == 1 && legend.rbegin()->first == v.size(),
					"the legend describes " << legend.size() << " columns up to " << legend.rbegin()->first << ", the table has " << v.size());
			std::map<std::string, Sum> want;
			for (auto& q : qs) {
				VD o;
				o.push_back(q.value(x.rho));
				for (size_t a = 0; a < dim; a++)
					o.push_back(q.derivative(x.rho, a));
				for (size_t a = 0; a < dim; a++)
					o.push_back(q.value(x.u[a]));
				for (size_t b = 0; b < dim; b++)
					for (size_t a = 0; a < dim; a++)
						o.push_back(q.derivative(x.u[b], a));
				double e = 0;
				for (size_t j = 0; j < N; j++) {
					want["< " + names[j] + " >"].add(q.w * o[j]);
					want["< " + names[j] + "^3 >"].add(q.w * std::pow(o[j], 3));
					want["< " + names[j] + "^4 >"].add(q.w * std::pow(o[j], 4));
					for (size_t k = 0; k < N; k++)
						want["< " + names[j] + " " + names[k] + " >"].add(q.w * o[j] * o[k]);
				}
				for (size_t a = 0; a < dim; a++)
					e += 0.5 * o[1 + dim + a] * o[1 + dim + a];
				double w2 = vorticity2<dim>(q, x.u);
				want["<energy>"].add(q.w * e);
				want["<energy^2>"].add(q.w * e * e);
				want["<enstrophy>"].add(q.w * w2);
				want["<enstrophy^2>"].add(q.w * w2 * w2);
			}
			for (auto& l : legend) {
				double got = v[l.first - 1];
				if (l.second == "iteration")
					CHECK(got == i, "global turbulence table: iteration " << got);
				else if (l.second == "time")
					PRINTED(got, x.time, x.time, "global turbulence table: time");
				else {
					CHECK(want.count(l.second), "unknown column " << l.second);
					Sum w = want[l.second];
					// derivatives of nearly constant fields are rounding errors
					double eps = 1e-12, sc = std::pow(1 / r.s.hmin() + 1, 4) * std::pow(cs + 1, 4) * vol;
					CLOSE(got, w.v, 6e-6 * std::fabs(w.v) + 1e-9 * w.m + eps * sc, "column " << l.first << " (" << l.second << ") in iteration " << i);
				}
			}
		}
		c.label("global turbulence");
	}
	if (planes) {
		comments.clear();
		std::vector<VD> t = read_table(dir + "/turbulence_table.txt", comments);
		CHECK(t.size() == r.steps / interval + 1, "turbulence table has " << t.size() << " lines");
		size_t line = 0;
		for (size_t i = 0; i <= r.steps; i += interval, line++) {
			const VD& v = t[line];
			CHECK(v.size() == 2 + 2 * dim * coords.size(), "turbulence table: columns " << v.size());
			CHECK(v[0] == i, "turbulence table: iteration " << v[0] << " instead of " << i);
			PRINTED(v[1], i * r.set.dt, i * r.set.dt, "time in the turbulence table");
			if (!i)
				continue;
			const auto& x = rec.at(i);
			for (size_t p = 0; p < coords.size(); p++)
				for (size_t a = 0; a < dim; a++) {
					double n = 0, mean = 0, rms = 0;
					for (auto& pt : points)
						if (std::fabs(pt.second[axis] - coords[p]) < 1e-6 * r.s.hmin()) {
							n++;
							mean += x.u[a][pt.first];
						}
					mean /= n;
					for (auto& pt : points)
						if (std::fabs(pt.second[axis] - coords[p]) < 1e-6 * r.s.hmin())
							rms += std::pow(x.u[a][pt.first] - mean, 2) / n;
					PRINTED(v[2 + p * dim + a], mean, cs, "mean velocity " << a << " in the plane at " << coords[p] << " in iteration " << i);
					PRINTED(v[2 + dim * coords.size() + p * dim + a], std::sqrt(rms), 100 * cs, "velocity fluctuation " << a << " in the plane at " << coords[p] << " in iteration " << i);
				}
		}
		c.label("planes");
	}
	if (kind == 1) {
		comments.clear();
		std::vector<VD> t = read_table(dir + "/compressible_turbulence_table.txt", comments);
		std::map<size_t, std::string> legend = read_legend(dir + "/compressible_turbulence_table.legend");
		CHECK(t.size() == r.steps / interval, "compressible turbulence table has " << t.size() << " lines");
		size_t line = 0;
		for (size_t i = interval; i <= r.steps; i += interval, line++) {
			const auto& x = rec.at(i);
			const VD& v = t[line];
			CHECK(legend.size() == v.size() && legend.begin()->first == 1 && legend.rbegin()->first == v.size(),
					"the legend describes " << legend.size() << " columns up to " << legend.rbegin()->first << ", the table has " << v.size());
			std::map<std::string, double> want;
			want["iteration"] = i;
			want["time"] = x.time;
			for (auto& q : qs) {
				double T = q.value(x.T), mu = 1.402 * std::pow(T, 1.5) / (T + 0.40417), d = 0, u2 = 0;
				for (size_t a = 0; a < dim; a++) {
					d += q.derivative(x.u[a], a);
					u2 += std::pow(q.value(x.u[a]), 2);
				}
				want["<dilatation>"] += q.w * mu * d * d;
				want["<solenoidal>"] += q.w * mu * vorticity2<dim>(q, x.u);
				want["maxMach"] = std::max(want["maxMach"], std::sqrt(u2 / (r.set.gamma * T)));
				want["totalEnergy"] += q.w * T;
			}
			for (auto& l : legend) {
				CHECK(want.count(l.second), "unknown column " << l.second);
				double es = 1e-10 * std::pow(cs / r.s.hmin(), 2) * vol;
				PRINTED(v[l.first - 1], want[l.second], std::fabs(want[l.second]) + es, "column " << l.first << " (" << l.second << ") in iteration " << i);
			}
		}
		c.label("compressible");
	}
	if (kind >= 2) {
		comments.clear();
		std::vector<VD> t = read_table(dir + "/errors_table.txt", comments);
		CHECK(t.size() == r.steps / interval + 1, "table of errors has " << t.size() << " lines");
		size_t line = 0;
		for (size_t i = 0; i <= r.steps; i += interval, line++) {
			const VD& v = t[line];
			CHECK(v.size() == 7, "table of errors: columns " << v.size());
			CHECK(v[0] == i, "table of errors: iteration " << v[0] << " instead of " << i);
			PRINTED(v[1], i * r.set.dt, i * r.set.dt, "time in the table of errors");
			if (!i)
				continue;
			const auto& x = rec.at(i);
			arho->set_time(x.time);
			au->set_time(x.time);
			double mu = 0, eu = 0, er = 0, l2u = 0, l2r = 0;
			for (auto& pt : points) {
				double n2 = 0, d2 = 0;
				for (size_t a = 0; a < dim; a++) {
					double w = au->value(pt.second, a);
					n2 += w * w;
					d2 += std::pow(w - x.u[a][pt.first], 2);
				}
				mu = std::max(mu, std::sqrt(n2));
				eu = std::max(eu, std::sqrt(d2));
				er = std::max(er, std::fabs(arho->value(pt.second) - x.rho[pt.first]));
			}
			for (auto& q : qs) {
				l2r += q.w * std::pow(q.value(x.rho) - arho->value(q.x), 2);
				for (size_t a = 0; a < dim; a++)
					l2u += q.w * std::pow(q.value(x.u[a]) - au->value(q.x, a), 2);
			}
			PRINTED(v[2], mu, mu, "largest analytic velocity in iteration " << i);
			PRINTED(v[3], eu, cs, "largest error of the velocity in iteration " << i);
			PRINTED(v[4], er, 1, "largest error of the density in iteration " << i);
			PRINTED(v[5], std::sqrt(l2u), cs * std::sqrt(vol), "L2 error of the velocity in iteration " << i);
			PRINTED(v[6], std::sqrt(l2r), std::sqrt(vol), "L2 error of the density in iteration " << i);
		}
		// the getters
		double l2 = 0, have = 0;
		size_t number = 0;
		if (bench) {
			bench->getErrorStats()->update();
			have = bench->getErrorStats()->getL2UAnalytic();
			number = bench->getErrorStats()->getIterationNumber();
		} else {
			cbench->getCompressibleErrorStats()->update();
			have = cbench->getCompressibleErrorStats()->getL2UAnalytic();
			number = cbench->getCompressibleErrorStats()->getIterationNumber();
		}
		au->set_time(rec.at(r.steps).time);
		for (auto& pt : points)
			for (size_t a = 0; a < dim; a++)
				l2 += std::pow(au->value(pt.second, a), 2);
		CLOSE(have, std::sqrt(l2), 1e-10 * std::sqrt(l2) + 1e-300, "2-norm of the analytic velocities");
		CHECK(number == r.steps, "iteration number of the errors " << number);
		c.label("benchmark");
	}
	c.nontrivial = r.steps >= interval;
}
LAW(tables2d, 400, 8000, 6) {
	tables<2>(g, c, 16, 0);
}
LAW(tables3d, 60, 1500, 6) {
	tables<3>(g, c, 8, 0);
}
LAW(compressible2d, 200, 4000, 6) {
	tables<2>(g, c, 16, 1);
}
LAW(compressible3d, 40, 800, 4) {
	tables<3>(g, c, 8, 1);
}
LAW(errors2d, 300, 6000, 6) {
	tables<2>(g, c, 16, 2);
}
LAW(errors3d, 60, 1200, 6) {
	tables<3>(g, c, 8, 2);
}
LAW(compressible_errors2d, 150, 3000, 6) {
	tables<2>(g, c, 16, 3);
}
LAW(compressible_errors3d, 30, 600, 4) {
	tables<3>(g, c, 8, 3);
}
HARNESS_MAIN
