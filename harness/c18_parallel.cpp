// C18: the number of MPI processes has no influence on results
#include "solver.h"
#include "mpiworkers.h"
#include "benchbox.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/PhysicalProperties.h"
#include "natrium/advection/SEDGMinLee.h"
using namespace slv;
typedef std::vector<double> VD;

/// natrium_errorexit ends with MPI_Abort
extern "C" int MPI_Abort(MPI_Comm, int) {
	throw std::runtime_error("the program stopped with an error");
}

namespace {
std::vector<VD> read_table(const std::string& file) {
	std::ifstream in(file);
	std::vector<VD> r;
	std::string line;
	while (std::getline(in, line)) {
		if (line.size() && line[0] == '#')
			continue;
		std::istringstream s(line);
		VD v;
		std::string w;
		while (s >> w)
			v.push_back(strtod(w.c_str(), 0));
		r.push_back(v);
	}
	return r;
}

/// owned points of all owned cells, by cell and number in the cell
template<size_t dim> std::map<std::string, size_t> owned(const AdvectionOperator<dim>& op) {
	std::map<std::string, size_t> r;
	const dealii::DoFHandler<dim>& dh = *op.getDoFHandler();
	std::vector<dealii::types::global_dof_index> dofs(dh.get_fe().dofs_per_cell);
	for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
		if (!cell->is_locally_owned())
			continue;
		cell->get_dof_indices(dofs);
		for (size_t k = 0; k < dofs.size(); k++)
			if (dh.locally_owned_dofs().is_element(dofs[k]))
				r[cell->id().to_string() + "/" + std::to_string(k)] = dofs[k];
	}
	return r;
}

struct Extra {
	bool sedg = false, compressible = false, tables = false, local = false;
	size_t deal = 0, filter = 0, interval = 1, axis = 0;
	TimeIntegratorName integrator = RUNGE_KUTTA_5STAGE;
	VD planes;
	bool moving = false, limiter = false, bench = false;
	double omega = 0;
};

/// is some path so near to a wall that rounding errors decide
template<size_t dim> bool doubtful(const BoxSpec<dim>& s, const AdvectionOperator<dim>& op, const Stencil& st, double dt) {
	bool any = false;
	for (size_t a = 0; a < dim; a++)
		any |= s.wall[a];
	if (!any)
		return false;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pts;
	const_cast<AdvectionOperator<dim>&>(op).mapDoFsToSupportPoints(pts);
	for (auto& p : pts)
		for (size_t i = 1; i < st.getQ(); i++) {
			double x[3], e[3];
			for (size_t a = 0; a < dim; a++) {
				x[a] = p.second[a];
				e[a] = st.getDirection(i)(a);
			}
			if (sl::trace<dim>(s, x, e, dt).doubtful)
				return true;
		}
	return false;
}

template<size_t dim> void gen_case(Gen& g, Run<dim>& r, Extra& x, std::ostream& o, size_t cells, bool compressible) {
	x.compressible = compressible;
	gen_run<dim>(g, r, compressible ? coll::compressible() : coll::isothermal(), cells);
	coll::Setup& s = r.set;
	if (compressible) {
		s.F.clear();
		s.forcing = NO_FORCING;
		s.compressible = true;
		s.gamma = 1.4;
		for (size_t a = 0; a < dim; a++) {
			r.s.wall[a] = false;
			while (r.s.cells(a) < 2) {
				r.s.reps[a]++;
				r.s.len[a] *= 2;
			}
		}
	}
	x.sedg = !compressible && g.chance(25);
	if (x.sedg) {
		r.pts = GAUSS_LOBATTO_POINTS;
		r.ptn = "Gauss-Lobatto";
		if (r.s.shape)
			r.s.shape = 0;
	}
	bool all = true;
	for (size_t a = 0; a < dim; a++)
		all &= r.s.wall[a];
	x.local = false; // on the faces between refinement levels the value depends on the cell from which one looks
	if (x.local) {
		for (size_t a = 0; a < dim; a++) {
			r.s.wall[a] = true;
		}
		r.s.shape = 0;
		size_t n = g.range(1, 2);
		for (size_t k = 0; k < n; k++) {
			std::array<double, dim> q;
			for (size_t a = 0; a < dim; a++)
				q[a] = g.real(0, 0.999, 0.1);
			r.s.local.push_back(q);
		}
	}
	r.rho->s = r.u->s = r.s;
	double um = s.st->getMaxParticleVelocityMagnitude();
	double cc = x.sedg ? g.real(0.05, 0.3, 0.1) : g.chance(80) ? g.real(0.05, 0.95, 0.5) : g.logreal(1e-3, 0.99, 0.1);
	r.cfl = cc * um / sl::emax<dim>(*s.st) * (x.sedg ? 1 : r.order * r.order);
	s.set_tau(s.tau, r.cfl * min_edge(r.s) / (um * r.order * r.order));
	if (compressible) {
		r.T = boost::make_shared<Wave<dim> >(r.s, 1);
		r.T->gen(g, 0, 1, 0.05, 0.05);
	}
	x.tables = g.chance(50);
	x.interval = g.range(1, 3);
	x.axis = g.draw(dim);
	if (x.sedg && g.chance(60))
		x.integrator = std::vector<TimeIntegratorName> { THETA_METHOD, EXPONENTIAL, OTHER }[g.draw(3)];
	x.deal = g.draw(12);
	if (g.chance(20))
		x.filter = g.range(1, 2);
	if (x.tables && g.chance(50))
		x.planes = gen_planes<dim>(g, r, x.axis);
	x.limiter = compressible && g.chance(20);
	x.bench = !compressible && s.F.empty() && g.chance(25);
	if (x.bench)
		x.omega = g.real(-2, 2, 1.0) / (s.dt * r.steps);
	bool walls = false;
	for (size_t a = 0; a < dim; a++)
		walls |= r.s.wall[a];
	x.moving = walls && !x.bench && g.chance(40);
	if (x.moving) {
		const double cs = std::sqrt(s.st->getSpeedOfSoundSquare());
		std::vector<boost::shared_ptr<WallVelocity<dim> > > wu;
		for (size_t w = 0; w < 2 * dim; w++) {
			wu.push_back(boost::make_shared<WallVelocity<dim> >());
			for (size_t a = 0; a < dim; a++) {
				wu[w]->a[a] = cs * g.real(-0.2, 0.2, 0.1);
				wu[w]->bt[a] = g.chance(60) ? cs / s.dt * g.real(-0.05, 0.05, 0.01) : 0;
				for (size_t b = 0; b < dim; b++)
					wu[w]->bx[a][b] = cs / r.s.len[b] * g.real(-0.1, 0.1, 0.05);
			}
		}
		r.s.boundary = [wu](size_t w) -> boost::shared_ptr<Boundary<dim> > {
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(wu[w]));
		};
		o << "moving walls, ";
	}
	r.describe(o);
	if (x.bench)
		o << ", benchmark with errors";
	if (x.limiter)
		o << ", limiter";
	if (x.planes.size())
		o << ", statistics on " << x.planes.size() << " planes";
	if (x.sedg)
		o << ", SEDG with integrator " << x.integrator << "/" << x.deal;
	if (x.filter)
		o << ", exponential filter every " << x.filter;
	if (x.tables)
		o << ", tables every " << x.interval;
}

template<size_t dim> void run_case(Gen& g, par::Report& rep, const std::string& dir, size_t cells, bool compressible) {
	Run<dim> r;
	Extra x;
	std::ostringstream o;
	o.precision(10);
	gen_case<dim>(g, r, x, o, cells, compressible);
	rep.texts["case"] = o.str();
	if (x.filter && !x.sedg)
		rep.texts["key"] = "filter on continuous elements";
	coll::Setup& s = r.set;
	r.make_config();
	if (x.sedg) {
		r.cfg->setAdvectionScheme(SEDG);
		r.cfg->setTimeIntegrator(x.integrator);
		if (x.integrator == OTHER)
			r.cfg->setDealIntegrator((DealIntegratorName) x.deal);
	}
	if (x.filter) {
		r.cfg->setFiltering(true);
		r.cfg->setFilteringScheme(EXPONENTIAL_FILTER);
		r.cfg->setExponentialFilterAlpha(2);
		r.cfg->setExponentialFilterS(2);
		r.cfg->setExponentialFilterNc(1);
		r.cfg->setFilterInterval(x.filter);
	}
	if (compressible)
		r.cfg->setHeatCapacityRatioGamma(s.gamma);
	if (x.tables) {
		if (par::rank() == 0) {
			boost::filesystem::remove_all(dir);
			boost::filesystem::create_directory(dir);
		}
		MPI_Barrier(MPI_COMM_WORLD);
		r.cfg->setSwitchOutputOff(false);
		r.cfg->setOutputDirectory(dir);
		r.cfg->setOutputTableInterval(x.interval);
		r.cfg->setOutputSolutionInterval(200000000);
		r.cfg->setOutputCheckpointInterval(200000000);
		r.cfg->setOutputGlobalTurbulenceStatistics(true);
		if (compressible)
			r.cfg->setOutputCompressibleTurbulenceStatistics(true);
		if (x.planes.size()) {
			r.cfg->setOutputTurbulenceStatistics(true);
			r.cfg->setWallNormalDirection(x.axis);
			r.cfg->setWallNormalCoordinates(x.planes);
		}
	}
	if (x.limiter)
		r.cfg->setVmultLimiter(true);
	r.make_problem();
	boost::shared_ptr<CFDSolver<dim> > solver;
	boost::shared_ptr<CompressibleCFDSolver<dim> > comp;
	boost::shared_ptr<BenchmarkCFDSolver<dim> > bench;
	if (compressible)
		solver = comp = boost::make_shared<CompressibleCFDSolver<dim> >(r.cfg, r.pb);
	else if (x.bench)
		solver = bench = boost::make_shared<BenchmarkCFDSolver<dim> >(r.cfg, boost::make_shared<BenchmarkBox<dim> >(r.s, s.nu, boost::make_shared<Travelling<dim> >(*r.rho, x.omega),
				boost::make_shared<Travelling<dim> >(*r.u, -0.5 * x.omega)));
	else
		solver = boost::make_shared<CFDSolver<dim> >(r.cfg, r.pb);
	const size_t Q = s.si->Q;
	if (par::size() == 1 && !x.sedg && doubtful(r.s, *solver->getAdvectionOperator(), *s.st, solver->getTimeStepSize()))
		throw pbt::Discard();
	if (comp)
		comp->run();
	else
		solver->run();
	for (auto& d : owned(*solver->getAdvectionOperator())) {
		VD& v = rep.points[d.first];
		for (size_t q = 0; q < Q; q++)
			v.push_back(solver->getF().at(q)(d.second));
		v.push_back(solver->getDensity()(d.second));
		for (size_t a = 0; a < dim; a++)
			v.push_back(solver->getVelocity()[a](d.second) / s.scaling);
		if (comp) {
			v.push_back(comp->getTemperature()(d.second));
			for (size_t q = 0; q < Q; q++)
				v.push_back(comp->getG().at(q)(d.second));
		}
	}
	const auto& op = *solver->getAdvectionOperator();
	rep.numbers["iteration"] = { (double) solver->getIteration() };
	rep.numbers["time"] = { solver->getTime(), solver->getTimeStepSize() };
	rep.numbers["own"] = { (double) op.getDoFHandler()->locally_owned_dofs().n_elements() };
	rep.numbers["number of points"] = { (double) solver->getNumberOfDoFs() };
	rep.numbers["largest velocity"] = { solver->getMaxVelocityNorm() / s.scaling };
	rep.numbers["density range"] = { solver->getMaxDensityDeviationFrom(1.0) };
	rep.numbers["mass"] = { PhysicalProperties<dim>::mass(solver->getDensity(), solver->getAdvectionOperator()) };
	rep.numbers["Q"] = { (double) Q };
	rep.numbers["tolerance"] = { 1e-12 * (1 + 2 / s.tau) * std::pow(3.0, (double) r.steps) };
	if (x.sedg && x.integrator != RUNGE_KUTTA_5STAGE)
		rep.numbers["tolerance"][0] += 1e-5;
	if (x.tables && par::rank() == 0)
		for (std::string f : { "results_table", "global_turbulence_table", "compressible_turbulence_table", "turbulence_table", "errors_table" }) {
			size_t k = 0;
			for (auto& line : read_table(dir + "/" + f + ".txt"))
				rep.numbers["table/" + f + "/" + std::to_string(k++)] = line;
		}
}
}

namespace {
/// what a value may differ
struct Tolerance {
	double points = 1e-11, numbers = 1e-10, printed = 3e-5;
};

void check_processes(Ctx& c, const char* name, size_t n, const par::Report& one, const Tolerance& t, const std::vector<uint64_t>& choices, const std::string& dir) {
	std::vector<par::Report> r;
	std::string bad = par::Pool::get().run(n, name, choices, dir, r, 40);
	CHECK(bad.empty(), bad);
	std::set<std::string> seen;
	for (size_t k = 0; k < n; k++) {
		CHECK(r[k].refused.empty(), "process " << k << ": " << r[k].refused);
		CHECK(r[k].texts == one.texts, "the harness generated another case on process " << k << ": " << r[k].texts["case"]);
		for (auto& x : r[k].numbers) {
			if (x.first == "own")
				continue;
			auto f = one.numbers.find(x.first);
			CHECK(f != one.numbers.end(), x.first << " exists on process " << k << " of " << n << ", but not on a single process");
			CHECK(f->second.size() == x.second.size(), x.first << ": " << x.second.size() << " instead of " << f->second.size() << " values");
			bool printed = x.first.compare(0, 6, "table/") == 0;
			double scale = 0;
			for (size_t i = 0; i < x.second.size(); i++)
				scale = std::max(scale, printed ? 1e-6 : 0);
			for (size_t i = 0; i < x.second.size(); i++)
				if (!(std::isnan(x.second[i]) && std::isnan(f->second[i]))) // entropy of negative populations
				CLOSE(x.second[i], f->second[i], printed ? t.printed * std::fabs(f->second[i]) + t.numbers * (1 + scale) : t.numbers * (1 + std::fabs(f->second[i])),
						x.first << " (value " << i << ") of process " << k);
		}
		for (auto& p : r[k].points) {
			auto f = one.points.find(p.first);
			CHECK(f != one.points.end(), "process " << k << " owns the unknown point " << p.first);
			CHECK(f->second.size() == p.second.size(), "values at the point " << p.first);
			seen.insert(p.first);
			for (size_t i = 0; i < p.second.size(); i++)
				CLOSE(p.second[i], f->second[i], t.points * (1 + std::fabs(f->second[i])), "value " << i << " of " << p.second.size() << " at point (cell/number) " << p.first << " of process " << k);
		}
	}
	for (auto& x : one.numbers) {
		CHECK(r[0].numbers.count(x.first), x.first << " does not exist with " << n << " processes");
		if (x.first.compare(0, 6, "table/"))
			for (auto& y : r)
				CHECK(y.numbers.count(x.first), x.first << " does not exist on every process");
	}
	// a point of several cells counts in one of them
	std::set<std::string> places;
	size_t owned = 0, all = 0;
	for (auto& y : r) {
		owned += y.numbers.at("own")[0];
	}
	all = one.numbers.at("number of points")[0];
	CHECK(owned == all, "the processes own " << owned << " points instead of " << all);
	c.label(std::to_string(n) + " processes");
	size_t busy = 0;
	for (auto& y : r)
		busy += !y.points.empty();
	c.nontrivial = busy > 1;
	if (busy < n)
		c.label("idle processes");
}
void compare(Gen& g, Ctx& c, const char* name, const std::vector<size_t>& processes, std::function<void(const par::Report&, Tolerance&)> look) {
	const size_t n = processes[g.draw(64) % processes.size()];
	const std::string dir = std::string(getenv("PBT_SCRATCH")) + "/out";
	c.key = name;
	par::Report one;
	bool refused = false;
	try {
		par::cases().at(name)(g, one, dir);
	} catch (pbt::Discard&) {
		throw;
	} catch (std::exception& e) {
		refused = true;
		one.refused = e.what();
	}
	c.desc << n << " processes, " << one.texts["case"];
	if (one.texts.count("key"))
		c.key = one.texts["key"];
	if (refused) // the other checks decide whether that is right
		throw pbt::Discard();
	Tolerance t;
	look(one, t);
	check_processes(c, name, n, one, t, g.out, dir + std::to_string(n));
}
inline void stable(const par::Report& one, size_t Q) {
	for (auto& p : one.points)
		if (!(p.second[Q] > 0.2 && p.second[Q] < 5))
			throw pbt::Discard();
}
inline void look(const par::Report& one, Tolerance& t) {
	stable(one, one.numbers.at("Q")[0]);
	t.points = one.numbers.at("tolerance")[0];
	t.numbers = 10 * t.points;
}
}
namespace {
/// a run in one or two parts
template<size_t dim> void resume_case(Gen& g, par::Report& rep, const std::string& dir, size_t cells, int part /* 0 whole, 1 first, 2 second */) {
	Run<dim> r;
	const bool compressible = g.chance(30), dg = !compressible && g.chance(30);
	gen_flow<dim>(g, r, compressible, cells);
	if (dg) {
		r.pts = GAUSS_LOBATTO_POINTS;
		r.ptn = "Gauss-Lobatto";
		r.s.shape = 0;
		r.cfl = g.real(0.05, 0.3, 0.2);
		r.set.set_tau(r.set.tau, r.cfl * min_edge(r.s) / (r.set.st->getMaxParticleVelocityMagnitude() * r.order * r.order));
	}
	const size_t N = g.range(2, 6), stop = 1 + g.draw(N - 1);
	r.steps = N;
	std::ostringstream o;
	o.precision(10);
	r.describe(o);
	o << (dg ? ", SEDG" : "") << ", stopped at " << stop;
	rep.texts["case"] = o.str();
	r.make_config();
	if (dg) {
		r.cfg->setAdvectionScheme(SEDG);
		r.cfg->setQuadrature(QGAUSS_LOBATTO);
		r.cfg->setTimeIntegrator(RUNGE_KUTTA_5STAGE);
	}
	if (compressible) {
		r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
		r.cfg->setPrandtlNumber(1.0);
	}
	r.cfg->setSwitchOutputOff(false);
	if (par::rank() == 0 && part < 2) {
		boost::filesystem::remove_all(dir);
		boost::filesystem::create_directory(dir);
	}
	MPI_Barrier(MPI_COMM_WORLD);
	r.cfg->setOutputDirectory(dir);
	r.cfg->setOutputTableInterval(1000000);
	r.cfg->setOutputSolutionInterval(200000000);
	r.cfg->setOutputCheckpointInterval(part == 1 ? 1000 : 200000000);
	r.cfg->setNumberOfTimeSteps(part == 1 ? stop : N);
	r.cfg->setRestartAtIteration(part == 2 ? stop : 0);
	r.make_problem();
	boost::shared_ptr<CFDSolver<dim> > solver;
	boost::shared_ptr<CompressibleCFDSolver<dim> > comp;
	if (compressible)
		solver = comp = boost::make_shared<CompressibleCFDSolver<dim> >(r.cfg, r.pb);
	else
		solver = boost::make_shared<CFDSolver<dim> >(r.cfg, r.pb);
	if (par::size() == 1 && !dg && doubtful(r.s, *solver->getAdvectionOperator(), *r.set.st, solver->getTimeStepSize()))
		throw pbt::Discard();
	if (comp)
		comp->run();
	else
		solver->run();
	const size_t Q = r.set.si->Q;
	for (auto& d : owned(*solver->getAdvectionOperator())) {
		VD& v = rep.points[d.first];
		for (size_t q = 0; q < Q; q++)
			v.push_back(solver->getF().at(q)(d.second));
		v.push_back(solver->getDensity()(d.second));
		for (size_t a = 0; a < dim; a++)
			v.push_back(solver->getVelocity()[a](d.second) / r.set.scaling);
		if (comp) {
			v.push_back(comp->getTemperature()(d.second));
			for (size_t q = 0; q < Q; q++)
				v.push_back(comp->getG().at(q)(d.second));
		}
	}
	rep.numbers["own"] = { (double) solver->getAdvectionOperator()->getDoFHandler()->locally_owned_dofs().n_elements() };
	rep.numbers["number of points"] = { (double) solver->getNumberOfDoFs() };
	rep.numbers["Q"] = { (double) Q };
	rep.numbers["tolerance"] = { 1e-11 * (1 + 2 / r.set.tau) * std::pow(3.0, (double) r.steps) };
	rep.numbers["iteration"] = { (double) solver->getIteration() };
	rep.numbers["time"] = { solver->getTime() };
}
void resume(Gen& g, Ctx& c, const std::string& name) {
	const size_t k = g.draw(64), writers = 1 + k % 4, readers = k / 4 % 4 + 1;
	const std::string dir = std::string(getenv("PBT_SCRATCH")) + "/ckp";
	c.key = "resume";
	par::Report whole;
	par::cases().at(name + "_0")(g, whole, dir + "_whole");
	c.desc << writers << " processes stop, " << readers << " processes resume, " << whole.texts["case"];
	Tolerance t;
	t.points = whole.numbers.at("tolerance")[0];
	t.numbers = 10 * t.points;
	stable(whole, whole.numbers.at("Q")[0]);
	if (writers == 1 && readers == 1)
		throw pbt::Discard(); // C13
	if (writers == 1) {
		par::Report first = par::execute(name + "_1", g.out, dir);
		CHECK(first.refused.empty(), "first part: " << first.refused);
	} else {
		std::vector<par::Report> first;
		std::string bad = par::Pool::get().run(writers, name + "_1", g.out, dir, first, 40);
		CHECK(bad.empty(), "first part: " << bad);
		for (auto& x : first)
			CHECK(x.refused.empty(), "first part: " << x.refused);
	}
	if (readers == 1) {
		par::Report r = par::execute(name + "_2", g.out, dir);
		CHECK(r.refused.empty(), "resumed: " << r.refused);
		for (auto& p : whole.points)
			for (size_t i = 0; i < p.second.size(); i++)
				CLOSE(r.points.at(p.first)[i], p.second[i], t.points * (1 + std::fabs(p.second[i])), "value " << i << " at point " << p.first);
		c.nontrivial = true;
	} else
		check_processes(c, (name + "_2").c_str(), readers, whole, t, g.out, dir);
	c.label(std::to_string(writers) + " -> " + std::to_string(readers));
}
}
#define RESUME(dim, cells, quick, thorough, shards) \
	CASE(resume##dim##d_0) { resume_case<dim>(g, r, dir, cells, 0); } \
	CASE(resume##dim##d_1) { resume_case<dim>(g, r, dir, cells, 1); } \
	CASE(resume##dim##d_2) { resume_case<dim>(g, r, dir, cells, 2); } \
	LAW(resume##dim##d, quick, thorough, shards) { resume(g, c, "resume" #dim "d"); }
RESUME(2, 30, 200, 4000, 3)
RESUME(3, 12, 40, 500, 2)

CASE(flow2d) {
	run_case<2>(g, r, dir, 40, false);
}
LAW(flow2d, 400, 8000, 4) {
	compare(g, c, "flow2d", { 2, 3, 4 }, look);
}
CASE(flow3d) {
	run_case<3>(g, r, dir, 16, false);
}
LAW(flow3d, 100, 1000, 4) {
	compare(g, c, "flow3d", { 2, 3, 4 }, look);
}
CASE(compressible2d) {
	run_case<2>(g, r, dir, 30, true);
}
LAW(compressible2d, 100, 2000, 2) {
	compare(g, c, "compressible2d", { 2, 3, 4 }, look);
}
CASE(compressible3d) {
	run_case<3>(g, r, dir, 12, true);
}
LAW(compressible3d, 20, 200, 2) {
	compare(g, c, "compressible3d", { 2, 3, 4 }, look);
}
WORKER_MAIN
