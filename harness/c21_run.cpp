// C21: when a run stops and what it writes.
#include "solver.h"
#include "benchbox.h"
#include "vtu.h"
#include <filesystem>
#include "natrium/dataprocessors/DataProcessor.h"
using namespace slv;
namespace fs = std::filesystem;

extern "C" int MPI_Abort(MPI_Comm, int) {
	throw std::runtime_error("MPI_Abort");
}
static std::string fresh_dir() {
	const std::string dir = std::string(getenv("PBT_SCRATCH")) + "/out";
	fs::remove_all(dir);
	return dir;
}

template<size_t dim> V temperature(const CFDSolver<dim>& s) {
	auto c = dynamic_cast<const CompressibleCFDSolver<dim>*>(&s);
	V r;
	if (c)
		for (size_t i = 0; i < s.getNumberOfDoFs(); i++)
			r.push_back(c->getTemperature()(i));
	return r;
}

/// notes everything a data processor sees
template<size_t dim> struct Note {
	size_t who, iteration;
	double time;
	V rho, T;
	VV u;
};
template<size_t dim> class Observer: public DataProcessor<dim> {
	std::vector<Note<dim> >& m_notes;
	size_t m_who;
public:
	Observer(CFDSolver<dim>& s, std::vector<Note<dim> >& n, size_t who) :
			DataProcessor<dim>(s), m_notes(n), m_who(who) {
	}
	void apply() override {
		const CFDSolver<dim>& s = this->m_solver;
		Note<dim> n { m_who, s.getIteration(), s.getTime(), V(), V(), VV(dim) };
		if (m_who == 0) {
			for (size_t i = 0; i < s.getNumberOfDoFs(); i++) {
				n.rho.push_back(s.getDensity()(i));
				for (size_t a = 0; a < dim; a++)
					n.u[a].push_back(s.getVelocity()[a](i));
			}
			n.T = temperature<dim>(s);
		}
		m_notes.push_back(n);
	}
};

struct Intervals {
	size_t solution, table, checkpoint;
};
template<size_t dim> struct Plan {
	Run<dim> r;
	bool dg = false, compressible = false, benchmark = false;
	size_t N;
	double end, threshold;
	size_t observers;
	boost::shared_ptr<CFDSolver<dim> > solver;
	std::vector<Note<dim> > notes;
	boost::shared_ptr<Travelling<dim> > ex_u, ex_rho;
	void generate(Gen& g, Ctx& c, size_t cells, bool longer) {
		compressible = g.chance(dim == 2 ? 25 : 10);
		benchmark = g.chance(25);
		gen_flow<dim>(g, r, compressible, cells);
		if (longer && r.order > 2)
			r.order = 2;
		dg = !compressible && g.chance(25);
		if (dg) {
			r.pts = GAUSS_LOBATTO_POINTS;
			r.ptn = "Gauss-Lobatto";
			r.s.local.clear();
			r.cfl = 0.2;
		}
		coll::Setup& s = r.set;
		if (longer && g.chance(20))
			for (size_t a = 0; a < dim; a++)
				r.u->comp[a].c1 = 0, r.rho->comp[0].c1 = 0;
		double dt = r.cfl * min_edge(r.s) / (s.st->getMaxParticleVelocityMagnitude() * r.order * r.order);
		s.set_tau(longer ? 0.6 + g.logreal(0.1, 5, 1) : s.tau, dt);
		observers = g.range(1, 3);
	}
	void build(Gen& g, Ctx& c, const std::string& dir, Intervals iv) {
		r.make_config();
		if (dg)
			r.cfg->setAdvectionScheme(SEDG);
		if (compressible) {
			r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
			r.cfg->setPrandtlNumber(1.0);
		}
		r.cfg->setNumberOfTimeSteps(N);
		r.cfg->setSimulationEndTime(end);
		r.cfg->setConvergenceThreshold(threshold);
		if (iv.solution) {
			r.cfg->setOutputSolutionInterval(iv.solution);
			r.cfg->setOutputTableInterval(iv.table);
			r.cfg->setOutputCheckpointInterval(iv.checkpoint);
		}
		r.cfg->setOutputDirectory(dir);
		r.make_problem();
		if (compressible && benchmark) {
			ex_rho = boost::make_shared<Travelling<dim> >(*r.rho, 1.3 / r.set.dt);
			ex_u = boost::make_shared<Travelling<dim> >(*r.u, 0.7 / r.set.dt);
			auto box = boost::make_shared<BenchmarkBox<dim, CompressibleBenchmark<dim> > >(r.s, r.set.nu, ex_rho, ex_u);
			if (r.T)
				box->T(r.T);
			solver = boost::make_shared<BenchmarkCompressibleCFDSolver<dim> >(r.cfg, box);
		} else if (compressible)
			solver = boost::make_shared<CompressibleCFDSolver<dim> >(r.cfg, r.pb);
		else if (benchmark) {
			Wave<dim> wr = *r.rho, wu = *r.u;
			ex_rho = boost::make_shared<Travelling<dim> >(wr, 1.3 / r.set.dt);
			ex_u = boost::make_shared<Travelling<dim> >(wu, 0.7 / r.set.dt);
			solver = boost::make_shared<BenchmarkCFDSolver<dim> >(r.cfg, boost::make_shared<BenchmarkBox<dim> >(r.s, r.set.nu, ex_rho, ex_u));
		} else
			solver = boost::make_shared<CFDSolver<dim> >(r.cfg, r.pb);
		for (size_t k = 0; k < observers; k++)
			solver->appendDataProcessor(boost::make_shared<Observer<dim> >(*solver, notes, k));
	}
	void run() {
		if (compressible)
			static_cast<CompressibleCFDSolver<dim>*>(solver.get())->run();
		else
			solver->run();
	}
	const char* kind() const {
		return compressible && benchmark ? "compressible benchmark" : compressible ? "compressible" : dg ? "SEDG" : benchmark ? "benchmark" : "semi-Lagrangian";
	}
	/// the notes of the first observer, and that all observers were called in their order once per iteration
	std::vector<const Note<dim>*> history(Ctx& c) const {
		std::vector<const Note<dim>*> h;
		const size_t n = solver->getIteration();
		CHECK(notes.size() == n * observers, notes.size() << " calls of " << observers << " data processors in " << n << " iterations");
		for (size_t k = 0; k < notes.size(); k++) {
			CHECK(notes[k].who == k % observers && notes[k].iteration == k / observers + 1,
					"call " << k << " of a data processor: processor " << notes[k].who << " in iteration " << notes[k].iteration);
			if (k % observers == 0)
				h.push_back(&notes[k]);
		}
		return h;
	}
};

/// the first iteration at which a condition holds
template<size_t dim> void stop(Gen& g, Ctx& c, size_t cells) {
	Plan<dim> p;
	p.generate(g, c, cells, true);
	const double dt = p.r.set.dt;
	p.N = g.chance(60) ? g.range(1, dim == 2 ? 420 : 230) : 1000;
	p.end = g.chance(50) ? dt * g.real(0, dim == 2 ? 420 : 230, 3.5) : 1e8;
	p.threshold = g.chance(70) ? g.logreal(1e-14, 1, 1e-3) * p.r.set.scaling : 1e-30;
	if (p.N == 1000 && p.end > 1e7)
		p.N = 310;
	p.r.describe(c.desc);
	c.desc << ", " << p.kind() << ", time steps " << p.N << ", end time " << p.end / dt << " dt, threshold " << p.threshold;
	c.key = "stop";
	p.build(g, c, fresh_dir(), Intervals { 0, 0, 0 });
	CLOSE(p.solver->getTimeStepSize(), dt, 1e-12 * dt, "time step");
	p.run();
	CHECK(!fs::exists(std::string(getenv("PBT_SCRATCH")) + "/out"), "output was written although it is switched off");
	auto h = p.history(c);
	const size_t n = p.solver->getIteration();
	// the state at the beginning is the initial one
	if (p.benchmark)
		p.ex_u->set_time(0);
	std::string why;
	for (size_t i = 0; i <= n; i++) {
		double t = i == 0 ? 0 : h[i - 1]->time;
		CLOSE(t, i * dt, 1e-10 * (i + 1) * dt, "time after " << i << " iterations");
		why = "";
		if (i >= p.N)
			why = "steps";
		else if (t >= p.end)
			why = "time";
		else if (i % 100 == 0 && i >= 100) {
			double m = 0;
			const size_t nd = h[i - 1]->rho.size();
			if (i == 100 && nd) {
				// compare with the initial state
				for (auto& pt : p.solver->getSupportPoints()) {
					double q = 0;
					for (size_t a = 0; a < dim; a++) {
						double w = p.benchmark ? p.ex_u->value(pt.second, a) : p.r.u->value(pt.second, a);
						q += std::pow(h[i - 1]->u[a][pt.first] - w, 2);
					}
					m = std::max(m, q);
				}
			} else
				for (size_t k = 0; k < nd; k++) {
					double q = 0;
					for (size_t a = 0; a < dim; a++)
						q += std::pow(h[i - 1]->u[a][k] - h[i - 101]->u[a][k], 2);
					m = std::max(m, q);
				}
			m = std::sqrt(m);
			if (!(m < 1e3 * p.r.set.scaling))
				throw pbt::Discard(); // unstable
			double rounding = i == 100 ? 1e-11 * p.r.set.scaling : 1e-15 * p.r.set.scaling;
			if (std::fabs(m - p.threshold) <= 1e-6 * p.threshold + rounding)
				throw pbt::Discard();
			if (m < p.threshold)
				why = "converged";
			if (i == n) {
				CLOSE(p.solver->getResiduumVelocity(), m, 1e-9 * m + rounding, "velocity residual at iteration " << i);
			}
		}
		if (why.size() && i < n) {
			FAIL("the run went on to iteration " << n << " although it had to stop at " << i << " (" << why << ")");
		}
	}
	CHECK(why.size(), "the run stopped at iteration " << n << " for no reason");
	CHECK(p.solver->getTime() == (n ? h[n - 1]->time : 0), "time at the end " << p.solver->getTime());
	c.nontrivial = n > 1;
	c.label(p.kind());
	c.label("stopped by " + why);
}
LAW(stop2d, 400, 6000, 8) {
	stop<2>(g, c, 6);
}
LAW(stop3d, 40, 400, 8) {
	stop<3>(g, c, 4);
}

static size_t interval(Gen& g, size_t n) {
	if (g.chance(15))
		return 1000 + g.draw(1000);
	return g.range(1, n + 2);
}
static size_t lines(const std::string& f) {
	std::ifstream i(f);
	size_t n = 0;
	std::string l;
	while (std::getline(i, l))
		n += !l.empty() && l[0] != '#' && l.find("i ") != 0;
	return n;
}

/// the files of a run and the fields in them
template<size_t dim> void files(Gen& g, Ctx& c, size_t cells) {
	Plan<dim> p;
	p.generate(g, c, cells, false);
	p.N = g.range(1, 9);
	p.end = g.chance(20) ? p.r.set.dt * (g.range(1, 8) - 0.5) : 1e8;
	p.threshold = 1e-30;
	Intervals iv { g.chance(15) ? 200000000 : interval(g, p.N), interval(g, p.N), g.chance(25) ? 200000000 : interval(g, p.N) };
	const bool off = g.chance(10);
	p.r.describe(c.desc);
	c.desc << ", " << p.kind() << ", time steps " << p.N << ", end time " << p.end / p.r.set.dt << " dt, intervals: solution " << iv.solution << ", table " << iv.table << ", checkpoint "
			<< iv.checkpoint << (off ? ", no output" : "");
	c.key = "files";
	const std::string dir = fresh_dir();
	p.r.output = !off;
	p.build(g, c, dir, iv);
	p.run();
	auto h = p.history(c);
	const size_t n = p.solver->getIteration();
	size_t expected = p.N;
	if (p.end < 1e7)
		expected = std::min(p.N, (size_t) std::ceil(p.end / p.r.set.dt));
	CHECK(n == expected, n << " iterations");
	if (off) {
		CHECK(!fs::exists(dir), "output was written although it is switched off");
		c.nontrivial = true;
		c.label("no output");
		return;
	}
	// names
	std::set<std::string> got, want;
	for (auto& e : fs::recursive_directory_iterator(dir)) {
		std::string f = fs::relative(e.path(), dir).string();
		if (f.find(".vtu") != std::string::npos || f.find(".pvtu") != std::string::npos || f.find("checkpoint_") != std::string::npos
				|| f.find("checkpointG_") != std::string::npos || f.find("_table") != std::string::npos)
			got.insert(f);
	}
	size_t rows = 0;
	std::vector<size_t> solutions;
	for (size_t i = 0; i <= n; i++) {
		if ((i % iv.solution == 0 && iv.solution <= 100000000) || i == n) {
			solutions.push_back(i);
			want.insert("t_0." + std::to_string(i) + ".vtu");
			want.insert("t_0." + std::to_string(i) + ".pvtu");
		}
		if (i % iv.table == 0)
			rows++;
		if (i > 0 && iv.checkpoint <= 100000000 && (i % iv.checkpoint == 0 || i == n))
			for (const char* e : { ".data", ".data.info", ".data_fixed.data", ".stat" })
				for (const char* k : { "_", "G_" })
					if (k[0] == '_' || p.compressible)
						want.insert(std::string("checkpoint/checkpoint") + k + std::to_string(i) + e);
	}
	want.insert("results_table.txt");
	if (p.benchmark)
		want.insert("errors_table.txt");
	std::string diff;
	for (auto& f : want)
		if (!got.count(f))
			diff += " missing " + f;
	for (auto& f : got)
		if (!want.count(f))
			diff += " unexpected " + f;
	CHECK(diff.empty(), "files:" << diff);
	if (!p.compressible)
		CHECK(fs::exists(dir + "/grid.vtk"), "no grid.vtk");
	CHECK(lines(dir + "/results_table.txt") == rows, "lines of the results table: " << lines(dir + "/results_table.txt") << ", expected " << rows);
	// contents
	const sl::Cells<dim> cl(*p.solver->getAdvectionOperator());
	const auto nd = sl::nodes(p.r.pts, p.r.order);
	const size_t sub = p.r.order == 1 ? 1 : p.r.order + 1, n1 = sub + 1;
	size_t per_cell = 1, cells_per = 1;
	for (size_t a = 0; a < dim; a++)
		per_cell *= n1, cells_per *= sub;
	for (size_t i : solutions) {
		vtu::File f = vtu::read(dir + "/t_0." + std::to_string(i) + ".vtu");
		c.key = "files/points";
		CHECK(f.points == cl.cells.size() * per_cell && f.cells == cl.cells.size() * cells_per, "iteration " << i << ": " << f.points << " points, " << f.cells << " cells");
		CHECK(f.position.size() == 3 * f.points, "iteration " << i << ": positions of points " << f.position.size());
		// the fields
		std::map<std::string, V> field;
		std::vector<std::string> names = { "rho", "ux", "uy", "uz" };
		names.resize(1 + dim);
		const double scale = p.r.set.scaling, t = i == 0 ? 0 : h[i - 1]->time;
		const size_t nn = p.solver->getNumberOfDoFs();
		if (p.benchmark) {
			p.ex_u->set_time(t);
			p.ex_rho->set_time(t);
		}
		if (i == 0) {
			for (auto& w : names)
				field[w].resize(nn);
			for (auto& pt : cl.points) {
				field["rho"][pt.first] = p.benchmark ? p.ex_rho->value(pt.second) : p.r.rho->value(pt.second);
				for (size_t a = 0; a < dim; a++)
					field[names[1 + a]][pt.first] = p.benchmark ? p.ex_u->value(pt.second, a) : p.r.u->value(pt.second, a);
			}
			if (p.compressible && p.r.set.eq == QUARTIC_EQUILIBRIUM) {
				field["T"].resize(nn);
				for (auto& pt : cl.points)
					field["T"][pt.first] = p.r.T->value(pt.second);
			}
		} else {
			field["rho"] = h[i - 1]->rho;
			for (size_t a = 0; a < dim; a++)
				field[names[1 + a]] = h[i - 1]->u[a];
			if (p.compressible)
				field["T"] = h[i - 1]->T;
		}
		if (p.benchmark) {
			for (size_t a = 0; a <= dim; a++) {
				V& v = field[names[a] + "_analytic"];
				v.resize(nn);
				for (auto& pt : cl.points)
					v[pt.first] = a ? p.ex_u->value(pt.second, a - 1) : p.ex_rho->value(pt.second);
			}
		}
		for (auto& e : field) {
			bool bad = false;
			for (double x : e.second)
				bad |= !(std::fabs(x) < 1e3 * scale);
			if (bad)
				throw pbt::Discard();
		}
		for (auto& e : field) {
			CHECK(f.field.count(e.first), "iteration " << i << ": no field " << e.first);
			CHECK(f.field[e.first].size() == f.points, "iteration " << i << ": field " << e.first << " has " << f.field[e.first].size() << " values");
		}
		double len = 0;
		for (size_t a = 0; a < dim; a++)
			len = std::max(len, p.r.s.len[a] + std::fabs(p.r.s.lo[a]));
		std::map<std::string, double> big;
		for (auto& e : field)
			for (double x : e.second)
				big[e.first] = std::max(big[e.first], std::fabs(x));
		c.key = "files/fields";
		// every sample point of every cell once; several cells may share the place
		std::vector<std::pair<dealii::Point<dim>, std::map<std::string, double> > > samples;
		for (size_t k = 0; k < cl.cells.size(); k++)
			for (size_t m = 0; m < per_cell; m++) {
				dealii::Point<dim> y;
				std::vector<double> z(dim);
				size_t q = m;
				for (size_t a = 0; a < dim; a++, q /= n1)
					z[a] = y[a] = cl.cells[k].lo[a] + (cl.cells[k].hi[a] - cl.cells[k].lo[a]) * (q % n1) / sub;
				auto w = cl.weights(k, nd, z);
				std::map<std::string, double> v;
				for (auto& e : field) {
					double x = 0;
					for (auto& d : w)
						x += d.second * e.second[d.first];
					v[e.first] = x;
				}
				samples.push_back(std::make_pair(y, v));
			}
		std::vector<char> used(samples.size(), 0);
		for (size_t k = 0; k < f.points; k++) {
			bool place = false, found = false;
			std::string near;
			for (size_t m = 0; m < samples.size() && !found; m++) {
				if (used[m])
					continue;
				bool here = true;
				for (size_t a = 0; a < dim; a++)
					here &= std::fabs(samples[m].first[a] - f.position[3 * k + a]) <= 3e-6 * len;
				if (!here)
					continue;
				place = true;
				bool same = true;
				std::ostringstream o;
				for (auto& e : samples[m].second)
					if (f.field.count(e.first) && !(std::fabs(f.field[e.first][k] - e.second) <= 4e-6 * big[e.first] + 1e-11 * scale)) {
						same = false;
						o << " " << e.first << "=" << f.field[e.first][k] << " instead of " << e.second;
					}
				if (same) {
					used[m] = 1;
					found = true;
				} else
					near = o.str();
			}
			CHECK(place, "iteration " << i << ": point (" << f.position[3 * k] << " " << f.position[3 * k + 1] << ") is not expected there");
			CHECK(found, "iteration " << i << ", point (" << f.position[3 * k] << " " << f.position[3 * k + 1] << " " << f.position[3 * k + 2] << "):" << near);
		}
		// the master file names the piece
		std::ifstream in(dir + "/t_0." + std::to_string(i) + ".pvtu");
		std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
		c.key = "files/pvtu";
		CHECK(s.find("Source=\"t_0." + std::to_string(i) + ".vtu\"") != std::string::npos, "t_0." << i << ".pvtu does not name its piece");
		for (auto& e : names)
			CHECK(s.find("\"" + e + "\"") != std::string::npos, "t_0." << i << ".pvtu does not name " << e);
	}
	c.nontrivial = n > 1;
	c.label(p.kind());
	if (p.r.s.local.size())
		c.label("locally refined");
}
LAW(files2d, 300, 5000, 8) {
	files<2>(g, c, 10);
}
LAW(files3d, 60, 600, 8) {
	files<3>(g, c, 5);
}
HARNESS_MAIN
