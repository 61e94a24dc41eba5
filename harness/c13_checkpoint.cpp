// C13: checkpoints: what is written is read, resumed runs continue, damaged or unsuitable checkpoints are refused.
#include "solver.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/solver/Checkpoint.h"
#include <sys/wait.h>
#include <iomanip>
using namespace slv;
namespace fs = boost::filesystem;

/// natrium_errorexit ends with MPI_Abort
struct Refused {
};
extern "C" int MPI_Abort(MPI_Comm, int) {
	throw Refused();
}

static std::string fresh_dir() {
	const std::string dir = std::string(getenv("PBT_SCRATCH")) + "/out";
	fs::remove_all(dir);
	fs::create_directory(dir);
	fs::create_directory(dir + "/checkpoint");
	return dir;
}
static std::string slurp(const std::string& f) {
	std::ifstream i(f, std::ios::binary);
	return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}

template<size_t dim> struct Spec {
	BoxSpec<dim> s;
	size_t order;
	bool dg;
	SupportPointsName pts = GAUSS_LOBATTO_POINTS;
	std::string ptn = "Gauss-Lobatto", sn;
	double scaling;
	StencilP st;
	void generate(Gen& g, Ctx& c, size_t cells, bool deformed) {
		s = gen_box<dim>(g, cells, true);
		order = 1 + g.draw(dim == 2 ? 4 : 2);
		dg = g.chance(40);
		if (!dg)
			pts = sl::gen_points(g, ptn);
		st = sl::gen_stencil(g, dim, 77, scaling, sn);
		if (deformed && g.chance(40)) {
			s.shape = 1 + g.draw(3);
			s.amount = g.real(-0.4, 0.4, 0.2);
			if (s.shape == 1)
				for (size_t a = 1; a < dim; a++)
					s.wall[a] = true;
		} else if (deformed && !dg && g.chance(40)) {
			s.wall.fill(true);
			for (size_t k = 0, n = g.range(1, 2); k < n; k++) {
				std::array<double, dim> p;
				for (size_t a = 0; a < dim; a++)
					p[a] = g.real(0, 0.999, 0.1);
				s.local.push_back(p);
			}
		}
		print(c);
		c.label(dg ? "SEDG" : "semi-Lagrangian");
		c.label("shape " + std::to_string(s.shape));
		if (s.local.size())
			c.label("locally refined");
	}
	void print(Ctx& c) {
		s.print(c.desc);
		c.desc << ", order " << order << " " << ptn << ", " << sn << " scaling " << scaling << (dg ? ", SEDG" : ", semi-Lagrangian");
	}
	boost::shared_ptr<AdvectionOperator<dim> > op(ProblemDescription<dim>& p) const {
		if (dg)
			return boost::make_shared<SEDGMinLee<dim> >(p, order, QGAUSS_LOBATTO, pts, st, false);
		return boost::make_shared<SemiLagrangian<dim> >(p, order, QGAUSS_LOBATTO, pts, st, 0.01);
	}
};
template<size_t dim> struct State {
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<AdvectionOperator<dim> > op;
	boost::shared_ptr<DistributionFunctions> f;
	size_t n() const {
		return op->getDoFHandler()->n_dofs();
	}
	VV get() const {
		VV r(f->getQ(), V(n()));
		for (size_t q = 0; q < f->getQ(); q++)
			for (size_t i = 0; i < n(); i++)
				r[q][i] = f->at(q)(i);
		return r;
	}
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points() const {
		std::map<dealii::types::global_dof_index, dealii::Point<dim> > r;
		op->mapDoFsToSupportPoints(r);
		return r;
	}
};
/// random populations on the problem's mesh
template<size_t dim> State<dim> fill(const Spec<dim>& k, uint64_t rng, bool wild) {
	State<dim> r;
	r.pb = boost::make_shared<BoxProblem<dim> >(k.s);
	r.pb->refineAndTransform();
	r.op = k.op(*r.pb);
	r.op->setupDoFs();
	r.f = boost::make_shared<DistributionFunctions>(k.dg);
	r.f->reinit(k.st->getQ(), r.op->getLocallyOwnedDofs(), r.op->getLocallyRelevantDofs(), MPI_COMM_WORLD, k.dg);
	for (size_t q = 0; q < k.st->getQ(); q++)
		for (size_t i = 0; i < r.n(); i++) {
			double x = (double) (pbt::splitmix(rng) >> 11) / 4503599627370496.0 - 1;
			if (wild)
				x = std::ldexp(x, (int) (pbt::splitmix(rng) % 1200) - 600);
			r.f->at(q)(i) = x;
		}
	r.f->compress(dealii::VectorOperation::insert);
	return r;
}
template<size_t dim> State<dim> empty(const Spec<dim>& k) {
	State<dim> r;
	r.pb = boost::make_shared<BoxProblem<dim> >(k.s);
	r.op = k.op(*r.pb);
	r.f = boost::make_shared<DistributionFunctions>(k.dg);
	return r;
}
static CheckpointStatus gen_status(Gen& g, Ctx& c, size_t order, double scaling) {
	CheckpointStatus s;
	s.iterationNumber = g.chance(30) ? 1 : 1 + g.draw(2000000000);
	s.time = g.chance(70) ? g.logreal(1e-9, 1e9, 10) : 0.0;
	s.stencilScaling = scaling;
	s.feOrder = order;
	c.desc << ", iteration " << s.iterationNumber << " time " << std::setprecision(17) << s.time << std::setprecision(6);
	return s;
}
#define SAME_STATUS(got, want, what) do { \
	CHECK((got).iterationNumber == (want).iterationNumber, what << "iteration " << (got).iterationNumber << " instead of " << (want).iterationNumber); \
	CLOSE((got).time, (want).time, 1e-15 * (want).time, what << "time"); \
	CLOSE((got).stencilScaling, (want).stencilScaling, 1e-15 * (want).stencilScaling, what << "scaling"); \
	CHECK((got).feOrder == (want).feOrder, what << "order"); } while (0)

template<size_t dim> void restore(Gen& g, Ctx& c, size_t cells) {
	Spec<dim> k;
	k.generate(g, c, cells, true);
	const CheckpointStatus status = gen_status(g, c, k.order, k.scaling);
	const bool second = g.chance(25), wild = g.chance(20);
	uint64_t rng = g.draw(1ull << 40);
	c.key = "restore";
	const std::string dir = fresh_dir();
	State<dim> a = fill(k, rng, wild);
	const VV fa = a.get();
	// another checkpoint in the directory, not to be touched
	const bool other = g.flag();
	size_t oi = 1 + g.draw(50);
	if (oi == status.iterationNumber)
		oi++;
	if (other) {
		State<dim> b = fill(k, rng + 1, false);
		CheckpointStatus so = status;
		so.iterationNumber = oi;
		Checkpoint<dim> w(oi, dir, false);
		w.write(*b.pb->getMesh(), *b.f, *b.op->getDoFHandler(), so);
		c.desc << ", another checkpoint at " << oi;
	}
	const std::string ob = other ? slurp(dir + "/checkpoint_" + std::to_string(oi) + ".data") : "";
	Checkpoint<dim> w(status.iterationNumber, dir, second);
	w.write(*a.pb->getMesh(), *a.f, *a.op->getDoFHandler(), status);
	const VV f1 = a.get();
	CHECK(f1 == fa, "writing a checkpoint changed the populations");
	const std::string base = dir + (second ? "/checkpointG_" : "/checkpoint_") + std::to_string(status.iterationNumber);
	CHECK(fs::exists(base + ".stat") && fs::exists(base + ".data"), "no files " << base << ".*");
	if (other)
		CHECK(slurp(dir + "/checkpoint_" + std::to_string(oi) + ".data") == ob, "another checkpoint (" << oi << ") was overwritten");
	if (second) {
		c.label("second population set");
		return;
	}
	State<dim> b = empty(k);
	const bool automatic = g.flag() && (!other || oi < status.iterationNumber);
	Checkpoint<dim> rd(automatic ? 1 : status.iterationNumber, dir, false);
	if (automatic)
		c.label("most recent");
	// reading iteration 1 means the most recent one
	if (status.iterationNumber == 1 && other)
		throw pbt::Discard();
	CHECK(rd.exists(), "the checkpoint was not found");
	CheckpointStatus sb;
	rd.load(*b.f, *b.pb, *b.op, sb);
	SAME_STATUS(sb, status, "");
	CHECK(b.f->getQ() == k.st->getQ(), "number of populations");
	CHECK(b.n() == a.n(), "number of grid points: " << b.n() << " instead of " << a.n());
	auto pa = a.points(), pb = b.points();
	for (auto& x : pa)
		CHECK(pb.at(x.first).distance(x.second) < 1e-12 * (1 + x.second.norm()), "grid point " << x.first << " moved from (" << x.second << ") to (" << pb.at(x.first) << ")");
	VV fb = b.get();
	for (size_t q = 0; q < fa.size(); q++)
		for (size_t i = 0; i < a.n(); i++)
			CHECK(fa[q][i] == fb[q][i], "population " << q << " at (" << pa[i] << "): " << fb[q][i] << " instead of " << fa[q][i]);
	c.nontrivial = k.st->getQ() > 9 || k.order > 1 || k.s.shape || k.s.local.size();
}
LAW(restore2d, 900, 8000, 4) {
	restore<2>(g, c, 16);
}
LAW(restore3d, 200, 1200, 4) {
	restore<3>(g, c, 8);
}

/// reading on a finer mesh: the same functions
template<size_t dim> void refined(Gen& g, Ctx& c, size_t cells) {
	Spec<dim> k;
	k.generate(g, c, cells, false);
	if (k.st->getQ() > 30)
		throw pbt::Discard();
	const CheckpointStatus status = gen_status(g, c, k.order, k.scaling);
	uint64_t rng = g.draw(1ull << 40);
	size_t more = dim == 2 ? 1 + g.draw(2) : 1;
	c.key = "refined";
	c.desc << ", " << more << " times finer";
	const std::string dir = fresh_dir();
	State<dim> a = fill(k, rng, false);
	const VV fa = a.get();
	Checkpoint<dim>(status.iterationNumber, dir, false).write(*a.pb->getMesh(), *a.f, *a.op->getDoFHandler(), status);
	Spec<dim> k2(k);
	k2.s.refine += more;
	State<dim> b = empty(k2);
	CheckpointStatus sb;
	Checkpoint<dim>(status.iterationNumber, dir, false).load(*b.f, *b.pb, *b.op, sb);
	SAME_STATUS(sb, status, "");
	const size_t want = fill(k2, 1, false).n();
	CHECK(b.n() == want, "number of grid points: " << b.n() << " instead of " << want);
	sl::Cells<dim> coarse(*a.op), fine(*b.op);
	const std::vector<double> nd = sl::nodes(k.pts, k.order);
	VV fb = b.get();
	for (auto& x : fine.cells) {
		// the coarse cell around its middle
		std::vector<double> mid(dim);
		for (size_t d = 0; d < dim; d++)
			mid[d] = 0.5 * (x.lo[d] + x.hi[d]);
		auto in = coarse.containing(mid, 0);
		if (in.size() != 1)
			throw std::runtime_error("coarse cell not found");
		for (auto d : x.dofs) {
			std::vector<double> y(dim);
			for (size_t e = 0; e < dim; e++)
				y[e] = fine.points.at(d)[e];
			auto w = coarse.weights(in[0], nd, y);
			for (size_t q = 0; q < fa.size(); q++) {
				double v = 0, m = 0;
				for (auto& z : w) {
					v += z.second * fa[q][z.first];
					m += std::fabs(z.second);
				}
				CLOSE(fb[q][d], v, 1e-11 * m, "population " << q << " at (" << fine.points.at(d) << ")");
			}
		}
	}
	c.nontrivial = true;
}
LAW(refined2d, 400, 3000, 4) {
	refined<2>(g, c, 9);
}
LAW(refined3d, 80, 500, 4) {
	refined<3>(g, c, 4);
}

/// run in a child process: 0 loaded the right state, 7 another state, anything else: refused
template<size_t dim> int try_load(const Spec<dim>& k, size_t it, const std::string& dir, const VV& want, const CheckpointStatus& status) {
	std::cout.flush();
	fflush(0);
	pid_t p = fork();
	if (p == 0) {
		signal(SIGABRT, SIG_DFL);
		signal(SIGSEGV, SIG_DFL);
		alarm(60);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		dup2(nul, 2);
		try {
			State<dim> b = empty(k);
			CheckpointStatus sb;
			Checkpoint<dim> rd(it, dir, false);
			if (!rd.exists())
				_exit(3);
			rd.load(*b.f, *b.pb, *b.op, sb);
			bool same = sb.iterationNumber == status.iterationNumber && std::fabs(sb.time - status.time) <= 1e-14 * status.time && sb.stencilScaling == status.stencilScaling
					&& b.get() == want;
			_exit(same ? 0 : 7);
		} catch (...) {
			_exit(3);
		}
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
}
LAW(refused, 240, 3000, 4) {
	Spec<2> k;
	k.generate(g, c, 9, false);
	CheckpointStatus status = gen_status(g, c, k.order, k.scaling);
	uint64_t rng = g.draw(1ull << 40);
	const std::string dir = fresh_dir();
	if (k.s.refine == 0)
		k.s.refine = 1;
	State<2> a = fill(k, rng, false);
	Checkpoint<2>(status.iterationNumber, dir, false).write(*a.pb->getMesh(), *a.f, *a.op->getDoFHandler(), status);
	const VV fa = a.get();
	const std::string base = dir + "/checkpoint_" + std::to_string(status.iterationNumber);
	int kind = g.draw(6), rc;
	const char* what[] = { "missing file", "status cut", "data cut", "another order", "a coarser mesh", "another iteration" };
	c.desc << ", " << what[kind];
	c.key = std::string("refused/") + what[kind];
	c.label(what[kind]);
	CHECK(try_load(k, status.iterationNumber, dir, fa, status) == 0, "the intact checkpoint was not loaded");
	Spec<2> k2(k);
	size_t it = status.iterationNumber;
	if (kind == 0)
		fs::remove(base + (g.flag() ? ".stat" : ".data"));
	else if (kind <= 2) {
		std::string file = base + (kind == 1 ? ".stat" : ".data"), s = slurp(file);
		if (kind == 1)
			while (s.size() && (s.back() == '\n' || s.back() == ' '))
				s.pop_back();
		size_t keep = g.draw(s.size());
		if (kind == 2 && g.flag())
			keep = s.size() - 1 - g.draw(std::min<size_t>(s.size(), 64));
		c.desc << " after " << keep << " of " << s.size() << " bytes";
		std::ofstream(file, std::ios::binary | std::ios::trunc) << s.substr(0, keep);
	} else if (kind == 3) {
		k2.order = k.order + 1;
		k2.pts = k.pts;
	} else if (kind == 4) {
		k2.s.refine--;
		for (size_t a = 0; a < 2; a++)
			if (k2.s.cells(a) < 2)
				throw pbt::Discard();
	} else
		it = status.iterationNumber == 1 ? 2 : status.iterationNumber + 1;
	rc = try_load(k2, it, dir, fa, status);
	CHECK(rc != 7, "an unsuitable checkpoint was loaded");
	if (kind != 2)
		CHECK(rc != 0, "an unsuitable checkpoint was loaded as if it was intact");
	c.nontrivial = true;
}

template<class S> VV populations(const S& solver, size_t n, bool second = false) {
	const DistributionFunctions& f = solver.getF();
	VV r(f.getQ(), V(n));
	for (size_t q = 0; q < f.getQ(); q++)
		for (size_t i = 0; i < n; i++)
			r[q][i] = f.at(q)(i);
	return r;
}
static std::set<std::string> listing(const std::string& dir) {
	std::set<std::string> r;
	for (fs::directory_iterator i(dir), e; i != e; ++i) {
		std::string n = i->path().filename().string();
		if (n.size() > 5 && n.substr(n.size() - 5) == ".stat")
			r.insert(n.substr(0, n.size() - 5));
	}
	return r;
}
#define COMPARE(A, B, tol, what) do { const auto& a_ = A; const auto& b_ = B; \
	for (size_t i_ = 0; i_ < n; i_++) CLOSE((double) a_(i_), (double) b_(i_), tol, what << " at point " << i_); } while (0)

/// the run to step N, and the run which is stopped on the way and resumed
template<size_t dim, class Solver> void resume(Gen& g, Ctx& c, size_t cells, bool compressible) {
	Run<dim> r;
	gen_flow<dim>(g, r, compressible, cells);
	bool dg = !compressible && g.chance(30);
	if (dg) {
		r.pts = GAUSS_LOBATTO_POINTS;
		r.cfl = std::min(r.cfl, 0.4);
		r.set.set_tau(r.set.tau, r.cfl * min_edge(r.s) / (r.set.st->getMaxParticleVelocityMagnitude() * r.order * r.order));
	}
	const double dt = r.cfl * min_edge(r.s) / (r.set.st->getMaxParticleVelocityMagnitude() * r.order * r.order);
	if (!compressible && r.set.si->Q != 777 && g.chance(20)) {
		// not for the force: the velocity in a checkpoint lacks half of the force until the next collision
		r.set.forcing = SHIFTING_VELOCITY;
		r.set.F.assign(dim, 0.0);
		r.set.F[0] = g.logreal(1e-5, 0.05, 0.01) * r.set.scaling / dt / std::max(1.0, r.set.tau);
	}
	if (!compressible && !dg && std::count(r.s.wall.begin(), r.s.wall.end(), true) == 1 && g.chance(60)) {
		// walls which move differently at every time
		const double cs = std::sqrt(r.set.st->getSpeedOfSoundSquare());
		std::vector<boost::shared_ptr<WallVelocity<dim> > > wu(2 * dim);
		for (auto& w : wu) {
			w = boost::make_shared<WallVelocity<dim> >();
			for (size_t a = 0; a < dim; a++) {
				w->a[a] = cs * g.real(-0.05, 0.05, 0.02);
				w->bt[a] = cs * g.real(-0.02, 0.02, 0.01) / dt;
			}
		}
		r.s.boundary = [wu](size_t w) -> boost::shared_ptr<Boundary<dim> > {
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(wu[w]));
		};
		c.label("moving walls");
	}
	const size_t N = g.range(2, 9), interval = g.range(1, 4), parts = g.chance(25) ? 2 : 1;
	std::vector<size_t> stops, from;
	size_t at = 0;
	for (size_t p = 0; p < parts && at + 1 < N; p++) {
		at = at + 1 + g.draw(N - 1 - at);
		stops.push_back(at);
		// resumed from one of the checkpoints: multiples of the interval, or the end
		size_t low = from.size() ? from.back() : 0;
		std::vector<size_t> have;
		for (size_t i = low + 1; i <= at; i++)
			if (i % interval == 0 || i == at)
				have.push_back(i);
		from.push_back(g.chance(60) ? at : g.pick(have));
		at = stops.back();
	}
	r.steps = N;
	r.describe(c.desc);
	c.desc << (dg ? ", SEDG" : "") << ", checkpoint interval " << interval << ", stopped at";
	for (size_t i = 0; i < stops.size(); i++)
		c.desc << " " << stops[i] << " (resumed from " << from[i] << ")";
	c.key = compressible ? "resume/compressible" : "resume";
	c.label(dg ? "SEDG" : "semi-Lagrangian");
	auto config = [&](const std::string& dir, size_t steps, size_t restart, bool chk) {
		r.make_config();
		if (dg) {
			r.cfg->setAdvectionScheme(SEDG);
			r.cfg->setQuadrature(QGAUSS_LOBATTO);
			r.cfg->setTimeIntegrator(RUNGE_KUTTA_5STAGE);
		}
		if (compressible) {
			r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
			r.cfg->setPrandtlNumber(1.0);
		}
		r.cfg->setSwitchOutputOff(false);
		r.cfg->setOutputDirectory(dir);
		r.cfg->setOutputTableInterval(1000000);
		r.cfg->setOutputSolutionInterval(200000000);
		r.cfg->setOutputCheckpointInterval(chk ? interval : 200000000);
		r.cfg->setNumberOfTimeSteps(steps);
		r.cfg->setRestartAtIteration(restart);
		r.make_problem();
	};
	const std::string dir = fresh_dir();
	config(dir, N, 0, false);
	Solver whole(r.cfg, r.pb);
	whole.run();
	const size_t n = whole.getNumberOfDoFs();
	const VV want = populations(whole, n);
	double top = 0;
	for (auto& x : want)
		for (double y : x) {
			if (!(std::fabs(y) < 10))
				throw pbt::Discard();
			top = std::max(top, std::fabs(y));
		}
	CHECK(listing(dir + "/checkpoint").empty(), "checkpoints were written although switched off");
	fresh_dir();
	std::set<std::string> files;
	boost::shared_ptr<Solver> last;
	double scale_u = r.set.scaling;
	for (size_t p = 0; p <= stops.size(); p++) {
		const size_t start = p ? from[p - 1] : 0, end = p < stops.size() ? stops[p] : N;
		// 1: the most recent one
		const size_t recent = files.size() ? *std::max_element(stops.begin(), stops.begin() + p) : 0;
		size_t arg = start;
		if (p && start == recent && g.flag()) {
			arg = 1;
			c.label("most recent");
		} else if (start == 1 && recent != 1)
			throw pbt::Discard();
		config(dir, end, arg, p < stops.size());
		last = boost::make_shared<Solver>(r.cfg, r.pb);
		CHECK(last->getIteration() == start, "the run starts at iteration " << last->getIteration() << " instead of " << start);
		if (!dg)
			CLOSE(last->getTime(), start * dt, 1e-11 * N * dt, "start time");
		last->run();
		CHECK(last->getIteration() == end, "the run ends at iteration " << last->getIteration() << " instead of " << end);
		if (p < stops.size())
			for (size_t i = start + 1; i <= end; i++)
				if (i % interval == 0 || i == end) {
					files.insert("checkpoint_" + std::to_string(i));
					if (compressible)
						files.insert("checkpointG_" + std::to_string(i));
				}
		std::set<std::string> have = listing(dir + "/checkpoint");
		if (have != files) {
			std::string s;
			for (auto& x : have)
				s += x + " ";
			FAIL("checkpoints: " << s << "(expected " << files.size() << ")");
		}
	}
	const VV got = populations(*last, n);
	CLOSE(last->getTime(), whole.getTime(), 1e-11 * whole.getTime(), "time at the end");
	const double tol = 1e-11 * top * (dg ? 100 : 1);
	for (size_t q = 0; q < got.size(); q++)
		for (size_t i = 0; i < n; i++)
			CLOSE(got[q][i], want[q][i], tol, "population " << q << " at point " << i << " after the resumed run");
	COMPARE(last->getDensity(), whole.getDensity(), 1e-10, "density");
	for (size_t a = 0; a < dim; a++)
		COMPARE(last->getVelocity().at(a), whole.getVelocity().at(a), 1e-10 * scale_u, "velocity " << a);
	c.nontrivial = stops.size() && r.rho->comp[0].c1 != 0;
}
LAW(resume2d, 360, 9000, 6) {
	resume<2, CFDSolver<2> >(g, c, 20, false);
}
LAW(resume3d, 60, 1500, 4) {
	resume<3, CFDSolver<3> >(g, c, 8, false);
}
LAW(resume_compressible, 120, 3000, 4) {
	resume<2, CompressibleCFDSolver<2> >(g, c, 12, true);
}

inline void compare_temperature(Ctx&, const CFDSolver<2>&, const CFDSolver<2>&, size_t) {
}
inline void compare_temperature(Ctx& c, const CompressibleCFDSolver<2>& b, const CompressibleCFDSolver<2>& a, size_t n) {
	COMPARE(b.getTemperature(), a.getTemperature(), 1e-11, "temperature");
}
/// what a solver shows right after it read a checkpoint
template<class Solver, bool compressible> void shown(Gen& g, Ctx& c) {
	Run<2> r;
	gen_flow<2>(g, r, compressible, 12);
	r.describe(c.desc);
	c.key = "shown";
	const bool rescaled = !compressible && g.chance(30);
	double factor = rescaled ? g.logreal(0.3, 3, 2) : 1;
	if (rescaled)
		c.desc << ", scaling times " << factor;
	const std::string dir = fresh_dir();
	r.make_config();
	if (compressible) {
		r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
		r.cfg->setPrandtlNumber(1.0);
	}
	r.cfg->setSwitchOutputOff(false);
	r.cfg->setOutputDirectory(dir);
	r.cfg->setOutputTableInterval(1000000);
	r.cfg->setOutputSolutionInterval(200000000);
	r.cfg->setOutputCheckpointInterval(1000);
	r.make_problem();
	Solver a(r.cfg, r.pb);
	a.run();
	const size_t n = a.getNumberOfDoFs();
	r.cfg->setRestartAtIteration(r.steps);
	r.cfg->setStencilScaling(r.set.scaling * factor);
	r.make_problem();
	Solver b(r.cfg, r.pb);
	for (auto& x : populations(a, n))
		for (double y : x)
			if (!(std::fabs(y) < 10))
				throw pbt::Discard();
	if (rescaled)
		c.key = "shown/rescaled/density";
	COMPARE(b.getDensity(), a.getDensity(), 1e-12, "density");
	if (rescaled)
		c.key = "shown/rescaled/velocity";
	for (size_t k = 0; k < 2; k++)
		COMPARE(b.getVelocity().at(k), a.getVelocity().at(k), 1e-12 * r.set.scaling, "velocity " << k);
	// the other equilibria do not conserve the energy: the temperature is that before the collision
	if (r.set.eq == QUARTIC_EQUILIBRIUM)
		compare_temperature(c, b, a, n);
	c.nontrivial = true;
	c.label(rescaled ? "another scaling" : "same scaling");
}
LAW(shown, 120, 1500, 2) {
	shown<CFDSolver<2>, false>(g, c);
}
/// the temperature too
LAW(shown_compressible, 80, 800, 2) {
	shown<CompressibleCFDSolver<2>, true>(g, c);
}
/// a uniform flow stays the same on a finer mesh
LAW(refined_compressible, 60, 1000, 2) {
	Run<2> r;
	gen_flow<2>(g, r, true, 9);
	for (auto& w : { r.rho, r.u, r.T })
		for (auto& k : w->comp)
			k.c1 = 0;
	if (r.set.eq != QUARTIC_EQUILIBRIUM)
		throw pbt::Discard();
	const size_t more = 1;
	const double cs = std::sqrt(r.set.st->getSpeedOfSoundSquare());
	r.describe(c.desc);
	c.key = "refined/compressible";
	const std::string dir = fresh_dir();
	auto config = [&](size_t restart, size_t steps) {
		r.make_config();
		r.cfg->setHeatCapacityRatioGamma(r.set.gamma);
		r.cfg->setPrandtlNumber(1.0);
		r.cfg->setSwitchOutputOff(false);
		r.cfg->setOutputDirectory(dir);
		r.cfg->setOutputTableInterval(1000000);
		r.cfg->setOutputSolutionInterval(200000000);
		r.cfg->setOutputCheckpointInterval(1000);
		r.cfg->setNumberOfTimeSteps(steps);
		r.cfg->setRestartAtIteration(restart);
		r.make_problem();
	};
	config(0, r.steps);
	CompressibleCFDSolver<2> a(r.cfg, r.pb);
	a.run();
	const double rho = r.rho->comp[0].c0, T = r.T->comp[0].c0;
	r.s.refine += more;
	config(r.steps, r.steps + 2);
	CompressibleCFDSolver<2> b(r.cfg, r.pb);
	const size_t n = b.getNumberOfDoFs();
	CHECK(n > a.getNumberOfDoFs(), "the mesh is not finer");
	for (int k = 0; k < 2; k++) {
		const char* when = k ? "two steps later: " : "after reading: ";
		for (size_t i = 0; i < n; i++) {
			CLOSE((double) b.getDensity()(i), rho, 1e-10, when << "density at " << i);
			for (size_t a = 0; a < 2; a++)
				CLOSE((double) b.getVelocity().at(a)(i), r.u->comp[a].c0, 1e-9 * cs, when << "velocity at " << i);
			CLOSE((double) b.getTemperature()(i), T, 1e-9, when << "temperature at " << i);
		}
		if (!k)
			b.run();
	}
	c.nontrivial = true;
}
HARNESS_MAIN
