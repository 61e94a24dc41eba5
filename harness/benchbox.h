// Benchmarks with travelling waves as analytic solution; planes for statistics.
#pragma once
#include "solver.h"
#include "natrium/problemdescription/Benchmark.h"
#include "natrium/problemdescription/CompressibleBenchmark.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/BenchmarkCompressibleCFDSolver.h"

template<size_t dim, class Base = Benchmark<dim> > class BenchmarkBox: public Base {
	BoxProblem<dim> m_inner;
public:
	BenchmarkBox(const BoxSpec<dim>& s, double nu, boost::shared_ptr<dealii::Function<dim> > rho, boost::shared_ptr<dealii::Function<dim> > u) :
			Base(BoxProblem<dim>::make_mesh(s), nu, 1), m_inner(s) {
		boost::shared_ptr<BoundaryCollection<dim> > bc = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t a = 0; a < dim; a++)
			if (s.wall[a]) {
				bc->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(2 * a, dealii::Tensor<1, dim>()));
				bc->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(2 * a + 1, dealii::Tensor<1, dim>()));
			} else
				bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(2 * a, 2 * a + 1, a, this->getMesh()));
		this->setBoundaries(bc);
		this->setAnalyticRho(rho);
		this->setAnalyticU(u);
	}
	void T(boost::shared_ptr<dealii::Function<dim> > t) {
		this->setAnalyticT(t);
	}
	void refine(Mesh<dim>& mesh) override {
		m_inner.refine(mesh);
	}
	void transform(Mesh<dim>& mesh) override {
		m_inner.transform(mesh);
	}
	bool isCartesian() override {
		return m_inner.isCartesian();
	}
};
/// a wave which travels
template<size_t dim> struct Travelling: public slv::Wave<dim> {
	double omega;
	Travelling(const slv::Wave<dim>& w, double o) :
			slv::Wave<dim>(w), omega(o) {
	}
	double value(const dealii::Point<dim>& p, unsigned int i = 0) const override {
		double ph = this->comp[i].phase + omega * this->get_time();
		for (size_t a = 0; a < dim; a++)
			ph += 2 * 3.14159265358979323846 * this->comp[i].k[a] * (p[a] - this->s.lo[a]) / this->s.len[a];
		return this->comp[i].c0 + this->comp[i].c1 * std::sin(ph);
	}
};

/// planes normal to an axis which contain grid points
template<size_t dim> std::vector<double> gen_planes(Gen& g, const slv::Run<dim>& r, size_t axis) {
	std::vector<double> nd = sl::nodes(r.pts, r.order);
	std::set<double> all;
	for (size_t k = 0; k < r.s.cells(axis); k++)
		for (double x : nd) {
			double e[2];
			for (size_t h = 0; h < 2; h++) {
				dealii::Point<dim> p;
				for (size_t a = 0; a < dim; a++)
					p[a] = r.s.lo[a];
				p[axis] = r.s.lo[axis] + r.s.len[axis] * (k + h) / r.s.cells(axis);
				e[h] = (r.s.shape ? BoxProblem<dim>::map(r.s, p) : p)[axis];
			}
			all.insert(e[0] + x * (e[1] - e[0]));
		}
	std::vector<double> v(all.begin(), all.end()), w;
	size_t n = g.range(1, 3);
	for (size_t i = 0; i < n; i++)
		w.push_back(g.pick(v));
	return w;
}

