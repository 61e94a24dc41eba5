// Flow domains: boxes with periodic and wall axes, optionally locally refined or deformed.
#pragma once
#include "common.h"
#include "stencils.h"
#include <array>
#include <functional>
#include "deal.II/grid/grid_generator.h"
#include "deal.II/grid/grid_tools.h"
#include "deal.II/dofs/dof_tools.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"
#include "natrium/boundaries/DoNothingBoundary.h"

template<size_t dim> struct BoxSpec {
	std::array<unsigned, dim> reps;
	std::array<double, dim> lo, len;
	unsigned refine = 0;
	std::array<bool, dim> wall;                       // false: periodic
	std::vector<std::array<double, dim>> local;       // cells containing these relative positions are refined once more
	int shape = 0;                                    // 0 box, 1 sheared (affine), 2 bilinear, 3 curved
	double amount = 0;
	std::function<boost::shared_ptr<Boundary<dim> >(size_t)> boundary;  // for walls
	size_t cells(size_t a) const {
		return (size_t) reps[a] << refine;
	}
	double h(size_t a) const {
		return len[a] / cells(a);
	}
	double hmin() const {
		double m = h(0);
		for (size_t a = 1; a < dim; a++)
			m = std::min(m, h(a));
		return m;
	}
	void print(std::ostream& o) const {
		o << dim << "D box, cells";
		for (size_t a = 0; a < dim; a++)
			o << " " << reps[a] << (wall[a] ? "w" : "p");
		o << " refined " << refine << "x, lower corner";
		for (size_t a = 0; a < dim; a++)
			o << " " << lo[a];
		o << ", lengths";
		for (size_t a = 0; a < dim; a++)
			o << " " << len[a];
		if (local.size())
			o << ", " << local.size() << " cells refined locally";
		if (shape)
			o << ", shape " << shape << " amount " << amount;
	}
};

template<size_t dim> class BoxProblem: public ProblemDescription<dim> {
	BoxSpec<dim> m_s;
public:
	static boost::shared_ptr<Mesh<dim> > make_mesh(const BoxSpec<dim>& s) {
#ifdef WITH_TRILINOS_MPI
		boost::shared_ptr<Mesh<dim> > mesh = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
#else
		boost::shared_ptr<Mesh<dim> > mesh = boost::make_shared<Mesh<dim> >();
#endif
		std::vector<unsigned int> reps(s.reps.begin(), s.reps.end());
		dealii::Point<dim> a, b;
		for (size_t i = 0; i < dim; i++) {
			a[i] = s.lo[i];
			b[i] = s.lo[i] + s.len[i];
		}
		dealii::GridGenerator::subdivided_hyper_rectangle(*mesh, reps, a, b, true);
		return mesh;
	}
	BoxProblem(const BoxSpec<dim>& s, double viscosity = 1, double length = 1) :
			ProblemDescription<dim>(make_mesh(s), viscosity, length), m_s(s) {
		boost::shared_ptr<BoundaryCollection<dim> > bc = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t a = 0; a < dim; a++) {
			if (s.wall[a]) {
				for (size_t k = 2 * a; k < 2 * a + 2; k++)
					bc->addBoundary(
							s.boundary ? s.boundary(k) :
									boost::shared_ptr<Boundary<dim> >(
											boost::make_shared<VelocityNeqBounceBack<dim> >(k,
													dealii::Tensor<1, dim>())));
			} else
				bc->addBoundary(
						boost::make_shared<PeriodicBoundary<dim> >(2 * a, 2 * a + 1, a, this->getMesh()));
		}
		this->setBoundaries(bc);
	}
	void refine(Mesh<dim>& mesh) override {
		mesh.refine_global(m_s.refine);
		if (m_s.local.size()) {
			for (auto cell = mesh.begin_active(); cell != mesh.end(); ++cell)
				for (auto& r : m_s.local) {
					bool in = true;
					for (size_t a = 0; a < dim; a++) {
						double lo = (cell->vertex(0)[a] - m_s.lo[a]) / m_s.len[a];
						double w = 1. / m_s.cells(a);
						if (r[a] < lo - 1e-12 || r[a] >= lo + w - 1e-12)
							in = false;
					}
					if (in)
						cell->set_refine_flag();
				}
			mesh.execute_coarsening_and_refinement();
		}
	}
	/// where a point of the box lies in the deformed domain
	static dealii::Point<dim> map(const BoxSpec<dim>& s, const dealii::Point<dim>& p) {
		dealii::Point<dim> q(p);
		double r[dim];
		for (size_t a = 0; a < dim; a++)
			r[a] = (p[a] - s.lo[a]) / s.len[a];
		const double pi = 3.14159265358979323846;
		if (s.shape == 1)          // periodic in y by a translation along x too
			q[0] += s.amount * s.len[0] * r[1];
		else if (s.shape == 2) {   // inner vertices are moved, the boundary stays
			double b = 1;
			for (size_t a = 0; a < dim; a++)
				b *= 4 * r[a] * (1 - r[a]);
			q[0] += s.amount * s.h(0) * b;
			q[1] -= 0.7 * s.amount * s.h(1) * b;
		} else if (s.shape == 3)   // stretched lines, Cartesian
			for (size_t a = 0; a < dim; a++)
				q[a] += s.amount * s.len[a] * std::sin(2 * pi * r[a]) / (2 * pi);
		return q;
	}
	void transform(Mesh<dim>& mesh) override {
		if (m_s.shape) {
			BoxSpec<dim> s(m_s);
			dealii::GridTools::transform([s](const dealii::Point<dim>& p) {return map(s, p);}, mesh);
		}
	}
	bool isCartesian() override {
		return m_s.shape == 0 || m_s.shape == 3;
	}
	void setU(boost::shared_ptr<dealii::Function<dim> > u) {
		this->setInitialU(u);
	}
	void setRho(boost::shared_ptr<dealii::Function<dim> > r) {
		this->setInitialRho(r);
	}
	void setT(boost::shared_ptr<dealii::Function<dim> > r) {
		this->setInitialT(r);
	}
};

/// a random box; max_cells bounds the number of cells
template<size_t dim> BoxSpec<dim> gen_box(Gen& g, size_t max_cells, bool walls) {
	BoxSpec<dim> s;
	size_t n;
	s.refine = g.draw(dim == 2 ? 3 : 2);
	for (size_t a = 0; a < dim; a++) {
		s.reps[a] = 1 + g.draw(4);
		s.wall[a] = walls && g.chance(40);
		s.lo[a] = g.real(-2, 2, 0.0);
		s.len[a] = g.logreal(0.3, 8, 1.0);
	}
	for (size_t a = 0; a < dim; a++)
		if (!s.wall[a])
			while (s.cells(a) < 2)
				s.reps[a]++;
	for (;;) {
		n = 1;
		for (size_t a = 0; a < dim; a++)
			n *= s.cells(a);
		if (n <= max_cells)
			break;
		size_t big = 0;
		for (size_t a = 1; a < dim; a++)
			if (s.reps[a] > s.reps[big])
				big = a;
		if (s.reps[big] > 2)
			s.reps[big]--;
		else if (s.refine > 0) {
			s.refine--;
			for (size_t a = 0; a < dim; a++)
				if (!s.wall[a])
					while (s.cells(a) < 2)
						s.reps[a]++;
		} else
			break;
	}
	// lengths of similar cells
	double h = s.len[0] / s.cells(0);
	for (size_t a = 1; a < dim; a++) {
		double ratio = g.logreal(0.5, 2, 1.0);
		s.len[a] = h * ratio * s.cells(a);
	}
	return s;
}
