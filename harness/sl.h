// Oracle of semi-Lagrangian streaming on boxes: follow the path backwards, interpolate at the departure point.
#pragma once
#include "problems.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/solver/DistributionFunctions.h"

namespace sl {

/// nodes of the named family on [0,1]
inline std::vector<double> nodes(SupportPointsName name, size_t p) {
	const double pi = 3.14159265358979323846;
	std::vector<double> r(p + 1);
	for (size_t k = 0; k <= p; k++) {
		if (name == EQUIDISTANT_POINTS)
			r[k] = (double) k / p;
		else if (name == GAUSS_LOBATTO_CHEBYSHEV_POINTS)
			r[k] = 0.5 - 0.5 * std::cos(pi * k / p);
		else {
			// zeros of (1-x^2) P_p'(x) by Newton's method
			double x = -std::cos(pi * k / p);
			if (k > 0 && k < p)
				for (int it = 0; it < 100; it++) {
					double p0 = 1, p1 = x;
					for (size_t n = 2; n <= p; n++) {
						double p2 = ((2 * n - 1) * x * p1 - (n - 1) * p0) / n;
						p0 = p1;
						p1 = p2;
					}
					// x p1 - p0 is proportional to (x^2-1) P'
					double dx = (x * p1 - p0) / ((p + 1) * p1);
					x -= dx;
					if (std::fabs(dx) < 1e-16)
						break;
				}
			r[k] = 0.5 * (1 + x);
		}
	}
	return r;
}

struct Path {
	std::vector<double> y;      // departure point
	bool reversed = false;      // odd number of reflections
	bool doubtful = false;      // too close to a wall to tell
	bool lost = false;          // trapped in a corner
	std::vector<std::pair<std::vector<double>, double>> hits;   // where, and how long before arrival
	std::vector<size_t> hit_wall;
};

/// the path of a particle which arrives at x with velocity e after dt; walls reflect it back to where it came from
template<size_t dim> Path trace(const BoxSpec<dim>& s, const double* x, const double* e, double dt) {
	Path r;
	double pos[dim], v[dim];
	for (size_t a = 0; a < dim; a++) {
		pos[a] = x[a];
		v[a] = -e[a];
	}
	double left = dt;
	for (int n = 0;; n++) {
		double t = left;
		size_t wall = 99;
		for (size_t a = 0; a < dim; a++) {
			if (!s.wall[a] || v[a] == 0)
				continue;
			double end = pos[a] + v[a] * left;
			double lo = s.lo[a], hi = s.lo[a] + s.len[a], h = s.h(a);
			double over = std::max(lo - end, end - hi) / h;
			if (over > 1e-13 && over < 1e-8)
				r.doubtful = true;
			if (over > 1e-10) {
				double th = ((v[a] < 0 ? lo : hi) - pos[a]) / v[a];
				if (th < t) {
					t = std::max(th, 0.);
					wall = 2 * a + (v[a] > 0);
				}
			}
		}
		if (wall == 99)
			break;
		if (n > 45) {
			r.lost = true;
			break;
		}
		std::vector<double> p(dim);
		for (size_t a = 0; a < dim; a++) {
			pos[a] += v[a] * t;
			v[a] = -v[a];
		}
		left -= t;
		for (size_t a = 0; a < dim; a++)
			p[a] = pos[a];
		r.hits.push_back(std::make_pair(p, dt - left));
		r.hit_wall.push_back(wall);
		r.reversed = !r.reversed;
	}
	r.y.resize(dim);
	for (size_t a = 0; a < dim; a++) {
		r.y[a] = pos[a] + v[a] * left;
		if (!s.wall[a]) {
			double q = std::fmod(r.y[a] - s.lo[a], s.len[a]);
			if (q < 0)
				q += s.len[a];
			r.y[a] = s.lo[a] + q;
		}
	}
	return r;
}

/// the cells of a Cartesian mesh with their nodes
template<size_t dim> struct Cells {
	struct C {
		double lo[dim], hi[dim];
		std::vector<dealii::types::global_dof_index> dofs;
	};
	std::vector<C> cells;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	Cells(const AdvectionOperator<dim>& op) {
		op.mapDoFsToSupportPoints(points);
		for (auto cell = op.getDoFHandler()->begin_active(); cell != op.getDoFHandler()->end(); ++cell) {
			C c;
			for (size_t a = 0; a < dim; a++) {
				c.lo[a] = cell->vertex(0)[a];
				c.hi[a] = cell->vertex(dealii::GeometryInfo<dim>::vertices_per_cell - 1)[a];
			}
			c.dofs.resize(op.getFe()->dofs_per_cell);
			cell->get_dof_indices(c.dofs);
			cells.push_back(c);
		}
	}
	std::vector<size_t> containing(const std::vector<double>& y, double tol) const {
		std::vector<size_t> r;
		for (size_t i = 0; i < cells.size(); i++) {
			bool in = true;
			for (size_t a = 0; a < dim && in; a++) {
				double t = tol * (cells[i].hi[a] - cells[i].lo[a]);
				in = y[a] >= cells[i].lo[a] - t && y[a] <= cells[i].hi[a] + t;
			}
			if (in)
				r.push_back(i);
		}
		return r;
	}
	static double lagrange(const std::vector<double>& n, size_t k, double x) {
		double r = 1;
		for (size_t j = 0; j < n.size(); j++)
			if (j != k)
				r *= (x - n[j]) / (n[k] - n[j]);
		return r;
	}
	/// interpolation weights at y
	std::map<dealii::types::global_dof_index, double> weights(size_t cell, const std::vector<double>& nd,
			const std::vector<double>& y) const {
		const C& c = cells[cell];
		std::map<dealii::types::global_dof_index, double> r;
		for (auto d : c.dofs) {
			double w = 1;
			for (size_t a = 0; a < dim; a++) {
				double h = c.hi[a] - c.lo[a];
				double u = (y[a] - c.lo[a]) / h, s = (points.at(d)[a] - c.lo[a]) / h;
				size_t k = 99;
				for (size_t i = 0; i < nd.size(); i++)
					if (std::fabs(nd[i] - s) < 1e-9)
						k = i;
				if (k == 99)
					return std::map<dealii::types::global_dof_index, double>();
				w *= lagrange(nd, k, u);
			}
			r[d] += w;
		}
		return r;
	}
};

/// all cells which contain the point or one of its periodic images
template<size_t dim> std::vector<std::pair<size_t, std::vector<double>>> candidates(const BoxSpec<dim>& s,
		const Cells<dim>& cells, const std::vector<double>& y) {
	std::vector<std::vector<double>> im(1, y);
	for (size_t a = 0; a < dim; a++) {
		if (s.wall[a])
			continue;
		double tol = 1e-8 * s.len[a];
		for (size_t k = 0, n = im.size(); k < n; k++)
			for (int d : { -1, 1 }) {
				std::vector<double> z = im[k];
				z[a] += d * s.len[a];
				if (z[a] >= s.lo[a] - tol && z[a] <= s.lo[a] + s.len[a] + tol)
					im.push_back(z);
			}
	}
	std::vector<std::pair<size_t, std::vector<double>>> r;
	for (auto& z : im)
		for (size_t c : cells.containing(z, 1e-9))
			r.push_back(std::make_pair(c, z));
	return r;
}

/// row of the streaming matrix: (direction, dof) -> weight
template<size_t dim> std::map<std::pair<size_t, size_t>, double> row(const AdvectionOperator<dim>& op, size_t alpha,
		size_t dof) {
	std::map<std::pair<size_t, size_t>, double> r;
	const size_t Q = op.getStencil()->getQ();
	for (size_t beta = 1; beta < Q; beta++) {
		const auto& b = op.getSystemMatrix().block(alpha - 1, beta - 1);
		for (auto it = b.begin(dof); it != b.end(dof); ++it)
			if (it->value() != 0)
				r[std::make_pair(beta, (size_t) it->column())] += it->value();
	}
	return r;
}

inline StencilP gen_stencil(Gen& g, size_t dim, size_t maxQ, double& scaling, std::string& name) {
	std::vector<const StencilInfo*> c;
	for (auto& s : all_stencils())
		if (s.D == dim && s.Q <= maxQ)
			c.push_back(&s);
	const StencilInfo* s = g.pick(c);
	scaling = g.chance(50) ? g.logreal(0.2, 5, 1.0) : 1.0;
	name = s->name;
	return s->make(scaling);
}
template<size_t dim> double emax(const Stencil& s) {
	double m = 0;
	for (size_t i = 0; i < s.getQ(); i++)
		for (size_t a = 0; a < dim; a++)
			m = std::max(m, std::fabs(s.getDirection(i)(a)));
	return m;
}
inline size_t opposite(const Stencil& s, size_t i) {
	for (size_t j = 0; j < s.getQ(); j++) {
		double d = 0;
		for (size_t a = 0; a < s.getD(); a++)
			d = std::max(d, std::fabs(s.getDirection(i)(a) + s.getDirection(j)(a)));
		if (d < 1e-10 * s.getScaling())
			return j;
	}
	return 99999;
}
inline SupportPointsName gen_points(Gen& g, std::string& name) {
	switch (g.draw(4)) {
	case 1:
		name = "Gauss-Lobatto-Chebyshev";
		return GAUSS_LOBATTO_CHEBYSHEV_POINTS;
	case 2:
		name = "equidistant";
		return EQUIDISTANT_POINTS;
	default:
		name = "Gauss-Lobatto";
		return GAUSS_LOBATTO_POINTS;
	}
}
}
