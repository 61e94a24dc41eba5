// Oracle of integrals over fields: own geometry, own shape functions, own quadrature.
#pragma once
#include "sl.h"

namespace fld {

/// points and weights on [0,1]
inline void rule(bool lobatto, size_t p, std::vector<double>& x, std::vector<double>& w) {
	const size_t n = p + 1;
	x.assign(n, 0);
	w.assign(n, 0);
	if (lobatto) {
		x = sl::nodes(GAUSS_LOBATTO_POINTS, p);
		for (size_t k = 0; k < n; k++) {
			double y = 2 * x[k] - 1, p0 = 1, p1 = y;
			for (size_t m = 2; m <= p; m++) {
				double p2 = ((2 * m - 1) * y * p1 - (m - 1) * p0) / m;
				p0 = p1;
				p1 = p2;
			}
			w[k] = 1.0 / (p * (p + 1) * p1 * p1);
		}
		return;
	}
	for (size_t k = 0; k < n; k++) {
		double y = -std::cos(3.14159265358979323846 * (k + 0.75) / (n + 0.5)), d = 1;
		for (int it = 0; it < 100; it++) {
			double p0 = 1, p1 = y;
			for (size_t m = 2; m <= n; m++) {
				double p2 = ((2 * m - 1) * y * p1 - (m - 1) * p0) / m;
				p0 = p1;
				p1 = p2;
			}
			d = n * (y * p1 - p0) / (y * y - 1);
			y -= p1 / d;
			if (std::fabs(p1 / d) < 1e-16)
				break;
		}
		x[k] = 0.5 * (1 + y);
		w[k] = 1.0 / ((1 - y * y) * d * d);
	}
}

/// one point of the quadrature of the whole domain
template<size_t dim> struct QPoint {
	double w;
	dealii::Point<dim> x;
	std::vector<size_t> dofs;
	std::vector<double> phi;
	std::vector<std::array<double, dim> > grad;
	double value(const std::vector<double>& v) const {
		double r = 0;
		for (size_t i = 0; i < dofs.size(); i++)
			r += v[dofs[i]] * phi[i];
		return r;
	}
	double derivative(const std::vector<double>& v, size_t a) const {
		double r = 0;
		for (size_t i = 0; i < dofs.size(); i++)
			r += v[dofs[i]] * grad[i][a];
		return r;
	}
};

template<size_t dim> std::vector<QPoint<dim> > quadrature(const AdvectionOperator<dim>& op, const std::vector<double>& nd, bool lobatto) {
	const size_t p = nd.size() - 1, n1 = p + 1, nv = 1 << dim;
	size_t n = 1;
	for (size_t a = 0; a < dim; a++)
		n *= n1;
	std::vector<double> gx, gw;
	rule(lobatto, p, gx, gw);
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	op.mapDoFsToSupportPoints(points);
	std::vector<QPoint<dim> > r;
	std::vector<dealii::types::global_dof_index> ids(op.getFe()->dofs_per_cell);
	if (ids.size() != n)
		throw std::runtime_error("unexpected element");
	auto lag = [&](size_t k, double x, double& d) {
		double v = 1;
		d = 0;
		for (size_t j = 0; j < n1; j++) {
			if (j == k)
				continue;
			d = (d * (x - nd[j]) + v) / (nd[k] - nd[j]);
			v *= (x - nd[j]) / (nd[k] - nd[j]);
		}
		return v;
	};
	for (auto cell = op.getDoFHandler()->begin_active(); cell != op.getDoFHandler()->end(); ++cell) {
		cell->get_dof_indices(ids);
		auto position = [&](const double* u, double J[dim][dim]) {
			dealii::Point<dim> x;
			for (size_t a = 0; a < dim; a++)
				for (size_t b = 0; b < dim; b++)
					J[a][b] = 0;
			for (size_t v = 0; v < nv; v++) {
				double s = 1;
				for (size_t a = 0; a < dim; a++)
					s *= v >> a & 1 ? u[a] : 1 - u[a];
				for (size_t a = 0; a < dim; a++)
					x[a] += s * cell->vertex(v)[a];
				for (size_t b = 0; b < dim; b++) {
					double t = v >> b & 1 ? 1 : -1;
					for (size_t a = 0; a < dim; a++)
						if (a != b)
							t *= v >> a & 1 ? u[a] : 1 - u[a];
					for (size_t a = 0; a < dim; a++)
						J[a][b] += t * cell->vertex(v)[a];
				}
			}
			return x;
		};
		// which local dof is which node?
		std::vector<size_t> dof(n);
		double J[dim][dim];
		for (size_t k = 0; k < n; k++) {
			double u[dim];
			size_t m = k;
			for (size_t a = 0; a < dim; a++, m /= n1)
				u[a] = nd[m % n1];
			dealii::Point<dim> x = position(u, J);
			double best = 1e300;
			for (auto i : ids)
				if (points.at(i).distance(x) < best) {
					best = points.at(i).distance(x);
					dof[k] = i;
				}
			if (best > 1e-8 * cell->diameter())
				throw std::runtime_error("node not found");
		}
		for (size_t k = 0; k < n; k++) {
			QPoint<dim> q;
			double u[dim];
			size_t qi[dim], m = k;
			for (size_t a = 0; a < dim; a++, m /= n1) {
				qi[a] = m % n1;
				u[a] = gx[qi[a]];
			}
			q.x = position(u, J);
			dealii::Tensor<2, dim> t;
			for (size_t a = 0; a < dim; a++)
				for (size_t b = 0; b < dim; b++)
					t[a][b] = J[a][b];
			q.w = dealii::determinant(t);
			dealii::Tensor<2, dim> inv = dealii::invert(t);
			for (size_t a = 0; a < dim; a++)
				q.w *= gw[qi[a]];
			q.dofs = dof;
			for (size_t i = 0; i < n; i++) {
				double v[dim], d[dim], f = 1;
				size_t mi = i;
				for (size_t a = 0; a < dim; a++, mi /= n1) {
					v[a] = lag(mi % n1, u[a], d[a]);
					f *= v[a];
				}
				q.phi.push_back(f);
				std::array<double, dim> gr;
				gr.fill(0);
				for (size_t b = 0; b < dim; b++) {
					double h = d[b];
					for (size_t a = 0; a < dim; a++)
						if (a != b)
							h *= v[a];
					for (size_t a = 0; a < dim; a++)
						gr[a] += h * inv[b][a];
				}
				q.grad.push_back(gr);
			}
			r.push_back(q);
		}
	}
	return r;
}

/// a value and the sum of the magnitudes which it is made of
struct Sum {
	double v = 0, m = 0;
	void add(double x) {
		v += x;
		m += std::fabs(x);
	}
};
/// integral of the interpolant of a nodal function
template<size_t dim, class F> Sum nodal(const std::vector<QPoint<dim> >& qs, F f) {
	Sum s;
	for (auto& q : qs)
		for (size_t i = 0; i < q.dofs.size(); i++)
			s.add(q.w * q.phi[i] * f(q.dofs[i]));
	return s;
}
template<size_t dim, class F> Sum integral(const std::vector<QPoint<dim> >& qs, F f) {
	Sum s;
	for (auto& q : qs)
		s.add(q.w * f(q));
	return s;
}
typedef std::vector<double> VD;
template<size_t dim> double vorticity2(const QPoint<dim>& q, const std::vector<VD>& u) {
	double z = q.derivative(u[1], 0) - q.derivative(u[0], 1);
	double r = z * z;
	if (dim == 3) {
		double x = q.derivative(u[dim - 1], 1) - q.derivative(u[1], dim - 1);
		double y = q.derivative(u[0], dim - 1) - q.derivative(u[dim - 1], 0);
		r += x * x + y * y;
	}
	return r;
}
template<size_t dim> double frobenius2(const QPoint<dim>& q, const std::vector<VD>& u) {
	double r = 0;
	for (size_t a = 0; a < dim; a++)
		for (size_t b = 0; b < dim; b++)
			r += std::pow(q.derivative(u[a], b), 2);
	return r;
}
/// what the library calls enstrophy: squared vorticity in two, squared velocity gradient in three dimensions
template<size_t dim> double enstrophy(const QPoint<dim>& q, const std::vector<VD>& u) {
	return dim == 2 ? vorticity2(q, u) : frobenius2(q, u);
}
}
