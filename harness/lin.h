// Linear systems df/dt = A f + b in extended precision.
#pragma once
#include "pbt.h"

namespace lin {
typedef long double L;
typedef std::vector<L> LV;

/// a matrix by rows
struct Lin {
	size_t N;
	std::vector<std::vector<std::pair<size_t, double> > > rows;
	LV mul(const LV& x) const {
		LV y(N, 0);
		for (size_t i = 0; i < N; i++)
			for (auto& e : rows[i])
				y[i] += e.second * x[e.first];
		return y;
	}
	double norm() const { // maximum row sum
		double m = 0;
		for (auto& r : rows) {
			double s = 0;
			for (auto& e : r)
				s += std::fabs(e.second);
			m = std::max(m, s);
		}
		return m;
	}
	double norm1() const {
		std::vector<double> s(N, 0);
		for (auto& r : rows)
			for (auto& e : r)
				s[e.first] += std::fabs(e.second);
		return *std::max_element(s.begin(), s.end());
	}
	/// bound of the 2-norm
	double norm2() const {
		return std::sqrt(norm() * norm1());
	}
	/// (1 - tau A)^-1 r
	LV solve(double tau, const LV& r) const {
		if (N <= 40) {
			std::vector<LV> m(N, LV(N + 1, 0));
			for (size_t i = 0; i < N; i++) {
				m[i][i] = 1;
				for (auto& e : rows[i])
					m[i][e.first] -= (L) tau * e.second;
				m[i][N] = r[i];
			}
			for (size_t k = 0; k < N; k++) {
				size_t p = k;
				for (size_t i = k; i < N; i++)
					if (std::fabs(m[i][k]) > std::fabs(m[p][k]))
						p = i;
				std::swap(m[k], m[p]);
				if (std::fabs(m[k][k]) < 1e-3L)
					throw pbt::Discard();
				for (size_t i = 0; i < N; i++)
					if (i != k) {
						L q = m[i][k] / m[k][k];
						if (q != 0)
							for (size_t j = k; j <= N; j++)
								m[i][j] -= q * m[k][j];
					}
			}
			LV x(N);
			for (size_t i = 0; i < N; i++)
				x[i] = m[i][N] / m[i][i];
			return x;
		}
		LV x = r, t = r;
		for (int k = 0; k < 400; k++) {
			t = mul(t);
			L s = 0;
			for (size_t i = 0; i < N; i++) {
				t[i] *= tau;
				x[i] += t[i];
				s = std::max(s, std::fabs(t[i]));
			}
			if (s < 1e-20L)
				return x;
			if (s > 1e6L)
				break;
		}
		throw pbt::Discard();
	}
};
inline LV axpy(const LV& x, L a, const LV& y) {
	LV r = x;
	for (size_t i = 0; i < r.size(); i++)
		r[i] += a * y[i];
	return r;
}
inline L norm(const LV& x) {
	L s = 0;
	for (auto v : x)
		s += v * v;
	return std::sqrt(s);
}
inline LV plus(const LV& x, const LV& y) {
	return axpy(x, 1, y);
}

inline LV low_storage(const Lin& A, const LV& b, const LV& f0, double dt) {
	const L a[5] = { 0, -567301805773.0L / 1357537059087.0L, -2404267990393.0L / 2016746695238.0L, -3550918686646.0L / 2091501179385.0L,
			-1275806237668.0L / 842570457699.0L };
	const L B[5] = { 1432997174477.0L / 9575080441755.0L, 5161836677717.0L / 13612068292357.0L, 1720146321549.0L / 2090206949498.0L,
			3134564353537.0L / 4481467310338.0L, 2277821191437.0L / 14882151754819.0L };
	LV f = f0, d(A.N, 0);
	for (int i = 0; i < 5; i++) {
		LV k = plus(A.mul(f), b);
		for (size_t j = 0; j < A.N; j++) {
			d[j] = a[i] * d[j] + dt * k[j];
			f[j] += B[i] * d[j];
		}
	}
	return f;
}
/// the matrix of an operator; row (i - 1) * n + point belongs to direction i
template<size_t dim, class Operator> Lin of_operator(const Operator& op) {
	const auto& M = op.getSystemMatrix();
	const size_t blocks = M.n_block_rows(), n = op.getNumberOfDoFs();
	Lin A;
	A.N = blocks * n;
	A.rows.resize(A.N);
	for (size_t i = 0; i < blocks; i++)
		for (size_t j = 0; j < blocks; j++)
			for (size_t row = 0; row < n; row++)
				for (auto it = M.block(i, j).begin(row); it != M.block(i, j).end(row); ++it)
					if (it->value() != 0)
						A.rows[i * n + row].push_back(std::make_pair(j * n + it->column(), it->value()));
	return A;
}
}
