// C11: time integrators
#include "common.h"
#include "solver.h"
#include "lin.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/timeintegration/ThetaMethod.h"
#include "natrium/timeintegration/ExponentialTimeIntegrator.h"
#include "natrium/timeintegration/DealIIWrapper.h"
#include "deal.II/lac/dynamic_sparsity_pattern.h"
#include "deal.II/lac/block_sparsity_pattern.h"

namespace {
using namespace lin;
/// f + dt phi_1(dt A) (A f + b)
LV exact(const Lin& A, const LV& b, const LV& f, double dt) {
	// substeps, so that the series converges without cancellation
	int n = 1 + (int) (2 * dt * A.norm());
	LV x = f;
	for (int s = 0; s < n; s++) {
		LV t = plus(A.mul(x), b);
		L h = (L) dt / n;
		for (auto& v : t)
			v *= h;
		LV y = plus(x, t);
		for (int k = 2; k < 30; k++) {
			t = A.mul(t);
			for (auto& v : t)
				v *= h / k;
			y = plus(y, t);
		}
		x = y;
	}
	return x;
}
/// explicit Runge-Kutta with the weights b; the second weights give the error estimate
struct Tableau {
	std::vector<std::vector<double> > a;
	std::vector<double> b, b2;
};
LV explicit_rk(const Tableau& T, const Lin& A, const LV& b, const LV& f, double dt, L* error = nullptr) {
	std::vector<LV> k;
	for (size_t i = 0; i < T.b.size(); i++) {
		LV y = f;
		for (size_t j = 0; j < i; j++)
			y = axpy(y, (L) dt * T.a[i][j], k[j]);
		k.push_back(plus(A.mul(y), b));
	}
	LV y = f, e(A.N, 0);
	for (size_t i = 0; i < T.b.size(); i++) {
		y = axpy(y, (L) dt * T.b[i], k[i]);
		if (T.b2.size())
			e = axpy(e, (L) dt * (T.b2[i] - T.b[i]), k[i]);
	}
	if (error)
		*error = norm(e);
	return y;
}
Tableau tableau(DealIntegratorName n) {
	Tableau t;
	switch (n) {
	case FORWARD_EULER:
		t.a = { { } };
		t.b = { 1 };
		break;
	case RK_THIRD_ORDER:
		t.a = { { }, { 0.5 }, { -1, 2 } };
		t.b = { 1. / 6, 2. / 3, 1. / 6 };
		break;
	case RK_CLASSIC_FOURTH_ORDER:
		t.a = { { }, { 0.5 }, { 0, 0.5 }, { 0, 0, 1 } };
		t.b = { 1. / 6, 1. / 3, 1. / 3, 1. / 6 };
		break;
	case HEUN_EULER:
		t.a = { { }, { 1 } };
		t.b = { 0.5, 0.5 };
		t.b2 = { 1, 0 };
		break;
	case BOGACKI_SHAMPINE:
		t.a = { { }, { 0.5 }, { 0, 0.75 }, { 2. / 9, 1. / 3, 4. / 9 } };
		t.b = { 2. / 9, 1. / 3, 4. / 9, 0 };
		t.b2 = { 7. / 24, 0.25, 1. / 3, 0.125 };
		break;
	case DOPRI:
		t.a = { { }, { 1. / 5 }, { 3. / 40, 9. / 40 }, { 44. / 45, -56. / 15, 32. / 9 }, { 19372. / 6561, -25360. / 2187, 64448. / 6561, -212. / 729 }, {
				9017. / 3168, -355. / 33, 46732. / 5247, 49. / 176, -5103. / 18656 }, { 35. / 384, 0, 500. / 1113, 125. / 192, -2187. / 6784, 11. / 84 } };
		t.b = { 35. / 384, 0, 500. / 1113, 125. / 192, -2187. / 6784, 11. / 84, 0 };
		t.b2 = { 5179. / 57600, 0, 7571. / 16695, 393. / 640, -92097. / 339200, 187. / 2100, 1. / 40 };
		break;
	case FEHLBERG:
		t.a = { { }, { 0.25 }, { 3. / 32, 9. / 32 }, { 1932. / 2197, -7200. / 2197, 7296. / 2197 }, { 439. / 216, -8, 3680. / 513, -845. / 4104 }, { -8. / 27, 2,
				-3544. / 2565, 1859. / 4104, -11. / 40 } };
		t.b = { 16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55 };
		t.b2 = { 25. / 216, 0, 1408. / 2565, 2197. / 4104, -1. / 5, 0 };
		break;
	case CASH_KARP:
		t.a = { { }, { 0.2 }, { 3. / 40, 9. / 40 }, { 0.3, -0.9, 1.2 }, { -11. / 54, 2.5, -70. / 27, 35. / 27 }, { 1631. / 55296, 175. / 512, 575. / 13824, 44275.
				/ 110592, 253. / 4096 } };
		t.b = { 37. / 378, 0, 250. / 621, 125. / 594, 0, 512. / 1771 };
		t.b2 = { 2825. / 27648, 0, 18575. / 48384, 13525. / 55296, 277. / 14336, 0.25 };
		break;
	default:
		break;
	}
	return t;
}
/// (1 - theta dt A) f' = (1 + (1 - theta) dt A) f + dt b
LV theta_step(const Lin& A, const LV& b, const LV& f, double dt, double theta) {
	return A.solve(theta * dt, plus(axpy(f, (L) dt * (1 - theta), A.mul(f)), [&]{LV r = b; for (auto& v : r) v *= dt; return r;}()));
}
LV implicit_rk(DealIntegratorName n, const Lin& A, const LV& b, const LV& f, double dt) {
	if (n == BACKWARD_EULER)
		return theta_step(A, b, f, dt, 1);
	if (n == IMPLICIT_MIDPOINT || n == CRANK_NICOLSON) // the same for linear systems
		return theta_step(A, b, f, dt, 0.5);
	const double ga = 1 - 1 / std::sqrt(2.0);
	LV k1 = A.solve(ga * dt, plus(A.mul(f), b));
	LV k2 = A.solve(ga * dt, plus(A.mul(axpy(f, (L) dt * (1 - ga), k1)), b));
	return axpy(axpy(f, (L) dt * (1 - ga), k1), (L) dt * ga, k2);
}

// ---- the four kinds of matrices and vectors
template<class M, class V> struct Kind;
template<> struct Kind<sparse_matrix, numeric_vector> {
	static constexpr bool blocks = false;
	dealii::SparsityPattern sp;
	sparse_matrix A;
	void pattern(size_t nb, size_t bs) {
		dealii::DynamicSparsityPattern d(nb * bs, nb * bs);
		for (size_t i = 0; i < nb * bs; i++)
			for (size_t j = 0; j < nb * bs; j++)
				d.add(i, j);
		sp.copy_from(d);
		A.reinit(sp);
	}
	numeric_vector vec(size_t nb, size_t bs) const {
		return numeric_vector(nb * bs);
	}
	void finish(numeric_vector&) {
	}
};
template<> struct Kind<sparse_block_matrix, block_vector> {
	static constexpr bool blocks = true;
	dealii::BlockSparsityPattern sp;
	sparse_block_matrix A;
	void pattern(size_t nb, size_t bs) {
		dealii::BlockDynamicSparsityPattern d(nb, nb);
		for (size_t i = 0; i < nb; i++)
			for (size_t j = 0; j < nb; j++)
				d.block(i, j).reinit(bs, bs);
		d.collect_sizes();
		for (size_t i = 0; i < nb * bs; i++)
			for (size_t j = 0; j < nb * bs; j++)
				d.add(i, j);
		sp.copy_from(d);
		A.reinit(sp);
	}
	block_vector vec(size_t nb, size_t bs) const {
		return block_vector(nb, bs);
	}
	void finish(block_vector&) {
	}
};
template<> struct Kind<distributed_sparse_matrix, distributed_vector> {
	static constexpr bool blocks = false;
	distributed_sparse_matrix A;
	void pattern(size_t nb, size_t bs) {
		dealii::DynamicSparsityPattern d(nb * bs, nb * bs);
		for (size_t i = 0; i < nb * bs; i++)
			for (size_t j = 0; j < nb * bs; j++)
				d.add(i, j);
		A.reinit(dealii::complete_index_set(nb * bs), d, MPI_COMM_WORLD);
	}
	distributed_vector vec(size_t nb, size_t bs) const {
		distributed_vector v;
		v.reinit(dealii::complete_index_set(nb * bs), MPI_COMM_WORLD);
		return v;
	}
	void finish(distributed_vector& v) {
		v.compress(dealii::VectorOperation::insert);
	}
};
template<> struct Kind<distributed_sparse_block_matrix, distributed_block_vector> {
	static constexpr bool blocks = true;
	distributed_sparse_block_matrix A;
	void pattern(size_t nb, size_t bs) {
		dealii::DynamicSparsityPattern d(bs, bs);
		for (size_t i = 0; i < bs; i++)
			for (size_t j = 0; j < bs; j++)
				d.add(i, j);
		A.reinit(nb, nb);
		for (size_t i = 0; i < nb; i++)
			for (size_t j = 0; j < nb; j++)
				A.block(i, j).reinit(dealii::complete_index_set(bs), d, MPI_COMM_WORLD);
		A.collect_sizes();
	}
	distributed_block_vector vec(size_t nb, size_t bs) const {
		distributed_block_vector v(nb);
		for (size_t i = 0; i < nb; i++)
			v.block(i).reinit(dealii::complete_index_set(bs), MPI_COMM_WORLD);
		v.collect_sizes();
		return v;
	}
	void finish(distributed_block_vector& v) {
		v.compress(dealii::VectorOperation::insert);
	}
};
template<class M> void compress(M&) {
}
template<> void compress(distributed_sparse_matrix& A) {
	A.compress(dealii::VectorOperation::insert);
}
template<> void compress(distributed_sparse_block_matrix& A) {
	A.compress(dealii::VectorOperation::insert);
}

template<class M, class V> struct Make {
	static TimeIntegrator<M, V>* exponential(double dt, size_t) {
		return new ExponentialTimeIntegrator<M, V>(dt);
	}
};
template<> struct Make<distributed_sparse_block_matrix, distributed_block_vector> {
	typedef distributed_sparse_block_matrix M;
	typedef distributed_block_vector V;
	static TimeIntegrator<M, V>* exponential(double dt, size_t nb) {
		return new ExponentialTimeIntegrator<M, V>(dt, nb);
	}
};
template<> struct Make<sparse_block_matrix, block_vector> {
	typedef sparse_block_matrix M;
	typedef block_vector V;
	static TimeIntegrator<M, V>* exponential(double dt, size_t nb) {
		return new ExponentialTimeIntegrator<M, V>(dt, nb);
	}
};

enum Method {
	RK5, THETA, EXPO, DEAL
};
const char* deal_name[] = { "FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES",
		"HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP" };
const char* solver_name[] = { "BICGSTAB", "CG", "FGMRES", "GMRES", "MINRES", "QMRS", "RELAXATION", "RICHARDSON" };
const char* matrix_name[] = { "random", "skew", "symmetric", "nilpotent", "diagonal", "zero", "advection", "rank one", "blocks" };

struct Par {
	double coarsen = 1.2, refine = 0.8, lo = 1e-14, hi = 1e100, refine_tol = 1e-8, coarsen_tol = 1e-12;
};

/// error of the Krylov approximation with six vectors, plus the extra one for the corrected scheme
double krylov(const Lin& A, const LV& b, const LV& f, double dt) {
	double z = dt * A.norm2(), t = 1;
	for (int k = 1; k <= 7; k++)
		t *= z / k;
	return 4 * t * std::exp(z) * dt * (double) norm(plus(A.mul(f), b));
}

typedef std::vector<std::vector<double> > Dense;
Dense gen_matrix(Gen& g, int kind, size_t nb, size_t bs) {
	const size_t N = nb * bs;
	Dense a(N, std::vector<double>(N, 0));
	auto r = [&] {return g.real(-1, 1, 0.5);};
	switch (kind) {
	case 0:
		for (auto& x : a)
			for (auto& v : x)
				v = r();
		break;
	case 1:
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < i; j++)
				a[i][j] = -(a[j][i] = r());
		break;
	case 2: { // -B B^T
		Dense b = gen_matrix(g, 0, nb, bs);
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < N; j++)
				for (size_t k = 0; k < N; k++)
					a[i][j] -= b[i][k] * b[j][k] / N;
		break;
	}
	case 3:
		for (size_t i = 0; i < N; i++)
			for (size_t j = i + 1; j < N; j++)
				a[i][j] = r();
		break;
	case 4:
		for (size_t i = 0; i < N; i++)
			a[i][i] = r();
		break;
	case 5:
		break;
	case 6: // upwind transport in each block
		for (size_t k = 0; k < nb; k++) {
			double v = r();
			for (size_t i = 0; i < bs; i++) {
				a[k * bs + i][k * bs + i] -= std::fabs(v);
				a[k * bs + i][k * bs + (v > 0 ? i + bs - 1 : i + 1) % bs] += std::fabs(v);
			}
		}
		break;
	case 7: {
		std::vector<double> u(N), w(N);
		for (size_t i = 0; i < N; i++)
			u[i] = r(), w[i] = r();
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < N; j++)
				a[i][j] = u[i] * w[j];
		break;
	}
	default: // coupled blocks only
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < N; j++)
				if (i / bs == j / bs || g.chance(20))
					a[i][j] = r();
	}
	return a;
}
Lin to_lin(const Dense& a) {
	Lin l;
	l.N = a.size();
	l.rows.resize(l.N);
	for (size_t i = 0; i < l.N; i++)
		for (size_t j = 0; j < l.N; j++)
			if (a[i][j] != 0)
				l.rows[i].push_back(std::make_pair(j, a[i][j]));
	return l;
}
LV gen_vector(Gen& g, size_t N, bool zero_too) {
	LV v(N, 0);
	int kind = g.draw(zero_too ? 4 : 3);
	double c = g.real(-2, 2, 1);
	for (size_t i = 0; i < N; i++)
		v[i] = kind == 0 ? g.real(-1, 1, 0.5) : kind == 1 ? c : kind == 2 ? (i == N / 2 ? c : 0) : 0;
	return v;
}

/// the step of the oracle; returns the new time
struct Expected {
	LV f;
	double t, tol;
	double guess = 0;
	size_t tries = 0;
	bool residual = false; // compare the residual of the linear system, not the result
};
Expected expect(Ctx& c, Method m, DealIntegratorName deal, const Par& par, double theta, const Lin& A, const LV& b, const LV& f, double t, double dt, bool inexact) {
	Expected e;
	e.t = t + dt;
	double z = dt * A.norm2(), scale = (double) (norm(f) + dt * norm(b)) * std::exp(std::min(z, 5.0));
	e.tol = 1e-12 * scale * (1 + z) + 1e-300;
	if (m == RK5)
		e.f = low_storage(A, b, f, dt);
	else if (m == EXPO) {
		e.f = exact(A, b, f, dt);
		e.tol = krylov(A, b, f, dt) + 1e-11 * scale;
	} else if (m == THETA) {
		e.f = theta_step(A, b, f, dt, theta);
		LV one(A.N, 0);
		e.tol = 1e-12 * scale + 3e-6 * (double) norm(axpy(axpy(f, (L) dt * (1 - theta), A.mul(f)), dt, b));
		e.residual = true;
	} else if (deal < BACKWARD_EULER)
		e.f = explicit_rk(tableau(deal), A, b, f, dt);
	else if (deal < HEUN_EULER) {
		e.f = implicit_rk(deal, A, b, f, dt);
		// residuals 1e-6 in each stage, multiplied by dt; the inverse is bounded as z is small
		e.tol = 1e-12 * scale + 2e-5 * (1 + dt) * (1 + z);
	} else {
		Tableau T = tableau(deal);
		double d = dt;
		for (e.tries = 1;; e.tries++) {
			L err;
			e.f = explicit_rk(T, A, b, f, d, &err);
			if (std::fabs(err - par.refine_tol) < 1e-6L * par.refine_tol + 1e-14L * scale || std::fabs(err - par.coarsen_tol) < 1e-6L * par.coarsen_tol + 1e-14L * scale)
				throw pbt::Discard();
			if (err < par.coarsen_tol) {
				e.guess = std::min(d * par.coarsen, par.hi);
				break;
			}
			if (err < par.refine_tol || d == par.lo) {
				e.guess = d;
				break;
			}
			d = std::max(d * par.refine, par.lo);
			if (e.tries > 500)
				throw pbt::Discard();
		}
		e.t = t + d;
		if (e.tries > 1)
			c.label("step refined");
	}
	return e;
}

template<class M, class V> void linear(Gen& g, Ctx& c, Method m, const char* kind_name) {
	size_t nb = 1 + g.draw(3), bs = 1 + g.draw(6);
	const size_t N = nb * bs;
	int deal = m == DEAL ? g.draw(12) : 0;
	bool implicit = m == THETA || (m == DEAL && deal >= BACKWARD_EULER && deal < HEUN_EULER);
	DealSolverName ls = GMRES;
	if (m == DEAL)
		ls = (DealSolverName) g.pick(std::vector<int> { GMRES, FGMRES, BICGSTAB, RICHARDSON, CG, MINRES });
	bool symmetric = implicit && (ls == CG || ls == MINRES || ls == QMRS);
	int mk = symmetric ? g.pick(std::vector<int> { 2, 4, 5 }) : g.draw(9);
	Dense a = gen_matrix(g, mk, nb, bs);
	double theta = m == THETA ? (g.chance(40) ? 0.5 : g.chance(30) ? (g.flag() ? 0 : 1) : g.real(0, 1, 0.7)) : 0;
	Par par;
	bool own = m == DEAL && deal >= HEUN_EULER && g.chance(70);
	double dt0 = g.logreal(1e-3, 2, 0.5);
	if (own) {
		par.coarsen = g.real(1.01, 2, 1.2);
		par.refine = g.real(0.3, 0.95, 0.5);
		par.lo = dt0 * g.logreal(1e-4, 1, 0.01);
		par.hi = dt0 * g.logreal(1, 10, 2);
		par.refine_tol = g.logreal(1e-10, 1e-2, 1e-4);
		par.coarsen_tol = par.refine_tol * g.logreal(1e-4, 0.9, 0.1);
	}
	boost::shared_ptr<TimeIntegrator<M, V> > ti;
	DealIIWrapper<M, V>* wrapper = nullptr;
	Kind<M, V> k;
	k.pattern(nb, bs);
	V f = k.vec(nb, bs), b = k.vec(nb, bs);
	if (m == RK5)
		ti.reset(new RungeKutta5LowStorage<M, V>(dt0, f));
	else if (m == THETA)
		ti.reset(new ThetaMethod<M, V>(dt0, f, theta));
	else if (m == EXPO)
		ti.reset(Make<M, V>::exponential(dt0, nb));
	else {
		wrapper = own ? new DealIIWrapper<M, V>(dt0, (DealIntegratorName) deal, ls, par.coarsen, par.refine, par.lo, par.hi, par.refine_tol, par.coarsen_tol)
				: new DealIIWrapper<M, V>(dt0, (DealIntegratorName) deal, ls);
		ti.reset(wrapper);
	}
	const char* mn = m == RK5 ? "RungeKutta5LowStorage" : m == THETA ? "ThetaMethod" : m == EXPO ? "ExponentialTimeIntegrator" : deal_name[deal];
	c.desc << mn;
	if (m == THETA)
		c.desc << " theta " << theta;
	if (m == DEAL)
		c.desc << " " << solver_name[ls];
	if (own)
		c.desc << " (" << par.coarsen << " " << par.refine << " " << par.lo << " " << par.hi << " " << par.refine_tol << " " << par.coarsen_tol << ")";
	c.desc << " " << kind_name << ", " << nb << " blocks of " << bs << ", " << matrix_name[mk] << " matrix;";
	c.key = std::string("linear/") + mn;
	c.label(mn);
	c.label(matrix_name[mk]);
	LV F = gen_vector(g, N, true), B(N, 0);
	double t = g.chance(50) ? 0 : g.real(-5, 5, 1), stored = dt0;
	int steps = g.range(1, 4);
	for (int s = 0; s < steps; s++) {
		// something else changes f, A, b and dt between the steps
		if (s == 0 || g.chance(30))
			B = g.chance(40) ? LV(N, 0) : gen_vector(g, N, true);
		if (s && g.chance(30))
			a = gen_matrix(g, mk, nb, bs);
		if (s && g.chance(40))
			F = gen_vector(g, N, true);
		double dt = g.chance(50) ? stored : g.logreal(1e-3, 2, 0.5);
		if (own)
			dt = std::max(dt, par.lo * 1.001);
		bool given = dt != stored || g.flag();
		double nrm = std::max(1e-300, to_lin(a).norm2()), want = g.logreal(1e-3, m == DEAL && implicit ? (ls == RICHARDSON ? 0.4 : 0.8) : m == THETA ? 3 : m == EXPO ? 1.5 : 2, 0.5);
		Dense as = a;
		double fac = want / dt / nrm;
		if (mk != 5)
			for (auto& x : as)
				for (auto& v : x)
					v *= fac;
		if (m == THETA && theta < 0.5 && false)
			throw pbt::Discard();
		Lin A = to_lin(as);
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < N; j++)
				k.A.set(i, j, as[i][j]);
		compress(k.A);
		LV Bs = B;
		for (auto& v : Bs)
			v /= dt;
		for (size_t i = 0; i < N; i++)
			f(i) = (double) F[i], b(i) = (double) Bs[i], F[i] = (double) F[i], Bs[i] = (double) Bs[i];
		k.finish(f);
		k.finish(b);
		c.desc << " dt " << dt << (given ? "" : " (stored)") << " z " << want << " f";
		for (size_t i = 0; i < std::min<size_t>(N, 4); i++)
			c.desc << " " << (double) F[i];
		c.desc << " b";
		for (size_t i = 0; i < std::min<size_t>(N, 4); i++)
			c.desc << " " << (double) Bs[i];
		c.desc << ";";
		Expected e = expect(c, m, (DealIntegratorName) deal, par, theta, A, Bs, F, t, dt, implicit);
		double tn;
		try {
			tn = ti->step(f, k.A, b, t, given ? dt : 0);
		} catch (const dealii::SolverControl::NoConvergence& x) {
			// the short recurrences can break down; the others must not
			if (m == THETA || ls == BICGSTAB || ls == QMRS || ls == MINRES)
				throw pbt::Discard();
			FAIL("step " << s << ": the linear solver did not converge");
		}
		stored = given ? dt : stored;
		CLOSE(tn, e.t, 1e-13 * (std::fabs(t) + dt), "time after step " << s);
		CLOSE(ti->getTimeStepSize(), stored, 0, "time step size after step " << s);
		LV got(N), diff(N);
		for (size_t i = 0; i < N; i++) {
			got[i] = (double) f(i);
			CHECK(std::isfinite((double) got[i]), "step " << s << ": component " << i << " is " << (double) got[i]);
			diff[i] = got[i] - e.f[i];
			CLOSE((double) b(i), (double) Bs[i], 0, "the system vector was changed in component " << i);
		}
		if (e.residual)
			diff = axpy(diff, -(L) dt * theta, A.mul(diff));
		CLOSE((double) norm(diff), 0, e.tol, "step " << s << ": " << (e.residual ? "residual" : "2-norm of the difference to the reference"));
		if (m == DEAL && deal >= HEUN_EULER) {
			const auto& st = wrapper->getDealIIEmbedded()->get_status();
			CLOSE(st.delta_t_guess, e.guess, 1e-12 * e.guess, "guess of the next time step");
		}
		F = got;
		t = tn;
		if (norm(plus(A.mul(F), Bs)) > 0 && s > 0)
			c.nontrivial = true;
	}
}
void any_kind(Gen& g, Ctx& c, Method m) {
	switch (g.draw(4)) {
	case 0:
		linear<sparse_matrix, numeric_vector>(g, c, m, "sparse matrix");
		break;
	case 1:
		linear<sparse_block_matrix, block_vector>(g, c, m, "block matrix");
		break;
	case 2:
		linear<distributed_sparse_matrix, distributed_vector>(g, c, m, "distributed matrix");
		break;
	default:
		linear<distributed_sparse_block_matrix, distributed_block_vector>(g, c, m, "distributed block matrix");
	}
}
}
LAW(rk5, 12000, 1000000, 2) {
	any_kind(g, c, RK5);
}
LAW(theta, 12000, 1000000, 2) {
	any_kind(g, c, THETA);
}
LAW(exponential, 12000, 600000, 4) {
	any_kind(g, c, EXPO);
}
LAW(deal, 40000, 2000000, 6) {
	any_kind(g, c, DEAL);
}

/// the solver with the SEDG operator
namespace {
template<size_t dim> void sedg(Gen& g, Ctx& c, size_t cells) {
	slv::Run<dim> r;
	slv::gen_flow<dim>(g, r, false, cells);
	r.pts = GAUSS_LOBATTO_POINTS;
	r.s.local.clear();
	r.make_config();
	int method = g.draw(4), deal = 0;
	double theta = 0;
	DealSolverName ls = GMRES;
	SolverConfiguration& cf = *r.cfg;
	cf.setAdvectionScheme(SEDG);
	Par par;
	bool implicit = false;
	if (method == RK5)
		cf.setTimeIntegrator(RUNGE_KUTTA_5STAGE);
	else if (method == THETA) {
		theta = g.real(0.5, 1, 0.5);
		cf.setTimeIntegrator(THETA_METHOD);
		cf.setThetaMethodTheta(theta);
		implicit = true;
	} else if (method == EXPO)
		cf.setTimeIntegrator(EXPONENTIAL);
	else {
		cf.setTimeIntegrator(OTHER);
		deal = g.draw(12);
		ls = (DealSolverName) g.pick(std::vector<int> { GMRES, FGMRES, BICGSTAB });
		cf.setDealIntegrator((DealIntegratorName) deal);
		cf.setDealLinearSolver(ls);
		implicit = deal >= BACKWARD_EULER && deal < HEUN_EULER;
	}
	r.cfl = (implicit || method == EXPO ? g.real(0.02, 0.15, 0.1) : g.real(0.05, 0.3, 0.2));
	double um = r.set.st->getMaxParticleVelocityMagnitude();
	const double unit = slv::min_edge(r.s) / (um * r.order * r.order);
	double dt = r.cfl * unit;
	cf.setCFL(r.cfl);
	r.set.set_tau(r.set.tau > 0 ? r.set.tau : 1, dt);
	if (method == DEAL && deal >= HEUN_EULER) {
		par.coarsen = g.real(1.01, 2, 1.2);
		par.refine = g.real(0.3, 0.95, 0.5);
		double lo = r.cfl * g.logreal(0.05, 0.9, 0.3), hi = r.cfl * g.logreal(1.1, 3, 2);
		par.refine_tol = g.logreal(1e-9, 1e-3, 1e-5);
		par.coarsen_tol = par.refine_tol * g.logreal(1e-3, 0.9, 0.1);
		cf.setEmbeddedDealIntegratorParameters(par.coarsen, par.refine, lo, hi, par.refine_tol, par.coarsen_tol);
		par.lo = lo * unit;
		par.hi = hi * unit;
	}
	const char* mn = method == RK5 ? "RungeKutta5LowStorage" : method == THETA ? "ThetaMethod" : method == EXPO ? "ExponentialTimeIntegrator" : deal_name[deal];
	slv::WallVelocity<dim> wv;
	bool moving = false;
	for (size_t a = 0; a < dim; a++)
		if (r.s.wall[a] && g.chance(50)) {
			moving = true;
			for (size_t i = 0; i < dim; i++)
				wv.a[i] = g.real(-0.1, 0.1, 0.05);
		}
	if (moving)
		r.s.boundary = [&](size_t w) -> boost::shared_ptr<Boundary<dim> > {
			dealii::Vector<double> u(dim);
			for (size_t i = 0; i < dim; i++)
				u(i) = wv.a[i];
			return boost::make_shared<VelocityNeqBounceBack<dim> >(w, u);
		};
	c.desc << mn << " ";
	if (method == THETA)
		c.desc << "theta " << theta << " ";
	if (method == DEAL)
		c.desc << solver_name[ls] << " ";
	if (moving)
		c.desc << "moving walls ";
	r.describe(c.desc);
	c.key = std::string("sedg/") + mn;
	c.label(mn);
	r.make_problem();
	CFDSolver<dim> solver(r.cfg, r.pb);
	const auto& op = *solver.getAdvectionOperator();
	const size_t Q = r.set.st->getQ(), n = op.getNumberOfDoFs(), N = (Q - 1) * n;
	Lin A = lin::of_operator<dim>(op);
	LV b(N);
	for (size_t i = 0; i < N; i++)
		b[i] = (double) op.getSystemVector()(i);
	CLOSE(solver.getTimeStepSize(), dt, 1e-12 * dt, "time step size");
	auto take = [&](LV& f, coll::V& rest) {
		f.assign(N, 0);
		rest.assign(n, 0);
		for (size_t i = 0; i < Q; i++)
			for (size_t d = 0; d < n; d++)
				if (i)
					f[(i - 1) * n + d] = (double) solver.getF().at(i)(d);
				else
					rest[d] = solver.getF().at(0)(d);
	};
	auto tau_of = [&](double step) {return r.set.nu / (step * r.set.st->getSpeedOfSoundSquare()) + 0.5;};
	double t = 0;
	solver.collide();
	for (size_t s = 0; s < std::min<size_t>(r.steps, 4); s++) {
		LV f, got, diff(N);
		coll::V rest, rest2;
		take(f, rest);
		Expected e = expect(c, (Method) method, (DealIntegratorName) deal, par, theta, A, b, f, 0, dt, implicit);
		solver.stream();
		take(got, rest2);
		for (size_t i = 0; i < N; i++) {
			CHECK(std::isfinite((double) got[i]), "step " << s << ": population " << i << " is " << (double) got[i]);
			diff[i] = got[i] - e.f[i];
		}
		for (size_t d = 0; d < n; d++)
			CLOSE(rest2[d], rest[d], 0, "resting population at " << d);
		if (e.residual)
			diff = axpy(diff, -(L) dt * theta, A.mul(diff));
		CLOSE((double) norm(diff), 0, e.tol, "step " << s << ": " << (e.residual ? "residual" : "2-norm of the difference to the reference"));
		dt = e.t;
		t += dt;
		CLOSE(solver.getTime(), t, 1e-12 * t, "time after step " << s);
		// the collision belongs to the step that was made
		coll::VV before(Q, coll::V(n));
		for (size_t i = 0; i < Q; i++)
			for (size_t d = 0; d < n; d++)
				before[i][d] = i ? (double) got[(i - 1) * n + d] : rest2[d];
		solver.collide();
		coll::Setup set = r.set;
		set.dt = dt;
		set.tau = tau_of(dt);
		c.key = std::string("collision/") + mn;
		for (size_t d = 0; d < n; d++) {
			coll::V x = coll::point(before, d), y = coll::reference(set, x, coll::V(3, 0));
			double m = coll::norm1(x) + coll::norm1(y);
			for (size_t i = 0; i < Q; i++)
				CLOSE(solver.getF().at(i)(d), y[i], 1e-10 * m, "population " << i << " at point " << d << " after the collision of step " << s << " (dt " << dt << ")");
		}
		c.key = std::string("sedg/") + mn;
	}
	c.nontrivial = r.rho->comp[0].c1 != 0 || moving;
}
}
LAW(sedg2d, 800, 30000, 8) {
	sedg<2>(g, c, 12);
}
LAW(sedg3d, 80, 2000, 8) {
	sedg<3>(g, c, 4);
}
HARNESS_MAIN
