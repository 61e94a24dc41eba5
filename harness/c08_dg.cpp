// C08: the spectral element discontinuous Galerkin operator.
#include "fields.h"
#include "natrium/advection/SEDGMinLee.h"
#include <numeric>
typedef std::map<std::pair<size_t, size_t>, double> Row;

/// velocity of a wall, linear in space
template<size_t dim> struct LinearVelocity: public dealii::Function<dim> {
	double a[dim], b[dim][dim];
	LinearVelocity() :
			dealii::Function<dim>(dim) {
	}
	double value(const dealii::Point<dim>& p, const unsigned int i = 0) const override {
		double r = a[i];
		for (size_t k = 0; k < dim; k++)
			r += b[i][k] * p[k];
		return r;
	}
	void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const override {
		for (size_t i = 0; i < dim; i++)
			v(i) = value(p, i);
	}
};

template<size_t dim> struct Case {
	BoxSpec<dim> s;
	size_t order;
	double scaling;
	bool central = false, moving = false;
	std::string sn;
	StencilP st;
	boost::shared_ptr<LinearVelocity<dim> > wu[2 * dim];
	boost::shared_ptr<BoxProblem<dim> > pb;
	boost::shared_ptr<SEDGMinLee<dim> > op;
	std::vector<fld::QPoint<dim> > qs;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
	/// one point of a face
	struct FacePoint {
		size_t dof, other;             // of this cell, of the neighbour
		size_t wall;                   // 99: no wall
		double area[dim];              // normal times weight
	};
	std::vector<FacePoint> faces;
	std::vector<double> mass;          // per dof
	std::vector<std::vector<std::pair<size_t, std::array<double, dim> > > > grad; // per dof: derivatives of the basis there

	void generate(Gen& g, Ctx& c, size_t cells, size_t max_order, bool walls, bool deformed) {
		s = gen_box<dim>(g, cells, walls);
		if (deformed && g.chance(50)) {
			s.shape = 1 + g.draw(3);
			s.amount = g.real(-0.4, 0.4, 0.2);
			if (s.shape == 1)
				for (size_t a = 1; a < dim; a++) {
					if (!walls)
						s.shape = 3;
					else
						s.wall[a] = true;
				}
		}
		order = 1 + g.draw(max_order);
		st = sl::gen_stencil(g, dim, 27, scaling, sn);
		central = g.chance(25);
		moving = walls && g.flag();
		if (moving) {
			for (auto& w : wu) {
				w = boost::make_shared<LinearVelocity<dim> >();
				for (size_t a = 0; a < dim; a++) {
					w->a[a] = g.real(-1, 1, 0.1);
					for (size_t b = 0; b < dim; b++)
						w->b[a][b] = g.flag() ? g.real(-1, 1, 0.5) : 0;
				}
			}
			auto u = wu;
			std::vector<boost::shared_ptr<LinearVelocity<dim> > > v(u, u + 2 * dim);
			s.boundary = [v](size_t w) -> boost::shared_ptr<Boundary<dim> > {
				return boost::make_shared<VelocityNeqBounceBack<dim> >(w, boost::shared_ptr<dealii::Function<dim> >(v[w]));
			};
		}
		s.print(c.desc);
		c.desc << ", order " << order << ", " << sn << " scaling " << scaling << (central ? ", central flux" : "") << (moving ? ", moving walls" : "");
		c.label(central ? "central" : "upwind");
		c.label("shape " + std::to_string(s.shape));
		if (moving)
			c.label("moving walls");
	}
	void make() {
		pb = boost::make_shared<BoxProblem<dim> >(s);
		pb->refineAndTransform();
		op = boost::make_shared<SEDGMinLee<dim> >(*pb, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, central);
		op->setupDoFs();
		op->reassemble();
		geometry();
	}
	size_t n() const {
		return op->getDoFHandler()->n_dofs();
	}
	void geometry() {
		const std::vector<double> nd = sl::nodes(GAUSS_LOBATTO_POINTS, order);
		qs = fld::quadrature<dim>(*op, nd, true);
		op->mapDoFsToSupportPoints(points);
		std::vector<double> gx, gw;
		fld::rule(true, order, gx, gw);
		mass.assign(n(), 0);
		grad.resize(n());
		const size_t n1 = order + 1;
		size_t np = 1;
		for (size_t a = 0; a < dim; a++)
			np *= n1;
		// the point of quadrature k of a cell is its node k
		struct FP {
			size_t dof;
			dealii::Point<dim> x;
			double area[dim];
		};
		struct F {
			size_t cell;
			dealii::Point<dim> mid;
			size_t wall;
			std::vector<FP> p;
		};
		std::vector<F> fs;
		size_t cell_no = 0;
		double h = s.hmin();
		for (auto cell = op->getDoFHandler()->begin_active(); cell != op->getDoFHandler()->end(); ++cell, ++cell_no) {
			for (size_t k = 0; k < np; k++) {
				const fld::QPoint<dim>& q = qs[cell_no * np + k];
				size_t d = q.dofs[k];
				mass[d] = q.w;
				for (size_t i = 0; i < np; i++)
					grad[d].push_back(std::make_pair(q.dofs[i], q.grad[i]));
			}
			for (size_t a = 0; a < dim; a++)
				for (size_t side = 0; side < 2; side++) {
					F f;
					f.cell = cell_no;
					f.wall = 99;
					for (size_t v = 0; v < (1u << dim); v++)
						if ((v >> a & 1) == side)
							for (size_t b = 0; b < dim; b++)
								f.mid[b] += cell->vertex(v)[b] / (1 << (dim - 1));
					for (size_t k = 0; k < np; k++) {
						size_t m = k, idx[dim];
						for (size_t b = 0; b < dim; b++, m /= n1)
							idx[b] = m % n1;
						if (idx[a] != (side ? order : 0))
							continue;
						FP p;
						double u[dim];
						for (size_t b = 0; b < dim; b++)
							u[b] = gx[idx[b]];
						// columns of the Jacobian
						double J[3][3] = { { 0 } };
						for (size_t v = 0; v < (1u << dim); v++)
							for (size_t b = 0; b < dim; b++) {
								double t = v >> b & 1 ? 1 : -1;
								for (size_t e = 0; e < dim; e++)
									if (e != b)
										t *= v >> e & 1 ? u[e] : 1 - u[e];
								for (size_t e = 0; e < dim; e++)
									J[e][b] += t * cell->vertex(v)[e];
							}
						double nrm[3], sg = side ? 1 : -1;
						if (dim == 2) {
							// normal = cofactor column
							nrm[0] = a == 0 ? J[1][1] : -J[1][0];
							nrm[1] = a == 0 ? -J[0][1] : J[0][0];
						} else {
							size_t b = (a + 1) % 3, e = (a + 2) % 3;
							nrm[0] = J[1][b] * J[2][e] - J[2][b] * J[1][e];
							nrm[1] = J[2][b] * J[0][e] - J[0][b] * J[2][e];
							nrm[2] = J[0][b] * J[1][e] - J[1][b] * J[0][e];
						}
						double w = 1;
						for (size_t b = 0; b < dim; b++)
							if (b != a)
								w *= gw[idx[b]];
						for (size_t b = 0; b < dim; b++)
							p.area[b] = sg * w * nrm[b];
						p.dof = qs[cell_no * np + k].dofs[k];
						p.x = points.at(p.dof);
						f.p.push_back(p);
					}
					auto face = cell->face(2 * a + side);
					if (face->at_boundary() && s.wall[face->boundary_id() / 2])
						f.wall = face->boundary_id();
					fs.push_back(f);
				}
		}
		auto image = [&](const dealii::Point<dim>& x, const dealii::Point<dim>& y) {
			// y is x or a periodic image of x
			for (size_t b = 0; b < dim; b++) {
				double d = std::fabs(x[b] - y[b]);
				if (d > 1e-6 * h && (s.wall[b] || std::fabs(d - s.len[b]) > 1e-6 * h))
					return false;
			}
			return true;
		};
		for (auto& f : fs) {
			const F* o = 0;
			if (f.wall == 99)
				for (auto& x : fs)
					if (&x != &f && image(x.mid, f.mid) && (x.cell != f.cell || x.p[0].area[0] * f.p[0].area[0] <= 0)) {
						// opposite normals
						double dot = 0;
						for (size_t b = 0; b < dim; b++)
							dot += x.p[0].area[b] * f.p[0].area[b];
						if (dot < 0 && !o)
							o = &x;
					}
			if (f.wall == 99 && !o)
				throw std::runtime_error("no neighbour found");
			for (auto& p : f.p) {
				FacePoint r;
				r.dof = p.dof;
				r.wall = f.wall;
				r.other = 999999;
				for (size_t b = 0; b < dim; b++)
					r.area[b] = p.area[b];
				if (o) {
					for (auto& y : o->p)
						if (image(y.x, p.x))
							r.other = y.dof;
					if (r.other == 999999)
						throw std::runtime_error("no node found in the neighbour");
				}
				faces.push_back(r);
			}
		}
	}
	/// the operator as it should be
	void expected(std::vector<std::vector<Row> >& A, std::vector<std::vector<double> >& b) const {
		const size_t Q = st->getQ();
		A.assign(Q, std::vector<Row>(n()));
		b.assign(Q, std::vector<double>(n(), 0.0));
		for (size_t i = 1; i < Q; i++) {
			double e[dim];
			for (size_t a = 0; a < dim; a++)
				e[a] = st->getDirection(i)(a);
			for (size_t d = 0; d < n(); d++)
				for (auto& x : grad[d]) {
					double v = 0;
					for (size_t a = 0; a < dim; a++)
						v -= e[a] * x.second[a];
					A[i][d][std::make_pair(i, x.first)] += v;
				}
			for (auto& f : faces) {
				double en = 0;
				for (size_t a = 0; a < dim; a++)
					en += e[a] * f.area[a];
				double v = (central ? 0.5 : en < 0 ? 1.0 : 0.0) * en / mass[f.dof];
				A[i][f.dof][std::make_pair(i, f.dof)] += v;
				if (f.wall == 99)
					A[i][f.dof][std::make_pair(i, f.other)] -= v;
				else {
					A[i][f.dof][std::make_pair(sl::opposite(*st, i), f.dof)] -= v;
					if (moving) {
						double eu = 0;
						for (size_t a = 0; a < dim; a++)
							eu += e[a] * wu[f.wall]->value(points.at(f.dof), a);
						b[i][f.dof] -= 2 * v * st->getWeight(i) * eu / st->getSpeedOfSoundSquare();
					}
				}
			}
		}
	}
	void compare(Ctx& c, const char* when) const {
		std::vector<std::vector<Row> > A;
		std::vector<std::vector<double> > b;
		expected(A, b);
		double big = 0;
		for (size_t i = 1; i < st->getQ(); i++)
			for (size_t d = 0; d < n(); d++)
				for (auto& x : A[i][d])
					big = std::max(big, std::fabs(x.second));
		for (size_t i = 1; i < st->getQ(); i++)
			for (size_t d = 0; d < n(); d++) {
				Row got = sl::row<dim>(*op, i, d);
				for (auto& x : A[i][d])
					got[x.first] -= x.second;
				for (auto& x : got) {
					auto w = A[i][d].find(x.first);
					double want = w == A[i][d].end() ? 0 : w->second;
					CLOSE(x.second + want, want, 1e-10 * big, when << "entry of direction " << i << " at (" << points.at(d) << ") for direction " << x.first.first << " at ("
							<< points.at(x.first.second) << ")");
				}
				CLOSE(op->getSystemVector().block(i - 1)(d), b[i][d], 1e-10 * big, when << "boundary term of direction " << i << " at (" << points.at(d) << ")");
			}
	}
};

template<size_t dim> void matrix(Gen& g, Ctx& c, size_t cells) {
	Case<dim> k;
	k.generate(g, c, cells, dim == 2 ? 5 : 3, true, true);
	c.key = std::string("matrix/") + (k.central ? "central" : "upwind");
	k.make();
	k.compare(c, "");
	if (g.chance(25)) {
		k.op->reassemble();
		c.key += "/again";
		k.compare(c, "assembled twice: ");
	}
	bool walls = false;
	for (auto& f : k.faces)
		walls = walls || f.wall != 99;
	c.nontrivial = k.order > 1 || walls || k.s.shape;
	if (walls)
		c.label("walls");
}
LAW(matrix2d, 240, 12000, 8) {
	matrix<2>(g, c, 16);
}
LAW(matrix3d, 56, 2000, 8) {
	matrix<3>(g, c, 8);
}

template<size_t dim> std::vector<std::vector<double> > apply_op(const Case<dim>& k, const std::vector<std::vector<double> >& f) {
	std::vector<std::vector<double> > r(f.size(), std::vector<double>(k.n(), 0.0));
	for (size_t i = 1; i < f.size(); i++)
		for (size_t d = 0; d < k.n(); d++) {
			for (auto& x : sl::row<dim>(*k.op, i, d))
				r[i][d] += x.second * f[x.first.first][x.first.second];
			r[i][d] += k.op->getSystemVector().block(i - 1)(d);
		}
	return r;
}

/// what the discrete operator keeps of transport
template<size_t dim> void transport(Gen& g, Ctx& c, size_t cells) {
	Case<dim> k;
	k.generate(g, c, cells, dim == 2 ? 5 : 3, true, false);
	if (g.chance(30)) {
		k.s.shape = 3;
		k.s.amount = g.real(-0.4, 0.4, 0.2);
	}
	k.make();
	const size_t Q = k.st->getQ(), n = k.n();
	uint64_t rng = g.draw(1ull << 40);
	auto rnd = [&]() {return (double) (pbt::splitmix(rng) >> 11) / 9007199254740992.0;};
	std::vector<std::vector<double> > f(Q, std::vector<double>(n));
	for (auto& x : f)
		for (double& y : x)
			y = rnd() - 0.3;
	double em = k.scaling * sl::emax<dim>(*k.st) / k.scaling, vol = std::accumulate(k.mass.begin(), k.mass.end(), 0.0);
	double rate = em / k.s.hmin() * (k.order + 1) * (k.order + 1) * 8;
	double wall_rate = 0;
	if (k.moving)
		for (auto& w : k.wu)
			for (size_t a = 0; a < dim; a++)
				wall_rate += std::fabs(w->a[a]) + 10 * (std::fabs(w->b[a][0]) + std::fabs(w->b[a][1]));
	double tol = 1e-10 * rate * vol * Q * (1 + wall_rate / em * 3);
	auto r = apply_op(k, f);
	c.key = "transport/mass";
	// the population which reaches a wall comes back in the opposite direction
	for (size_t i = 1; i < Q; i++) {
		size_t o = sl::opposite(*k.st, i);
		double m = 0, wall = 0;
		for (size_t d = 0; d < n; d++)
			m += k.mass[d] * (r[i][d] + r[o][d]);
		if (k.moving)
			for (size_t j : { i, o })
				for (auto& p : k.faces)
					if (p.wall != 99) {
						double en = 0, eu = 0;
						for (size_t a = 0; a < dim; a++) {
							en += k.st->getDirection(j)(a) * p.area[a];
							eu += k.st->getDirection(j)(a) * k.wu[p.wall]->value(k.points.at(p.dof), a);
						}
						if (k.central || en < 0)
							wall -= (k.central ? 1 : 2) * en * k.st->getWeight(j) * eu / k.st->getSpeedOfSoundSquare();
					}
		CLOSE(m, wall, tol, "change of the mass in direction " << i << " and its opposite");
	}
	if (!k.moving) {
		c.key = "transport/energy";
		double e = 0, l = 0;
		for (size_t i = 1; i < Q; i++)
			for (size_t d = 0; d < n; d++) {
				e += k.mass[d] * f[i][d] * r[i][d];
				l += k.mass[d] * f[i][d] * f[i][d];
			}
		if (k.central)
			CLOSE(e, 0.0, tol, "growth of the 2-norm with central flux");
		else
			CHECK(e <= tol, "the 2-norm grows: rate " << e << " of " << l);
		c.key = "transport/constant";
		std::vector<std::vector<double> > one(Q, std::vector<double>(n, 1.0));
		auto z = apply_op(k, one);
		for (size_t i = 1; i < Q; i++)
			for (size_t d = 0; d < n; d++)
				CLOSE(z[i][d], 0.0, 1e-10 * rate, "change of a constant state in direction " << i << " at (" << k.points.at(d) << ")");
	}
	// polynomials are transported exactly inside of the domain
	c.key = "transport/polynomial";
	int ex[dim];
	for (size_t a = 0; a < dim; a++)
		ex[a] = g.range(0, (int) k.order);
	auto mono = [&](const dealii::Point<dim>& x, int der) {
		double v = 1;
		for (size_t a = 0; a < dim; a++) {
			double u = (x[a] - k.s.lo[a]) / k.s.len[a];
			v *= (int) a == der ? (ex[a] ? ex[a] * std::pow(u, ex[a] - 1) / k.s.len[a] : 0) : std::pow(u, ex[a]);
		}
		return v;
	};
	for (size_t i = 0; i < Q; i++)
		for (size_t d = 0; d < n; d++)
			f[i][d] = mono(k.points.at(d), -1);
	r = apply_op(k, f);
	std::vector<bool> edge(n, false);
	for (size_t d = 0; d < n; d++)
		for (size_t a = 0; a < dim; a++) {
			double u = (k.points.at(d)[a] - k.s.lo[a]) / k.s.len[a];
			edge[d] = edge[d] || u < 1e-9 || u > 1 - 1e-9;
		}
	for (size_t i = 1; i < Q; i++)
		for (size_t d = 0; d < n; d++) {
			if (edge[d])
				continue;
			double w = 0;
			for (size_t a = 0; a < dim; a++)
				w -= k.st->getDirection(i)(a) * mono(k.points.at(d), a);
			CLOSE(r[i][d], w, 1e-9 * rate, "transport of a polynomial in direction " << i << " at (" << k.points.at(d) << ")");
		}
	c.nontrivial = true;
}
LAW(transport2d, 140, 6000, 8) {
	transport<2>(g, c, 16);
}
LAW(transport3d, 24, 1000, 8) {
	transport<3>(g, c, 8);
}

/// what the operator cannot do is refused
LAW(refused, 60, 600, 2) {
	BoxSpec<2> s = gen_box<2>(g, 12, true);
	double scaling;
	std::string sn;
	StencilP st = sl::gen_stencil(g, 2, 27, scaling, sn);
	int kind = g.draw(3);
	size_t order = 1 + g.draw(3);
	s.wall[0] = true;
	if (kind == 0)
		s.boundary = [](size_t w) -> boost::shared_ptr<Boundary<2> > {return boost::make_shared<DoNothingBoundary<2> >(w);};
	s.print(c.desc);
	c.desc << ", order " << order << " " << sn << " kind " << kind;
	c.key = "refused";
	BoxProblem<2> pb(s);
	pb.refineAndTransform();
	bool threw = false;
	try {
		SEDGMinLee<2> op(pb, order, kind == 1 ? QGAUSS : QGAUSS_LOBATTO, kind == 2 ? (g.flag() ? EQUIDISTANT_POINTS : GAUSS_LOBATTO_CHEBYSHEV_POINTS) : GAUSS_LOBATTO_POINTS, st, false);
		op.setupDoFs();
		op.reassemble();
	} catch (const NATriuMException& e) {
		threw = true;
	}
	CHECK(threw, (kind == 0 ? "a boundary that is not linear" : kind == 1 ? "another quadrature" : "other support points") << " was accepted");
	c.nontrivial = true;
}
HARNESS_MAIN
