// C09: periodic boundaries identify opposite faces one to one; impossible set-ups are rejected.
#include "sl.h"
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_q.h>
#include "natrium/problemdescription/BoundaryCollection.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
using namespace sl;

template<class F> bool throws(F f, std::string* what = nullptr) {
	try {
		f();
	} catch (std::exception& e) {
		if (what)
			*what = e.what();
		return true;
	}
	return false;
}

template<size_t dim> void pairs(Gen& g, Ctx& c) {
	BoxSpec<dim> s = gen_box<dim>(g, dim == 2 ? 120 : 60, true);
	size_t ax = g.draw(dim);
	s.wall[ax] = false;
	while (s.cells(ax) < 2)
		s.reps[ax]++;
	if (g.chance(40)) {
		// refine inner cells only: opposite cells need the same level
		for (size_t n = 1 + g.draw(3); n > 0; n--) {
			std::array<double, dim> p;
			for (size_t a = 0; a < dim; a++) {
				if (!s.wall[a])
					while (s.cells(a) < 3)
						s.reps[a]++;
				size_t k = s.cells(a);
				p[a] = s.wall[a] ? (g.draw(k) + 0.5) / k : (1 + g.draw(k - 2) + 0.5) / k;
			}
			s.local.push_back(p);
		}
	} else if (g.chance(50)) {
		bool y_wall = s.wall[1];
		s.shape = y_wall && g.chance(50) ? 1 : 2;
		s.amount = g.real(-0.4, 0.4, 0.2);
		// sheared: the periodic image in y is shifted along x
	}
	// refine both sides of a periodic axis in the same way
	if (s.local.empty() && g.chance(30) && s.shape == 0) {
		std::array<double, dim> p, q;
		for (size_t a = 0; a < dim; a++) {
			size_t k = s.cells(a);
			if (!s.wall[a])
				while (s.cells(a) < 4)
					s.reps[a]++;
			k = s.cells(a);
			p[a] = q[a] = (s.wall[a] ? g.draw(k) : 1 + g.draw(k - 2)) / (double) k + 0.5 / k;
			if (a == ax) {
				p[a] = 0.5 / k;
				q[a] = 1 - 0.5 / k;
			}
		}
		s.local.push_back(p);
		s.local.push_back(q);
		c.label("both sides refined");
	}
	s.print(c.desc);
	BoxProblem<dim> pb(s);
	pb.refineAndTransform();
	const bool dg = g.chance(50);
	const size_t order = 1 + g.draw(3);
	dealii::DoFHandler<dim> dof(*pb.getMesh());
	dealii::FE_DGQ<dim> fe_dg(order);
	dealii::FE_Q<dim> fe_q(order);
	c.desc << ", " << (dg ? "DG" : "continuous") << " elements of order " << order;
	if (dg)
		dof.distribute_dofs(fe_dg);
	else
		dof.distribute_dofs(fe_q);
	size_t found = 0;
	for (size_t a = 0; a < dim; a++) {
		if (s.wall[a]) {
			CHECK(!pb.getBoundaries()->isPeriodic(2 * a), "the wall " << 2 * a << " counts as periodic");
			continue;
		}
		CHECK(pb.getBoundaries()->isPeriodic(2 * a) && pb.getBoundaries()->isPeriodic(2 * a + 1), "axis " << a << " is not periodic");
		auto b = pb.getBoundaries()->getPeriodicBoundary(2 * a);
		CHECK(b == pb.getBoundaries()->getPeriodicBoundary(2 * a + 1), "the two sides of axis " << a << " belong to different boundaries");
		b->createCellMap(dof);
		std::set<std::pair<int, int> > seen;
		size_t cells = 0;
		for (auto cell = dof.begin_active(); cell != dof.end(); ++cell) {
			int side = -1;
			for (size_t f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++) {
				bool here = cell->face(f)->at_boundary() && f / 2 == a;
				CHECK(b->isFaceInBoundary(cell, f) == here, "isFaceInBoundary of face " << f << " of the cell at " << cell->center());
				if (here)
					side = f % 2;
			}
			typename dealii::DoFHandler<dim>::cell_iterator nb = dof.begin_active();
			typename dealii::DoFHandler<dim>::active_cell_iterator ac(cell);
			if (side < 0) {
				std::string what;
				CHECK(throws([&] {b->getOppositeCellAtPeriodicBoundary(ac, nb);}), "a cell inside the domain got an opposite cell");
				continue;
			}
			cells++;
			size_t face = b->getOppositeCellAtPeriodicBoundary(ac, nb);
			CHECK(face == 2 * a + 1 - side, "opposite face " << face << " of the cell at " << cell->center());
			CHECK(nb->level() == cell->level(), "levels of opposite cells");
			// the period: a translation along the axis (and along x for sheared boxes)
			dealii::Tensor<1, dim> shift;
			shift[a] = (side ? -1 : 1) * s.len[a];
			if (s.shape == 1 && a == 1)
				shift[0] = (side ? -1 : 1) * s.amount * s.len[0];
			dealii::Point<dim> fc = cell->face(2 * a + side)->center(), fo = nb->face(face)->center();
			for (size_t k = 0; k < dim; k++)
				CLOSE(fo[k], fc[k] + shift[k], 1e-10 * s.len[k], "coordinate " << k << " of the opposite face of the cell at " << cell->center());
			dealii::Point<dim> p;
			for (size_t k = 0; k < dim; k++)
				p[k] = s.lo[k] + s.len[k] * g.real(-1, 2, 0.3);
			dealii::Point<dim> q = b->coordinatesAcrossPeriodicBoundary(p, ac);
			for (size_t k = 0; k < dim; k++)
				CLOSE(q[k], p[k] + shift[k], 1e-9 * (std::fabs(s.lo[k]) + 3 * s.len[k]), "coordinate " << k << " of " << p << " seen across the boundary from the cell at " << cell->center());
			// there and back again
			typename dealii::DoFHandler<dim>::active_cell_iterator nba(nb);
			typename dealii::DoFHandler<dim>::cell_iterator back = dof.begin_active();
			size_t face_back = b->getOppositeCellAtPeriodicBoundary(nba, back);
			CHECK(back == cell && face_back == 2 * a + side, "the opposite of the opposite of the cell at " << cell->center() << " is the cell at " << back->center());
			dealii::Point<dim> r = b->coordinatesAcrossPeriodicBoundary(q, nba);
			for (size_t k = 0; k < dim; k++)
				CLOSE(r[k], p[k], 1e-9 * (std::fabs(s.lo[k]) + 3 * s.len[k]), "coordinate " << k << " of " << p << " there and back");
			CHECK(seen.insert(std::make_pair(nb->level(), nb->index())).second, "two cells have the same opposite cell");
			found++;
		}
		CHECK(b->getCellMap().size() == cells, "cells in the map: " << b->getCellMap().size() << ", at the boundary: " << cells);
		CHECK(b->getBoundaryIndicator1() == 2 * a && b->getBoundaryIndicator2() == 2 * a + 1 && b->getDirection() == a, "indicators of the boundary");
	}
	c.nontrivial = found > 2;
	if (s.local.size())
		c.label("locally refined");
	if (s.shape)
		c.label("deformed");
}
LAW(pairs2d, 150, 6000, 3) {
	pairs<2>(g, c);
}
LAW(pairs3d, 60, 2000, 3) {
	pairs<3>(g, c);
}

template<size_t dim> boost::shared_ptr<Mesh<dim> > plain_mesh(unsigned n) {
	BoxSpec<dim> s;
	for (size_t a = 0; a < dim; a++) {
		s.reps[a] = n;
		s.lo[a] = 0;
		s.len[a] = 1;
		s.wall[a] = true;
	}
	return BoxProblem<dim>::make_mesh(s);
}

// set-ups that cannot work raise an exception
template<size_t dim> void impossible(Gen& g, Ctx& c) {
	unsigned n = 2 + g.draw(3);
	boost::shared_ptr<Mesh<dim> > m = plain_mesh<dim>(n);
	size_t kind = g.draw(5), a = g.draw(dim);
	c.desc << dim << "D, " << n << " cells per axis, axis " << a << ", kind " << kind;
	c.label("kind " + std::to_string(kind));
	c.nontrivial = true;
	typedef PeriodicBoundary<dim> B;
	if (kind == 0) {
		CHECK(throws([&] {B b(2 * a, 2 * a, a, m);}), "a boundary was made periodic with itself");
	} else if (kind == 1) {
		m->refine_global(1 + g.draw(2));
		CHECK(throws([&] {B b(2 * a, 2 * a + 1, a, m);}), "a periodic boundary was made after the refinement");
	} else if (kind == 2) {
		CHECK(throws([&] {B b(2 * a, 50 + g.draw(10), a, m);}), "a boundary was made periodic with one that does not exist");
	} else if (kind == 3) {
		B b(2 * a, 2 * a + 1, a, m);
		if (g.chance(50))
			m->refine_global(1);
		dealii::DoFHandler<dim> dof(*m);
		dealii::FE_DGQ<dim> fe(1);
		dof.distribute_dofs(fe);
		typename dealii::DoFHandler<dim>::cell_iterator nb = dof.begin_active();
		typename dealii::DoFHandler<dim>::active_cell_iterator cell = dof.begin_active();
		CHECK(throws([&] {b.getOppositeCellAtPeriodicBoundary(cell, nb);}), "opposite cells without a cell map");
	} else {
		// cells on one side refined, on the other not
		B b(2 * a, 2 * a + 1, a, m);
		size_t side = g.draw(2), skip = g.draw(n);
		for (auto cell = m->begin_active(); cell != m->end(); ++cell)
			if (cell->face(2 * a + side)->at_boundary() && skip-- == 0) {
				cell->set_refine_flag();
				break;
			}
		m->execute_coarsening_and_refinement();
		if (m->n_active_cells() == std::pow((double) n, (double) dim))
			throw pbt::Discard();
		bool same = true;
		size_t count[2] = { 0, 0 };
		for (auto cell = m->begin_active(); cell != m->end(); ++cell)
			for (size_t k = 0; k < 2; k++)
				if (cell->face(2 * a + k)->at_boundary())
					count[k]++;
		if (count[0] == count[1])
			throw pbt::Discard();   // the mesh refined both sides
		dealii::DoFHandler<dim> dof(*m);
		dealii::FE_DGQ<dim> fe(1);
		dof.distribute_dofs(fe);
		CHECK(throws([&] {b.createCellMap(dof);}), "opposite cells of different levels (" << count[0] << " and " << count[1] << " cells) were accepted");
	}
}
LAW(impossible2d, 60, 1000, 1) {
	impossible<2>(g, c);
}
LAW(impossible3d, 30, 500, 1) {
	impossible<3>(g, c);
}

// the collection of boundaries: a map from indicators to boundaries, in which every indicator is used once
LAW(collection, 150, 5000, 1) {
	const size_t dim = 2;
	boost::shared_ptr<Mesh<dim> > m = plain_mesh<dim>(2);
	BoundaryCollection<dim> bc;
	std::map<size_t, std::pair<bool, boost::shared_ptr<Boundary<dim> > > > model;
	std::map<size_t, boost::shared_ptr<PeriodicBoundary<dim> > > per;
	bool have[2] = { false, false };
	size_t rejected = 0, ops = 1 + g.draw(12);
	for (size_t n = 0; n < ops; n++) {
		size_t op = g.draw(4);
		if (op == 3) {
			size_t a = g.draw(2);
			if (!have[a]) {
				have[a] = true;
				per[a] = boost::make_shared<PeriodicBoundary<dim> >(2 * a, 2 * a + 1, a, m);
			}
			boost::shared_ptr<PeriodicBoundary<dim> > b = per[a];
			bool ok = !model.count(2 * a) && !model.count(2 * a + 1);
			c.desc << " periodic(" << 2 * a << "," << 2 * a + 1 << ")";
			bool t = throws([&] {bc.addBoundary(b);});
			CHECK(t == !ok, "adding the periodic boundary " << 2 * a << ", " << 2 * a + 1 << (t ? " is rejected" : " is accepted though an indicator is in use"));
			if (ok)
				model[2 * a] = model[2 * a + 1] = std::make_pair(true, boost::shared_ptr<Boundary<dim> >(b));
			else
				rejected++;
		} else {
			size_t id = g.draw(6);
			boost::shared_ptr<Boundary<dim> > b;
			if (op == 0)
				b = boost::make_shared<VelocityNeqBounceBack<dim> >(id, dealii::Tensor<1, dim>());
			else if (op == 1)
				b = boost::make_shared<SLFirstOrderBounceBack<dim> >(id);
			else
				b = boost::make_shared<DoNothingBoundary<dim> >(id);
			bool ok = !model.count(id);
			c.desc << " wall(" << id << ")";
			bool t = throws([&] {bc.addBoundary(b);});
			CHECK(t == !ok, "adding the boundary " << id << (t ? " is rejected" : " is accepted (and ignored) though the indicator is in use"));
			if (ok)
				model[id] = std::make_pair(false, b);
			else
				rejected++;
		}
		CHECK(bc.numberOfBoundaries() == model.size(), "number of boundaries " << bc.numberOfBoundaries() << ", added " << model.size());
		size_t np = 0;
		for (auto& x : model)
			np += x.second.first;
		CHECK(bc.numberOfPeriodicBoundaries() == np, "number of periodic boundaries " << bc.numberOfPeriodicBoundaries() << ", added " << np);
		for (size_t id = 0; id < 8; id++) {
			CHECK(bc.hasID(id) == (model.count(id) > 0), "hasID(" << id << ")");
			if (!model.count(id)) {
				CHECK(throws([&] {bc.getBoundary(id);}), "getBoundary of an unknown indicator");
				CHECK(throws([&] {bc.isPeriodic(id);}), "isPeriodic of an unknown indicator");
				continue;
			}
			CHECK(bc.getBoundary(id) == model[id].second, "getBoundary(" << id << ") gives another boundary");
			CHECK(bc.isPeriodic(id) == model[id].first, "isPeriodic(" << id << ")");
			CHECK(bc.getBoundaries().at(id) == model[id].second, "getBoundaries()");
			if (model[id].first)
				CHECK(boost::shared_ptr<Boundary<dim> >(bc.getPeriodicBoundary(id)) == model[id].second, "getPeriodicBoundary(" << id << ")");
			else {
				CHECK(bc.getBoundary(id)->getBoundaryIndicator() == id, "indicator of boundary " << id);
				CHECK(throws([&] {bc.getPeriodicBoundary(id);}), "getPeriodicBoundary of the wall " << id);
			}
		}
	}
	c.nontrivial = model.size() > 1 && rejected > 0;
}

HARNESS_MAIN
