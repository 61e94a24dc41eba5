// C15: the command line does what its help message says.
#include "config.h"
#include "natrium/utilities/CommandLineParser.h"
#include "natrium/utilities/CFDSolverUtilities.h"
#include "natrium/stencils/D2Q9.h"
#include <deal.II/grid/grid_generator.h>
using namespace cfgm;

struct Args {
	std::vector<std::string> words;
	std::vector<std::vector<char> > store;
	std::vector<char*> argv;
	char** get() {
		store.clear();
		argv.clear();
		words.insert(words.begin(), "prog");
		for (auto& w : words)
			store.push_back(std::vector<char>(w.c_str(), w.c_str() + w.size() + 1));
		for (auto& s : store)
			argv.push_back(s.data());
		argv.push_back(nullptr);
		return argv.data();
	}
	int size() const {
		return (int) words.size();
	}
};
typedef std::vector<std::pair<std::string, double> > Map;
struct Choice {
	const char* option;
	const char* setting;
	Map map;
};
// as in the help message
static const std::vector<Choice>& choices() {
	static std::vector<Choice> v {
		{ "streaming", "advection", { { "sedg", SEDG }, { "sl", SEMI_LAGRANGIAN } } },
		{ "collision", "collision", { { "bgk", BGK_STANDARD }, { "bgkt", BGK_STANDARD_TRANSFORMED }, { "inc", BGK_INCOMPRESSIBLE }, { "pp", BGK_MULTIPHASE },
			{ "ss", BGK_STEADY_STATE }, { "mrt", MRT_STANDARD }, { "kbcs", KBC_STANDARD }, { "kbcc", KBC_CENTRAL }, { "reg", BGK_REGULARIZED },
			{ "am4", BGK_MULTI_AM4 }, { "bdf2", BGK_MULTI_BDF2 }, { "est", ENTROPIC_STABILIZED } } },
		{ "equilibrium", "equilibrium", { { "bgk", BGK_EQUILIBRIUM }, { "quartic", QUARTIC_EQUILIBRIUM } } },
		{ "regularization", "regularization", { { "no", NO_REGULARIZATION }, { "pem", PSEUDO_ENTROPY_MAXIMIZATION }, { "zero", ZERO_HIGH_ORDER_MOMENTS },
			{ "em", ENTROPY_MAXIMIZATION }, { "pemwe", PSEUDO_ENTROPY_MAXIMIZATION_WITH_E } } },
		{ "support-points", "support points", { { "gll", GAUSS_LOBATTO_POINTS }, { "glc", GAUSS_LOBATTO_CHEBYSHEV_POINTS }, { "gc", GAUSS_CHEBYSHEV_POINTS },
			{ "equi", EQUIDISTANT_POINTS } } },
		{ "stencil", "stencil", { { "d2q9", Stencil_D2Q9 }, { "d3q19", Stencil_D3Q19 }, { "d3q15", Stencil_D3Q15 }, { "d3q27", Stencil_D3Q27 }, { "d2q19v", Stencil_D2Q19V },
			{ "d2q19h", Stencil_D2Q19H }, { "d2q777", Stencil_D2Q777 }, { "d2q25h", Stencil_D2Q25H }, { "d3q45", Stencil_D3Q45 }, { "d3q77", Stencil_D3Q77 },
			{ "d3v27", Stencil_D3V27 }, { "d3q21", Stencil_D3Q21 }, { "d3q13", Stencil_D3Q13 }, { "rd3q27", Stencil_RD3Q27 } } },
		{ "init", "initialization", { { "equi", EQUILIBRIUM }, { "iter", ITERATIVE } } },
		{ "mrt-basis", "MRT basis", { { "dellar-d2q9", DELLAR_D2Q9 }, { "lallemand-d2q9", LALLEMAND_D2Q9 }, { "dhumieres-d3q19", DHUMIERES_D3Q19 } } },
		{ "mrt-relax", "MRT relaxation", { { "full", RELAX_FULL }, { "dellar-only-N", DELLAR_RELAX_ONLY_N }, { "dhumieres-paper", RELAX_DHUMIERES_PAPER } } } };
	return v;
}
struct Integrator {
	const char* name;
	TimeIntegratorName t;
	DealIntegratorName d;
};
static const Integrator integrators[] = { { "rk4", RUNGE_KUTTA_5STAGE, NONE }, { "theta", THETA_METHOD, NONE }, { "exp", EXPONENTIAL, NONE },
	{ "ee", OTHER, FORWARD_EULER }, { "rk3", OTHER, RK_THIRD_ORDER }, { "rk4_2", OTHER, RK_CLASSIC_FOURTH_ORDER }, { "ie", OTHER, BACKWARD_EULER },
	{ "midpoint", OTHER, IMPLICIT_MIDPOINT }, { "cn", OTHER, CRANK_NICOLSON }, { "sdirk", OTHER, SDIRK_TWO_STAGES }, { "heun-euler", OTHER, HEUN_EULER },
	{ "bogacki", OTHER, BOGACKI_SHAMPINE }, { "dopri", OTHER, DOPRI }, { "fehlberg", OTHER, FEHLBERG }, { "cash-karp", OTHER, CASH_KARP } };
struct Number {
	const char* option;
	const char* setting;
	bool integer;
	double lo, hi;
	bool output;
};
static const Number numbers[] = { { "order-fe", "order", true, 1, INT_MAX, false }, { "cfl", "CFL", false, 1e-10, HUGE_VAL, false },
	{ "scaling", "scaling", false, 1e-10, HUGE_VAL, false }, { "output-sol", "solution interval", true, 1, INT_MAX, true },
	{ "output-chk", "checkpoint interval", true, 1, INT_MAX, true }, { "output-tab", "table interval", true, 1, INT_MAX, true },
	{ "tmax", "end time", false, 0, HUGE_VAL, false }, { "init-niter", "init iterations", true, 1, INT_MAX, false }, { "init-res", "init residual", false, 1e-25, HUGE_VAL, false } };

static std::string key_of(const std::string& s) {
	return s;
}
// the whole command line: any set of options in any order
LAW(options, 1500, 60000, 2) {
	SolverConfiguration cfg;
	Values model = defaults();
	// a program sets some things before
	size_t before = g.draw(4);
	for (size_t n = 0; n < before; n++) {
		const Setting& s = settings()[g.draw(settings().size())];
		std::string text;
		std::function<void(SolverConfiguration&)> apply;
		if (s.draw(g, text, apply)) {
			apply(cfg);
			model[s.name] = text;
			if (s.name == "Prandtl")
				model["Prandtl set"] = "1";
			c.desc << " (" << s.name << "=" << text << ")";
		}
	}
	// the options, each at most once
	std::vector<std::vector<std::string> > parts;
	bool legal = true, parse = true;
	size_t used = 0;
	Values set;
	std::string bad;
	auto add = [&](const std::string& o, const std::string& v) {
		if (g.flag())
			parts.push_back({ "--" + o + "=" + v });
		else
			parts.push_back({ "--" + o, v });
		used++;
	};
	size_t density = 5 + g.draw(30);
	bool std_lbm = g.chance(10), with = g.chance(10);
	bool have_order = false, have_cfl = false, have_stream = false;
	int order = 0, with_order = 0;
	std::string stream;
	for (auto& x : choices())
		if (g.chance(density)) {
			if (g.chance(4)) {
				std::string v = g.pick(x.map).first;
				v = g.pick(std::vector<std::string> { v + "x", "nonsense", "BGK", v.substr(0, v.size() - 1) });
				bool known = false;
				for (auto& m : x.map)
					known = known || m.first == v;
				if (known || v.empty())
					continue;
				add(x.option, v);
				legal = false;
				bad = std::string(x.option) + "=" + v;
				if (std::string(x.option) == "streaming") {
					have_stream = true;
					stream = v;
				}
			} else {
				auto& m = g.pick(x.map);
				add(x.option, m.first);
				set[x.setting] = num(m.second);
				if (std::string(x.option) == "streaming") {
					have_stream = true;
					stream = m.first;
				}
			}
		}
	for (auto& x : numbers)
		if (g.chance(density)) {
			double v = x.integer ? (double) (g.chance(10) ? (long) g.draw(4) - 2 : 1 + (long) g.draw(100000)) : g.chance(10) ? -g.logreal(1e-3, 1e3, 1) : g.logreal(1e-4, 1e4, 1);
			if (std::string(x.option) == "order-fe") {
				v = g.chance(10) ? (double) g.draw(3) - 1 : (double) (1 + g.draw(8));
				have_order = true;
				order = (int) v;
			}
			if (std::string(x.option) == "cfl")
				have_cfl = true;
			if (g.chance(3)) {
				add(x.option, g.pick(std::vector<std::string> { "abc", "1.5.2", "x1" }));
				parse = false;
				continue;
			}
			if (x.integer && g.chance(2)) {
				add(x.option, "2.5");
				parse = false;
				continue;
			}
			add(x.option, num(v));
			if (v < x.lo || v > x.hi) {
				legal = false;
				bad = std::string(x.option) + "=" + num(v);
			}
			set[x.setting] = num(v);
			if (x.output)
				set["output off"] = "0";
		}
	bool by_name = g.chance(density), by_id = g.chance(density);
	if (by_name) {
		const Integrator& i = integrators[g.draw(15)];
		if (g.chance(5)) {
			add("integrator", "rk5");
			legal = false;
			bad = "integrator=rk5";
		} else {
			add("integrator", i.name);
			set["time integrator"] = num((double) i.t);
			set["deal integrator"] = num((double) i.d);
		}
	}
	if (by_id) {
		size_t id = 1 + g.draw(15);
		add("integrator-id", std::to_string(id));
		set["time integrator"] = num((double) integrators[id - 1].t);
		set["deal integrator"] = num((double) integrators[id - 1].d);
	}
	if (by_name && by_id) {
		legal = false;
		bad = "integrator and integrator-id";
	}
	if (g.chance(density)) {
		parts.push_back({ "--output-on" });
		used++;
		set["output off"] = "0";
	}
	if (g.chance(density)) {
		parts.push_back({ "--verbose" });
		used++;
		set["output off"] = "0";
		set["verbosity"] = "8";
	}
	if (g.chance(density)) {
		std::string d = g.pick(std::vector<std::string> { "/tmp/x", "out", "/a/b-c/d.e", "./r" });
		add("output-dir", d);
		set["output off"] = "0";
		set["output directory"] = d;
	}
	if (std_lbm) {
		parts.push_back({ "--standard-lbm" });
		used++;
		set["CFL"] = num(2 * std::sqrt(2.0));
		set["order"] = "2";
		set["advection"] = num((double) SEMI_LAGRANGIAN);
		if (have_cfl || (have_order && order != 2) || (have_stream && stream != "sl")) {
			legal = false;
			bad = "conflict with standard-lbm";
		}
	}
	if (with) {
		with_order = 1 + (int) g.draw(6);
		add("standard-lbm-with", std::to_string(with_order));
		set["CFL"] = num(with_order * std::sqrt(2.0));
		set["order"] = num((double) with_order);
		set["advection"] = num((double) SEMI_LAGRANGIAN);
		if (!set.count("support points"))
			set["support points"] = num((double) EQUIDISTANT_POINTS);
		if (std_lbm || have_cfl || (have_order && order != with_order) || (have_stream && stream != "sl")) {
			legal = false;
			bad = "conflict with standard-lbm-with";
		}
	}
	if (g.chance(4)) {
		parts.push_back({ g.pick(std::vector<std::string> { "--no-such-option", "--xyz=3", "stray" }) });
		parse = false;
	}
	if (!parts.empty() && g.chance(3)) {
		parts.push_back(g.pick(parts));                  // given twice
		parse = parse && parts.back()[0] == "--output-on";
		if (parse)
			parts.pop_back();
		if (parts.back()[0] == "--verbose" || parts.back()[0] == "--standard-lbm" || parts.back()[0] == "--output-on") {
			parts.pop_back();
			throw pbt::Discard();
		}
	}
	for (size_t i = parts.size(); i > 1; i--)
		std::swap(parts[i - 1], parts[g.draw(i)]);
	Args a;
	for (auto& p : parts)
		for (auto& w : p)
			a.words.push_back(w);
	for (auto& w : a.words)
		c.desc << " " << w;
	char** av = a.get();
	c.nontrivial = used > 1;
	int phase = 0;
	std::string what;
	bool own = true;
	try {
		CommandLineParser p(a.size(), av);
		if (g.flag())
			p.addDocumentationString("prog", "a program");
		p.importOptions();
		phase = 1;
		p.applyToSolverConfiguration(cfg);
		phase = 2;
	} catch (NATriuMException& e) {
		what = e.what();
	} catch (std::exception& e) {
		what = e.what();
		own = false;
	}
	if (!parse) {
		CHECK(phase == 0, "the malformed command line is accepted");
		return;
	}
	CHECK(phase > 0, "the command line is not understood: " << what);
	c.key = legal ? "legal" : key_of(bad.substr(0, bad.find('=')));
	CHECK((phase == 2) == legal, (legal ? "the command line is rejected: " + what : "the illegal " + bad + " is accepted"));
	CHECK(own, "rejected with a foreign exception");
	if (!legal) {
		c.label("rejected");
		return;
	}
	for (auto& x : set)
		model[x.first] = x.second;
	Values is;
	try {
		is = read(cfg);
	} catch (std::exception& e) {
		FAIL("the settings cannot be read: " << e.what());
	}
	std::string d = difference(is, model);
	CHECK(d.empty(), "after the command line:" << d);
	c.label("applied");
}

// standard LBM: with the time step of the solver, the slowest populations move from node to node on a regular grid
LAW(standard_lbm, 40, 400, 1) {
	size_t n = 1 + g.draw(5);
	bool with = g.flag();
	int order = with ? 1 + (int) g.draw(5) : 2;
	double scaling = g.logreal(0.1, 10, 1), h = g.logreal(0.1, 10, 1);
	SolverConfiguration cfg;
	cfg.setStencilScaling(scaling);
	Args a;
	if (with) {
		a.words.push_back("--standard-lbm-with");
		a.words.push_back(std::to_string(order));
	} else
		a.words.push_back("--standard-lbm");
	char** av = a.get();
	CommandLineParser p(a.size(), av);
	p.importOptions();
	p.applyToSolverConfiguration(cfg);
	Mesh<2> m(MPI_COMM_WORLD);
	dealii::GridGenerator::subdivided_hyper_rectangle(m, std::vector<unsigned int>(2, n), dealii::Point<2>(0, 0), dealii::Point<2>(h * n, h * n));
	D2Q9 st(scaling);
	double dt = CFDSolverUtilities::calculateTimestep<2>(m, cfg.getSedgOrderOfFiniteElement(), st, cfg.getCFL());
	c.desc << (with ? "with " : "") << order << " scaling=" << scaling << " h=" << h << " n=" << n;
	c.nontrivial = true;
	CLOSE(dt * scaling, h / order, 1e-12 * h, "distance travelled by the populations, and between the nodes");
}

// a program's own arguments
LAW(own_arguments, 1000, 30000, 1) {
	Args a;
	size_t np = g.draw(4);
	struct Own {
		std::string name;
		int type;                // 0 int 1 double 2 string 3 flag
		bool def, given, positional;
		std::string value, deflt;
	};
	std::vector<Own> own;
	size_t n = 1 + g.draw(6);
	std::vector<std::vector<std::string> > parts;
	std::vector<std::string> pos;
	bool may = true;
	auto value = [&](int t) {
		if (t == 0)
			return std::to_string((int) g.draw(2000));
		if (t == 1)
			return num(g.logreal(1e-3, 1e3, 1));
		std::string s = "s";
		size_t l = g.draw(30);
		for (size_t i = 0; i < l; i++)
			s += (char) ('a' + g.draw(26));
		return s;
	};
	for (size_t i = 0; i < n; i++) {
		Own o;
		o.name = "own" + std::to_string(i) + "q";
		o.positional = i < np;
		o.type = (int) g.draw(o.positional ? 3 : 4);
		o.def = !o.positional && o.type < 3 && g.flag();
		o.given = g.flag();
		o.value = value(o.type);
		o.deflt = value(o.type);
		if (o.positional) {
			may = may && o.given;
			o.given = may;
			if (may)
				pos.push_back(o.value);
		} else if (o.given) {
			if (o.type == 3)
				parts.push_back({ "--" + o.name });
			else if (g.flag())
				parts.push_back({ "--" + o.name + "=" + o.value });
			else
				parts.push_back({ "--" + o.name, o.value });
		}
		own.push_back(o);
	}
	for (size_t i = parts.size(); i > 1; i--)
		std::swap(parts[i - 1], parts[g.draw(i)]);
	bool first = g.flag();
	if (first)
		a.words = pos;
	for (auto& p : parts)
		for (auto& w : p)
			a.words.push_back(w);
	if (!first)
		for (auto& w : pos)
			a.words.push_back(w);
	for (auto& w : a.words)
		c.desc << " " << w;
	c.desc << " |";
	char** av = a.get();
	CommandLineParser p(a.size(), av);
	for (auto& o : own) {
		c.desc << " " << o.name << ":" << (o.positional ? "pos" : "") << o.type << (o.def ? "=" + o.deflt : "");
		if (o.positional) {
			if (g.flag()) {
				if (o.type == 0)
					p.setPositionalArgument<int>(o.name, "x");
				else if (o.type == 1)
					p.setPositionalArgument<double>(o.name, "x");
				else
					p.setPositionalArgument<string>(o.name, "x");
			} else {
				if (o.type == 0)
					p.setArgument<int>(o.name, "x");
				else if (o.type == 1)
					p.setArgument<double>(o.name, "x");
				else
					p.setArgument<string>(o.name, "x");
				p.makePositional(o.name);
			}
		} else if (o.type == 3)
			p.setFlag(o.name, "x");
		else if (o.def) {
			if (o.type == 0)
				p.setArgument<int>(o.name, "x", atoi(o.deflt.c_str()));
			else if (o.type == 1)
				p.setArgument<double>(o.name, "x", atof(o.deflt.c_str()));
			else
				p.setArgument<string>(o.name, "x", o.deflt);
		} else if (o.type == 0)
			p.setArgument<int>(o.name, "x");
		else if (o.type == 1)
			p.setArgument<double>(o.name, "x");
		else
			p.setArgument<string>(o.name, "x");
	}
	auto own_error = [](std::function<void()> f) {
		try {
			f();
		} catch (CommandLineParserException&) {
			return true;
		}
		return false;
	};
	CHECK(own_error([&] {p.hasArgument("help");}), "hasArgument before importOptions");
	CHECK(own_error([&] {p.getArgument<int>("cfl");}), "getArgument before importOptions");
	try {
		p.importOptions();
	} catch (std::exception& e) {
		FAIL("the command line is not understood: " << e.what());
	}
	CHECK(own_error([&] {p.setFlag("late", "x");}), "a flag is declared after importOptions");
	CHECK(own_error([&] {p.setArgument<double>("late", "x");}), "an argument is declared after importOptions");
	CHECK(own_error([&] {p.setArgument<int>("late", "x", 3);}), "an argument is declared after importOptions");
	c.nontrivial = n > 1 && !a.words.empty();
	for (auto& o : own) {
		bool has = o.given || o.def;
		CHECK(p.hasArgument(o.name) == has, "hasArgument(" << o.name << ")");
		if (o.type == 3)
			continue;
		std::string e = o.given ? o.value : o.deflt, is;
		auto get = [&](int t) {
			if (t == 0)
				is = std::to_string(p.getArgument<int>(o.name));
			else if (t == 1)
				is = num(p.getArgument<double>(o.name));
			else
				is = p.getArgument<string>(o.name);
		};
		if (!has) {
			CHECK(own_error([&] {get(o.type);}), "a missing argument is read");
			continue;
		}
		try {
			get(o.type);
		} catch (std::exception& x) {
			FAIL("reading " << o.name << " fails: " << x.what());
		}
		CHECK(is == e, "argument " << o.name << " is " << is << ", given " << e);
		bool wrong = false;
		try {
			wrong = own_error([&] {get((o.type + 1 + g.draw(2)) % 3);});
		} catch (std::exception& x) {
			c.key = "type";
			FAIL("reading " << o.name << " with another type gives a foreign exception: " << x.what());
		}
		CHECK(wrong, "an argument is read with another type");
	}
	CHECK(!p.hasArgument("verbose") && !p.hasArgument("cfl"), "standard arguments appear from nowhere");
}

// the help message stops the program and names every option
LAW(help, 10, 50, 1) {
	Args a;
	if (g.flag())
		a.words.push_back("--verbose");
	a.words.push_back(g.flag() ? "--help" : "-h");
	if (g.flag())
		a.words.push_back("--cfl=2");
	char** av = a.get();
	CommandLineParser p(a.size(), av);
	std::string name = "opt" + std::to_string(g.draw(1000));
	p.setArgument<int>(name, "an option");
	bool stopped = false;
	// pout prints to std::cout
	std::stringstream out;
	std::streambuf* old = std::cout.rdbuf(out.rdbuf());
	try {
		p.importOptions();
	} catch (HelpMessageStop&) {
		stopped = true;
	} catch (...) {
	}
	std::cout.rdbuf(old);
	CHECK(stopped, "the help option does not stop the program");
	std::stringstream s;
	s << p;
	std::vector<std::string> names { name, "standard-lbm", "standard-lbm-with", "order-fe", "cfl", "output-on", "verbose", "integrator", "integrator-id", "scaling", "output-dir",
			"tmax", "init-niter", "init-res" };
	for (auto& x : choices())
		names.push_back(x.option);
	for (auto& x : names)
		CHECK(s.str().find("--" + x) != std::string::npos, "the help message does not mention --" << x);
	c.nontrivial = true;
}

HARNESS_MAIN
