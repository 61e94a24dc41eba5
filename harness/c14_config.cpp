// C14: the configuration keeps what it is given, rejects what is not allowed, and survives files; output directories are prepared without harm.
#include "config.h"
#include <boost/filesystem.hpp>
using namespace cfgm;
namespace fs = boost::filesystem;

static std::string scratch() {
	static std::string d;
	static size_t n = 0;
	if (d.empty())
		d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/cfg" + std::to_string(getpid());
	fs::create_directories(d);
	return d + "/f" + std::to_string(n++);
}
static void slurp(const std::string& f, std::string& s) {
	std::ifstream i(f);
	std::stringstream b;
	b << i.rdbuf();
	s = b.str();
}
// what fails: 0 nothing, 1 ConfigurationException, 2 something else
template<class F> static int outcome(F f) {
	try {
		f();
	} catch (ConfigurationException&) {
		return 1;
	} catch (std::exception&) {
		return 2;
	}
	return 0;
}
static void set_random(Gen& g, Ctx& c, SolverConfiguration& cfg, Values& model, size_t& rejected) {
	size_t k = g.draw(settings().size() + 2);
	if (k == settings().size()) {
		c.desc << " Sutherland";
		cfg.setSutherlandLaw();
		model["Sutherland set"] = "1";
		return;
	}
	if (k == settings().size() + 1) {
		double v[6];
		const double lo[6] = { 1, 0, -1.7e308, -1.7e308, -1.7e308, -1.7e308 }, hi[6] = { 1000, 1, 1.7e308, 1.7e308, 1.7e308, 1.7e308 };
		bool ok = true;
		for (size_t i = 0; i < 6; i++) {
			v[i] = i < 2 && g.chance(80) ? g.real(lo[i], hi[i], lo[i]) : draw_real(g, lo[i], hi[i]);
			ok = ok && v[i] >= lo[i] && v[i] <= hi[i];
		}
		std::string t = num(std::vector<double>(v, v + 6));
		c.desc << " embedded=" << t;
		int r = outcome([&] {cfg.setEmbeddedDealIntegratorParameters(v[0], v[1], v[2], v[3], v[4], v[5]);});
		CHECK(r == (ok ? 0 : 1), "setting the embedded parameters to " << t << (r ? r == 2 ? " fails with a foreign exception" : " is rejected" : " is accepted"));
		if (ok)
			model["embedded"] = t;
		else {
			// the values before the bad one may have been taken
			std::string now = embedded(cfg), o, n, was = model["embedded"];
			std::stringstream a(now.substr(1)), b(was.substr(1)), d(t.substr(1));
			for (size_t i = 0; i < 6; i++) {
				a >> n;
				b >> o;
				d >> was;
				CHECK(same(n, o) || same(n, was), "embedded parameter " << i << " is " << n << ", was " << o << ", and " << was << " was rejected");
			}
			model["embedded"] = now;
			rejected++;
		}
		return;
	}
	const Setting& s = settings()[k];
	std::string text;
	std::function<void(SolverConfiguration&)> apply;
	bool ok = s.draw(g, text, apply);
	c.desc << " " << s.name << "=" << text;
	int r = outcome([&] {apply(cfg);});
	c.key = s.name;
	CHECK(r == (ok ? 0 : 1), "setting '" << s.name << "' to " << text << (r ? r == 2 ? " fails with a foreign exception" : " is rejected" : " is accepted"));
	if (ok) {
		model[s.name] = text;
		if (s.name == "Prandtl")
			model["Prandtl set"] = "1";
	} else
		rejected++;
}
static void compare(Ctx& c, SolverConfiguration& cfg, const Values& model, const char* when) {
	Values is;
	try {
		is = read(cfg);
	} catch (std::exception& e) {
		FAIL(when << ": reading the settings fails: " << e.what());
	}
	std::string d = difference(is, model);
	CHECK(d.empty(), when << ":" << d);
}
// is the combination consistent?
static bool consistent(const Values& m) {
	if (m.at("time integrator") == num((double) OTHER) && m.at("deal integrator") == num((double) NONE))
		return false;
	return !(m.at("collision") == num((double) BGK_MULTIPHASE) && m.at("forcing") == num((double) NO_FORCING));
}

// histories of settings, rejected settings, checks and files
LAW(histories, 300, 10000, 2) {
	SolverConfiguration cfg;
	Values model = defaults();
	size_t rejected = 0, ops = 1 + g.draw(30);
	c.key = "defaults";
	compare(c, cfg, model, "a new configuration");
	for (size_t n = 0; n < ops; n++) {
		size_t op = g.draw(20);
		if (op == 0) {
			c.desc << " check";
			int r = outcome([&] {cfg.isConsistent();});
			c.key = "consistency";
			CHECK(r == (consistent(model) ? 0 : 1), "the consistency check " << (r ? "rejects" : "accepts") << " the settings");
		} else if (op == 1) {
			c.desc << " copy-by-file";
			std::string f = scratch();
			{
				std::ofstream o(f);
				cfg.print_parameters(o, dealii::ParameterHandler::XML);
			}
			SolverConfiguration other;
			c.key = "xml";
			CHECK(outcome([&] {other.readFromXMLFile(f);}) == 0, "the configuration's own file is rejected");
			compare(c, other, model, "after writing to a file and reading");
			fs::remove(f);
		} else
			set_random(g, c, cfg, model, rejected);
		compare(c, cfg, model, "after the operation");
	}
	c.nontrivial = ops - rejected > 1;
}

// files that are written by the configuration itself
LAW(files, 150, 5000, 1) {
	SolverConfiguration cfg, fresh;
	Values model = defaults();
	size_t rejected = 0, ops = g.draw(40);
	for (size_t n = 0; n < ops; n++)
		set_random(g, c, cfg, model, rejected);
	bool xml = g.flag(), ctor = xml && g.flag();
	std::string f = scratch() + (xml ? ".xml" : ".prm");
	{
		std::ofstream o(f);
		cfg.print_parameters(o, xml ? dealii::ParameterHandler::XML : dealii::ParameterHandler::Text);
	}
	c.desc << (xml ? " xml" : " text") << (ctor ? " constructor" : "");
	c.key = ctor ? "constructor" : xml ? "xml" : "text";
	try {
		if (ctor) {
			SolverConfiguration read_in(f);
			compare(c, read_in, model, "constructed from a file");
		} else {
			if (xml)
				fresh.readFromXMLFile(f);
			else
				fresh.readFromTextFile(f);
			compare(c, fresh, model, "read from a file");
		}
	} catch (std::exception& e) {
		fs::remove(f);
		FAIL("the configuration's own file is rejected: " << e.what());
	}
	fs::remove(f);
	CHECK(outcome([&] {if (xml) fresh.readFromXMLFile(f); else fresh.readFromTextFile(f);}), "a missing file is accepted");
	c.nontrivial = ops > 2;
}

// files written by hand: a few entries, the others keep their values
LAW(partial_files, 500, 15000, 1) {
	SolverConfiguration cfg;
	Values model = defaults();
	size_t rejected = 0, ops = g.draw(6), entries = 1 + g.draw(8);
	for (size_t n = 0; n < ops; n++)
		set_random(g, c, cfg, model, rejected);
	std::string text;
	bool good = true;
	c.desc << " | file:";
	for (size_t n = 0; n < entries; n++) {
		size_t k = g.draw(settings().size());
		const Setting& s = settings()[k];
		if (s.path.empty())
			continue;
		std::string v, entry = s.path;
		std::function<void(SolverConfiguration&)> apply;
		bool ok = s.draw(g, v, apply);
		size_t depth = 0, p;
		while ((p = entry.find('/')) != std::string::npos) {
			text += std::string(depth++, ' ') + "subsection " + entry.substr(0, p) + "\n";
			entry = entry.substr(p + 1);
		}
		if (g.chance(4)) {
			entry += "x";                                 // an unknown entry
			ok = false;
		}
		text += "set " + entry + " = " + s.file(v) + "\n";
		for (size_t i = 0; i < depth; i++)
			text += "end\n";
		c.desc << " " << entry << "=" << s.file(v) << (ok ? "" : "!");
		good = good && ok;
		if (good)
			model[s.name] = v;
	}
	std::string f = scratch() + ".prm";
	{
		std::ofstream o(f);
		o << text;
	}
	int r = outcome([&] {cfg.readFromTextFile(f);});
	fs::remove(f);
	CHECK((r == 0) == good, (good ? "a correct file is rejected" : "a file with an unknown entry or a value out of range is accepted"));
	if (good)
		compare(c, cfg, model, "read from a file");
	c.nontrivial = !text.empty();
}

// damaged files: rejected, or read with every setting inside its range
LAW(damaged_files, 400, 40000, 2) {
	SolverConfiguration cfg;
	Values model = defaults();
	size_t rejected = 0, ops = g.draw(10);
	for (size_t n = 0; n < ops; n++)
		set_random(g, c, cfg, model, rejected);
	c.desc.str("");
	bool xml = g.flag();
	std::string f = scratch() + (xml ? ".xml" : ".prm"), s;
	{
		std::ofstream o(f);
		cfg.print_parameters(o, xml ? dealii::ParameterHandler::XML : dealii::ParameterHandler::ShortText);
	}
	slurp(f, s);
	size_t n = 1 + g.draw(6);
	for (size_t i = 0; i < n && !s.empty(); i++) {
		size_t p = g.draw(s.size());
		switch (g.draw(5)) {
		case 0:
			s.erase(p, 1 + g.draw(30));
			break;
		case 1:
			s.insert(p, 1, (char) (32 + g.draw(95)));
			break;
		case 2:
			s[p] = (char) (32 + g.draw(95));
			break;
		case 3: {
			// another number
			size_t q = s.find_first_of("0123456789", p);
			if (q != std::string::npos)
				s.replace(q, 1, g.pick(std::vector<std::string> { "-1", "99999", "1e99", "0", "nan", "abc", "" }));
			break;
		}
		default:
			s.insert(p, s.substr(g.draw(s.size()), g.draw(40)));
		}
	}
	{
		std::ofstream o(f);
		o << s;
	}
	SolverConfiguration in;
	int r = outcome([&] {if (xml) in.readFromXMLFile(f); else in.readFromTextFile(f);});
	fs::remove(f);
	c.label(r ? "rejected" : "read");
	c.nontrivial = true;
	if (r)
		return;
	Values v;
	try {
		v = read(in);
	} catch (ConfigurationException&) {
		return;                       // rejected when the setting is used
	} catch (std::exception& e) {
		FAIL("the file is accepted, but then the settings cannot be read: " << e.what());
	}
	// every value must be one that the setter accepts
	SolverConfiguration again;
	struct Range {
		const char* n;
		double lo, hi;
	};
	static const Range ranges[] = { { "steady state gamma", 0, 1 }, { "pseudopotential G", -1e10, 1e10 }, { "verbosity", 0, 8 }, { "filter interval", 1, 1e7 },
			{ "filter alpha", 0, 1e10 }, { "filter s", 0, 1e10 }, { "filter Nc", 0, 50 }, { "init iterations", 1, INT_MAX }, { "init residual", 1e-25, HUGE_VAL },
			{ "time steps", 1, INT_MAX }, { "end time", 0, HUGE_VAL }, { "checkpoint interval", 1, INT_MAX }, { "table interval", 1, INT_MAX },
			{ "solution interval", 1, INT_MAX }, { "restart", 0, INT_MAX }, { "order", 1, INT_MAX }, { "scaling", 1e-10, HUGE_VAL }, { "theta", 0, 1 },
			{ "CFL", 1e-10, HUGE_VAL }, { "gamma", 1e-10, HUGE_VAL }, { "Prandtl", 1e-10, HUGE_VAL }, { "reference temperature", 1e-10, HUGE_VAL }, { "wall normal", 0, 3 } };
	for (auto& x : ranges) {
		double y = atof(v.at(x.n).c_str());
		CHECK(std::isnan(y) || (y >= x.lo && y <= x.hi), "the damaged file is accepted and '" << x.n << "' is " << y);
	}
}

// the output directory
typedef std::map<std::string, std::string> Tree;
static Tree tree(const std::string& root) {
	Tree t;
	if (fs::exists(root))
		for (fs::recursive_directory_iterator i(root), e; i != e; ++i) {
			std::string p = i->path().string().substr(root.size()), s;
			if (fs::is_directory(i->path()))
				t[p] = "<dir>";
			else {
				slurp(i->path().string(), s);
				t[p] = s;
			}
		}
	return t;
}
LAW(directories, 400, 10000, 1) {
	std::string base = scratch();
	fs::create_directories(base);
	struct Clean {
		std::string d, cwd;
		std::streambuf* in = nullptr;
		~Clean() {
			if (in)
				std::cin.rdbuf(in);
			if (!cwd.empty())
				(void) !chdir(cwd.c_str());
			if (d.find("/cfg") != std::string::npos)
				fs::remove_all(d);
		}
	} clean;
	clean.d = base;
	size_t depth = g.draw(4);                       // how many directories of the path are missing
	bool parent = depth <= 1, exists = depth == 0;
	bool have_parent_dir = g.flag();
	std::string dir = base + (have_parent_dir ? "/p" : "");
	fs::create_directories(dir);
	for (size_t i = 0; i < std::max<size_t>(depth, 1); i++)
		dir += "/o" + std::to_string(i);
	size_t files = 0;
	if (exists) {
		fs::create_directories(dir);
		files = g.draw(5);
		for (size_t i = 0; i < files; i++) {
			std::string sub = g.pick(std::vector<std::string> { "", "/checkpoint", "/vtk" });
			fs::create_directories(dir + sub);
			std::string name = g.pick(std::vector<std::string> { "results.txt", "testfile.txt", "natrium.log", "checkpoint_1.data", "a b" }) + std::to_string(i);
			std::ofstream o(dir + sub + "/" + name);
			size_t n = g.draw(50);
			for (size_t j = 0; j < n; j++)
				o << (char) ('a' + g.draw(26));
		}
	}
	bool empty = !exists || fs::is_empty(dir);
	SolverConfiguration cfg;
	bool interaction = g.flag(), restart = g.chance(30), relative = g.chance(25);
	cfg.setUserInteraction(interaction);
	if (restart)
		cfg.setRestartAtIteration(1 + g.draw(1000));
	if (relative) {
		char b[4096];
		clean.cwd = getcwd(b, sizeof b) ? b : "/";
		(void) !chdir((base + (have_parent_dir ? "/p" : "")).c_str());
		std::string rel = dir.substr(base.size() + (have_parent_dir ? 2 : 0) + 1);
		cfg.setOutputDirectory(g.flag() ? rel : "./" + rel);
	} else
		cfg.setOutputDirectory(dir);
	// answers of the user
	std::string answers, last;
	size_t lines = g.draw(5);
	for (size_t i = 0; i < lines; i++) {
		last = g.pick(std::vector<std::string> { "y", "n", "yes", "", "Y" });
		answers += last + "\n";
	}
	std::stringstream in(answers);
	clean.in = std::cin.rdbuf(in.rdbuf());
	std::cin.clear();
	bool asked = interaction && !restart && !empty, agree = true;
	if (asked) {
		std::stringstream a(answers);
		std::string l;
		agree = false;
		while (std::getline(a, l)) {
			if (l == "y")
				agree = true;
			if (l == "y" || l == "n")
				break;
		}
	}
	c.desc << " missing=" << depth << " files=" << files << " interaction=" << interaction << " restart=" << restart << " answers=" << lines << (relative ? " relative " : " ")
			<< cfg.getOutputDirectory();
	Tree before = tree(base);
	int r = outcome([&] {cfg.prepareOutputDirectory();});
	Tree after = tree(base);
	std::cin.clear();
	bool ok = parent && agree;
	CHECK(r == (ok ? 0 : 1), "prepareOutputDirectory " << (r ? "throws" : "goes on") << (parent ? "" : " (parent missing)") << (agree ? "" : " (user did not agree)"));
	for (auto& x : before)
		CHECK(after.count(x.first) && after[x.first] == x.second, "existing " << x.first << (after.count(x.first) ? " is changed" : " is removed"));
	std::string rel = dir.substr(base.size());
	if (ok) {
		CHECK(after.count(rel) && after[rel] == "<dir>", "the directory does not exist");
		CHECK(after.count(rel + "/checkpoint") && after[rel + "/checkpoint"] == "<dir>", "the checkpoint directory does not exist");
	}
	for (auto& x : after)
		CHECK(before.count(x.first) || x.first == rel || (ok && x.first == rel + "/checkpoint"), "unexpected file " << x.first);
	c.nontrivial = files > 0 || !parent;
}

HARNESS_MAIN
