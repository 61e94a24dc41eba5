// a reference model of the solver configuration: the settings, their defaults and the values they accept
#pragma once
#include "common.h"
#include "natrium/solver/SolverConfiguration.h"
#include <climits>
#include <fstream>

namespace cfgm {

// a value is kept as text: numbers in full precision
inline std::string num(double x) {
	char b[40];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
inline std::string num(const std::vector<double>& v) {
	std::string s = "[";
	for (double x : v)
		s += num(x) + " ";
	return s + "]";
}
typedef std::map<std::string, std::string> Values;

struct Setting {
	std::string name;
	std::string def;
	std::function<std::string(SolverConfiguration&)> get;
	// draws a value, returns true if the value is acceptable; `text` is the value as the getter will give it and
	// `apply` sets it
	std::function<bool(Gen&, std::string& text, std::function<void(SolverConfiguration&)>& apply)> draw;
	std::string path;                                     // section/section/entry in files
	std::function<std::string(const std::string&)> file;  // value in files
};

#define ENUM(NAME, TYPE, SET, GET, DEF, COUNT) \
	s.push_back(Setting { NAME, num((double) DEF), [](SolverConfiguration& c) {return num((double) c.GET());}, \
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) { \
			bool bad = g.chance(12); \
			int v = bad ? COUNT + (int) g.draw(3) : (int) g.draw(COUNT); \
			text = num((double) v); \
			apply = [v](SolverConfiguration& c) {c.SET(static_cast<TYPE>(v));}; \
			return !bad;}, "", nullptr})
#define BOOL(NAME, SET, GET, DEF, PATH) \
	s.push_back(Setting { NAME, num((double) DEF), [](SolverConfiguration& c) {return num((double) c.GET());}, \
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) { \
			bool v = g.flag(); \
			text = num((double) v); \
			apply = [v](SolverConfiguration& c) {c.SET(v);}; \
			return true;}, PATH, [](const std::string& t) {return std::string(t == "1" ? "true" : "false");}})
#define INT(NAME, SET, GET, DEF, LO, HI, PATH) \
	s.push_back(Setting { NAME, num((double) DEF), [](SolverConfiguration& c) {return num((double) c.GET());}, \
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) { \
			long v = draw_int(g, LO, HI); \
			text = num((double) v); \
			apply = [v](SolverConfiguration& c) {c.SET(v);}; \
			return v >= (LO) && v <= (long) (HI);}, PATH, [](const std::string& t) {return t;}})
#define REAL(NAME, SET, GET, DEF, LO, HI, PATH) \
	s.push_back(Setting { NAME, num((double) DEF), [](SolverConfiguration& c) {return num((double) c.GET());}, \
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) { \
			double v = draw_real(g, LO, HI); \
			text = num(v); \
			apply = [v](SolverConfiguration& c) {c.SET(v);}; \
			return v >= (LO) && v <= (HI);}, PATH, [](const std::string& t) {return t;}})

inline long draw_int(Gen& g, long lo, long hi) {
	switch (g.draw(6)) {
	case 0:
		return lo + (long) g.draw(20) - 2;
	case 1:
		return hi - (long) g.draw(3) + 1;
	case 2:
		return lo + (long) g.draw((size_t) 1 << g.draw(31)) ;
	case 3:
		return -(long) g.draw(1000);
	default:
		return lo + (long) g.draw((size_t) std::min<long>(hi - lo, 100000));
	}
}
inline double draw_real(Gen& g, double lo, double hi) {
	double x;
	switch (g.draw(6)) {
	case 0:
		x = g.pick(std::vector<double> { lo, hi, lo - 1e-9 * std::fabs(lo), 0.0, -0.5, 1e-300, 1e300, 1e-9, 1.0, hi + 1e-9 * std::fabs(hi), -1e-300 });
		break;
	case 1:
		x = -g.logreal(1e-6, 1e6, 1);
		break;
	case 2:
		x = g.logreal(1e-20, 1e20, 1);
		break;
	case 3:
		x = (double) g.draw(50);
		break;
	default:
		x = g.logreal(1e-4, 1e4, 1) * g.real(0.1, 1, 0.37);
	}
	return std::fabs(x) < 1e305 ? x : 1.0;
}

// the settings with set and get functions; ranges and defaults as documented
inline const std::vector<Setting>& settings() {
	static std::vector<Setting> s;
	if (!s.empty())
		return s;
	const double big = 1.7976931348623157e308, eps = 1e-10;
	(void) big;
#define BIG 1.7976931348623157e308
	ENUM("advection", AdvectionSchemeName, setAdvectionScheme, getAdvectionScheme, SEDG, 2);
	ENUM("support points", SupportPointsName, setSupportPoints, getSupportPoints, GAUSS_LOBATTO_POINTS, 4);
	ENUM("quadrature", QuadratureName, setQuadrature, getQuadrature, QGAUSS_LOBATTO, 2);
	ENUM("collision", CollisionSchemeName, setCollisionScheme, getCollisionScheme, BGK_STANDARD, 13);
	ENUM("MRT basis", MomentBasis, setMRTBasis, getMRTBasis, DELLAR_D2Q9, 3);
	ENUM("MRT relaxation", RelaxMode, setMRTRelaxationTimes, getMRTRelaxationTimes, RELAX_FULL, 3);
	ENUM("equilibrium", EquilibriumSchemeName, setEquilibriumScheme, getEquilibriumScheme, BGK_EQUILIBRIUM, 5);
	REAL("steady state gamma", setBGKSteadyStateGamma, getBGKSteadyStateGamma, 1, 0.0, 1.0, "Collision/BGK parameters/Steady state gamma");
	ENUM("pseudopotential", PseudopotentialType, setPseudopotentialType, getPseudopotentialType, SHAN_CHEN, 3);
	REAL("pseudopotential G", setBGKPseudopotentialG, getBGKPseudopotentialG, -5, -1e10, 1e10, "Collision/BGK parameters/Pseudopotential G");
	REAL("pseudopotential T", setBGKPseudopotentialT, getBGKPseudopotentialT, 0.0848997582, -1e10, 1e10, "Collision/BGK parameters/Pseudopotential T");
	ENUM("forcing", ForceType, setForcingScheme, getForcingScheme, NO_FORCING, 4);
	INT("verbosity", setCommandLineVerbosity, getCommandLineVerbosity, 5, 0L, 8L, "Output/Command line verbosity");
	BOOL("analytic solution", setHasAnalyticSolution, hasAnalyticSolution, false, "General/Has analytic solution?");
	BOOL("filtering", setFiltering, isFiltering, false, "Filtering/Apply filtering?");
	BOOL("vmult limiter", setVmultLimiter, isVmultLimiter, false, "Filtering/Apply vmult limiter?");
	ENUM("filtering scheme", FilteringSchemeName, setFilteringScheme, getFilteringScheme, EXPONENTIAL_FILTER, 2);
	INT("filter interval", setFilterInterval, getFilterInterval, 1, 1L, 10000000L, "Filtering/Filter parameters/Filter interval");
	REAL("filter alpha", setExponentialFilterAlpha, getExponentialFilterAlpha, 10, 0.0, 1e10, "Filtering/Filter parameters/Exponential alpha");
	REAL("filter s", setExponentialFilterS, getExponentialFilterS, 20, 0.0, 1e10, "Filtering/Filter parameters/Exponential s");
	INT("filter Nc", setExponentialFilterNc, getExponentialFilterNc, 1, 0L, 50L, "Filtering/Filter parameters/Exponential Nc");
	BOOL("degree by sums", setFilterDegreeByComponentSums, isFilterDegreeByComponentSums, false, "Filtering/Filter parameters/Degree by component sums");
	ENUM("initialization", InitializationSchemeName, setInitializationScheme, getInitializationScheme, EQUILIBRIUM, 4);
	INT("init iterations", setIterativeInitializationNumberOfIterations, getIterativeInitializationNumberOfIterations, 2000, 1L, (long) INT_MAX,
			"Initialization/Iterative initialization stop condition/Number of iterations");
	REAL("init residual", setIterativeInitializationResidual, getIterativeInitializationResidual, 1e-7, 1e-25, BIG, "Initialization/Iterative initialization stop condition/Residual");
	INT("time steps", setNumberOfTimeSteps, getNumberOfTimeSteps, 100000000, 1L, (long) INT_MAX, "Stop condition/Number of time steps");
	REAL("end time", setSimulationEndTime, getSimulationEndTime, 1e8, 0.0, BIG, "Stop condition/Simulation end time");
	REAL("convergence", setConvergenceThreshold, getConvergenceThreshold, 1e-30, -BIG, BIG, "Stop condition/Convergence threshold");
	INT("checkpoint interval", setOutputCheckpointInterval, getOutputCheckpointInterval, 1000000000, 1L, (long) INT_MAX, "Output/Output checkpoint interval");
	INT("table interval", setOutputTableInterval, getOutputTableInterval, 1000, 1L, (long) INT_MAX, "Output/Output table interval");
	INT("solution interval", setOutputSolutionInterval, getOutputSolutionInterval, 1000, 1L, (long) INT_MAX, "Output/Output solution interval");
	INT("restart", setRestartAtIteration, getRestartAtIteration, 0, 0L, (long) INT_MAX, "Initialization/Restart at iteration");
	ENUM("flux", FluxTypeName, setSedgFluxType, getSedgFluxType, LAX_FRIEDRICHS, 2);
	INT("order", setSedgOrderOfFiniteElement, getSedgOrderOfFiniteElement, 1, 1L, (long) INT_MAX, "Advection/SEDG/Order of finite element");
	REAL("scaling", setStencilScaling, getStencilScaling, 1, 1e-10, BIG, "General/Stencil scaling");
	ENUM("stencil", StencilType, setStencil, getStencil, Stencil_D2Q9, 14);
	ENUM("time integrator", TimeIntegratorName, setTimeIntegrator, getTimeIntegrator, RUNGE_KUTTA_5STAGE, 4);
	REAL("theta", setThetaMethodTheta, getThetaMethodTheta, 0.5, 0.0, 1.0, "Advection/Theta method/Theta");
	ENUM("deal integrator", DealIntegratorName, setDealIntegrator, getDealIntegrator, NONE, 13);
	ENUM("deal solver", DealSolverName, setDealLinearSolver, getDealLinearSolver, BICGSTAB, 8);
	REAL("CFL", setCFL, getCFL, 0.4, 1e-10, BIG, "General/CFL");
	REAL("gamma", setHeatCapacityRatioGamma, getHeatCapacityRatioGamma, 1.4, 1e-10, BIG, "General/Gamma");
	REAL("Prandtl", setPrandtlNumber, getPrandtlNumber, 1, 1e-10, BIG, "General/Prandtl");
	REAL("reference temperature", setReferenceTemperature, getReferenceTemperature, 1, 1e-10, BIG, "General/Reference temperature");
	BOOL("log file", setWriteALogFile, isWriteALogFile, true, "Output/Write a log file?");
	BOOL("output off", setSwitchOutputOff, isSwitchOutputOff, false, "Output/Switch output off?");
	BOOL("turbulence", setOutputTurbulenceStatistics, isOutputTurbulenceStatistics, false, "Output/Turbulence Statistics/Output turbulence statistics?");
	BOOL("global turbulence", setOutputGlobalTurbulenceStatistics, isOutputGlobalTurbulenceStatistics, false, "Output/Turbulence Statistics/Output global turbulence statistics?");
	BOOL("compressible turbulence", setOutputCompressibleTurbulenceStatistics, isOutputCompressibleTurbulenceStatistics, false,
			"Output/Turbulence Statistics/Output compressible turbulence statistics?");
	INT("wall normal", setWallNormalDirection, getWallNormalDirection, 1, 0L, 3L, "Output/Turbulence Statistics/Wall normal direction");
	BOOL("user interaction", setUserInteraction, isUserInteraction, true, "Output/User interaction?");
	ENUM("regularization", RegularizationSchemeName, setRegularizationScheme, getRegularizationScheme, NO_REGULARIZATION, 5);
	s.push_back(Setting { "wall coordinates", num(std::vector<double> { 0.1, 0.2, 0.5 }), [](SolverConfiguration& c) {return num(c.getWallNormalCoordinates());},
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) {
			std::vector<double> v(g.draw(6));
			bool ok = true;
			for (double& x : v) {
				x = draw_real(g, -1e10, 1e10);
				ok = ok && std::fabs(x) <= 1e10;
			}
			text = num(v);
			apply = [v](SolverConfiguration& c) {c.setWallNormalCoordinates(v);};
			return ok;}, "Output/Turbulence Statistics/Wall normal coordinates", [](const std::string& t) {
				std::stringstream i(t.substr(1, t.size() - 2));
				std::string r, x;
				while (i >> x)
					r += (r.empty() ? "" : ", ") + x;
				return r;}});
	s.push_back(Setting { "output directory", "/tmp/NATriuM", [](SolverConfiguration& c) {return std::string(c.getOutputDirectory());},
		[](Gen& g, std::string& text, std::function<void(SolverConfiguration&)>& apply) {
			static const std::string chars = "abcXYZ019_-./";
			std::string v = "/";
			size_t n = 1 + g.draw(20);
			for (size_t i = 0; i < n; i++)
				v += chars[g.draw(chars.size())];
			text = v;
			apply = [v](SolverConfiguration& c) {c.setOutputDirectory(v);};
			return true;}, "Output/Output directory", [](const std::string& t) {return t;}});
	(void) eps;
	return s;
}
#undef BIG
// what can only be switched on
inline std::string prandtl_set(SolverConfiguration& c) {
	return num((double) c.isPrandtlNumberSet());
}
inline std::string sutherland_set(SolverConfiguration& c) {
	return num((double) c.isSutherlandLawSet());
}
inline std::string embedded(SolverConfiguration& c) {
	return num(std::vector<double> { c.getEmbeddedDealIntegratorCoarsenParameter(), c.getEmbeddedDealIntegratorRefinementParameter(),
		c.getEmbeddedDealIntegratorMinimumCFL(), c.getEmbeddedDealIntegratorMaximumCFL(), c.getEmbeddedDealIntegratorRefinementTolerance(),
		c.getEmbeddedDealIntegratorCoarsenTolerance() });
}
inline Values defaults() {
	Values v;
	for (auto& s : settings())
		v[s.name] = s.def;
	v["Prandtl set"] = v["Sutherland set"] = "0";
	v["embedded"] = num(std::vector<double> { 1.2, 0.8, 10, 0.05, 1e-8, 1e-12 });
	return v;
}
inline Values read(SolverConfiguration& c) {
	Values v;
	for (auto& s : settings())
		v[s.name] = s.get(c);
	v["Prandtl set"] = prandtl_set(c);
	v["Sutherland set"] = sutherland_set(c);
	v["embedded"] = embedded(c);
	return v;
}
// the files and setters work with 16 digits
inline bool same(const std::string& a, const std::string& b) {
	if (a == b)
		return true;
	if (a.empty() || b.empty() || a[0] == '/' || (a[0] == '[') != (b[0] == '['))
		return false;
	std::stringstream x(a[0] == '[' ? a.substr(1, a.size() - 2) : a), y(b[0] == '[' ? b.substr(1, b.size() - 2) : b);
	std::string u, v;
	while (true) {
		bool more = bool(x >> u), other = bool(y >> v);
		if (more != other)
			return false;
		if (!more)
			return true;
		double d = atof(u.c_str()), e = atof(v.c_str());
		if (!(std::fabs(d - e) <= 1e-14 * std::fabs(e)))
			return false;
	}
}
inline std::string difference(const Values& is, const Values& expected) {
	std::string s;
	for (auto& x : expected)
		if (!same(is.at(x.first), x.second))
			s += " '" + x.first + "' is " + is.at(x.first) + ", expected " + x.second + ";";
	return s;
}
#undef ENUM
#undef BOOL
#undef INT
#undef REAL
}
