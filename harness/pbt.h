// A small property-based testing engine.
//
// A case is a sequence of choices (integers).  Laws draw all their randomness
// from a Gen; a failing case is shrunk on the choice sequence (blocks removed
// or zeroed, values lowered) and saved as a replay file which reproduces it
// without any search.  A run is a pure function of the code and the seed.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail {
	std::string msg, key;
};
struct Discard {
};

inline uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) {
		h ^= c;
		h *= 1099511628211ull;
	}
	return h;
}

// choices of the running case, in static memory for the crash handler
static const size_t MAXC = 1 << 16;
static uint64_t g_choices[MAXC];
static volatile size_t g_nchoices = 0;
static char g_crashfile[4096] = "";
static char g_lawname[256] = "";

class Gen {
	const std::vector<uint64_t>* m_in;
	uint64_t m_rng;
	size_t m_pos = 0;
public:
	std::vector<uint64_t> out;
	explicit Gen(uint64_t seed) :
			m_in(nullptr), m_rng(seed) {
		g_nchoices = 0;
	}
	explicit Gen(const std::vector<uint64_t>& in) :
			m_in(&in), m_rng(0) {
		g_nchoices = 0;
	}
	/// integer in [0, bound); 0 is the simplest
	uint64_t draw(uint64_t bound) {
		uint64_t v;
		if (bound <= 1)
			bound = 1;
		if (m_in) {
			v = m_pos < m_in->size() ? (*m_in)[m_pos] : 0;
			if (v >= bound)
				v %= bound;
			m_pos++;
		} else {
			v = splitmix(m_rng) % bound;
		}
		out.push_back(v);
		if (g_nchoices < MAXC) {
			g_choices[g_nchoices] = v;
			g_nchoices = g_nchoices + 1;
		}
		return v;
	}
	/// lo..hi inclusive, lo is the simplest
	long range(long lo, long hi) {
		return lo + (long) draw((uint64_t) (hi - lo + 1));
	}
	bool flag() {
		return draw(2) == 1;
	}
	/// true in about percent % of the cases
	bool chance(int percent) {
		return draw(100) >= (uint64_t) (100 - percent);
	}
	/// real in [lo, hi]; the simplest value is `simple`
	double real(double lo, double hi, double simple) {
		uint64_t v = draw((1ull << 24) + 1);
		if (v == 0)
			return simple;
		return lo + (hi - lo) * ((double) (v - 1) / (double) ((1ull << 24) - 1));
	}
	double real(double lo, double hi) {
		return real(lo, hi, (lo <= 0 && hi >= 0) ? 0.0 : lo);
	}
	/// log-uniform in [lo, hi], lo > 0
	double logreal(double lo, double hi, double simple) {
		uint64_t v = draw((1ull << 24) + 1);
		if (v == 0)
			return simple;
		return lo * std::pow(hi / lo, (double) (v - 1) / (double) ((1ull << 24) - 1));
	}
	template<class T> const T& pick(const std::vector<T>& v) {
		return v[draw(v.size())];
	}
};

struct Ctx {
	bool nontrivial = false;
	std::string key;                    // what a failure is identified by
	std::ostringstream desc;            // the case, written out
	std::vector<std::string> labels;
	void label(const std::string& s) {
		labels.push_back(s);
	}
};

typedef std::function<void(Gen&, Ctx&)> LawFn;
struct Law {
	std::string name;
	int quick, thorough, shards;
	LawFn fn;
};
inline std::vector<Law>& laws() {
	static std::vector<Law> l;
	return l;
}
struct Reg {
	Reg(const char* n, int q, int t, int s, LawFn f) {
		laws().push_back(Law { n, q, t, s, f });
	}
};

#define LAW(name, quick, thorough, shards) \
	static void law_##name(pbt::Gen& g, pbt::Ctx& c); \
	static pbt::Reg reg_##name(#name, quick, thorough, shards, law_##name); \
	static void law_##name(pbt::Gen& g, pbt::Ctx& c)

#define FAIL(stream) \
	do { std::ostringstream fail_os; fail_os.precision(17); fail_os << stream; \
		throw pbt::Fail { fail_os.str(), c.key }; } while (0)
#define CHECK(cond, stream) do { if (!(cond)) FAIL(stream); } while (0)
/// |a-b| <= tol, false for NaN
#define CLOSE(a, b, tol, stream) \
	do { const double close_a = (a), close_b = (b), close_t = (tol); \
		if (!(std::fabs(close_a - close_b) <= close_t)) \
			FAIL(stream << ": got " << close_a << ", expected " << close_b \
				<< " (difference " << close_a - close_b << ", allowed " << close_t << ")"); } while (0)

inline double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline void crash_handler(int sig) {
	// only async-signal-safe calls
	int fd = open(g_crashfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) {
		auto put = [&](const char* s) {
			if (write(fd, s, strlen(s)) < 0) {
			}
		};
		auto num = [&](uint64_t v) {
			char b[24];
			int i = 23;
			b[i] = 0;
			do {
				b[--i] = '0' + v % 10;
				v /= 10;
			} while (v);
			put(b + i);
		};
		put("law ");
		put(g_lawname);
		put("\nsignal ");
		num(sig);
		put("\nchoices");
		for (size_t i = 0; i < g_nchoices; i++) {
			put(" ");
			num(g_choices[i]);
		}
		put("\n");
		close(fd);
	}
	_exit(90);
}
inline void install_crash_handler() {
	static char stack[1 << 16];
	stack_t ss;
	memset(&ss, 0, sizeof(ss));
	ss.ss_sp = stack;
	ss.ss_size = sizeof(stack);
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = crash_handler;
	sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM })
		sigaction(s, &sa, nullptr);
}

enum Outcome {
	OK, FAILED, DISCARDED
};
struct Result {
	Outcome o;
	std::string msg, key;
};

/// seconds of processor time one case may take before it counts as hanging (0: no limit)
inline double& case_limit() {
	static double t = 120;
	return t;
}
inline void arm(double seconds) {
	struct itimerval tv;
	memset(&tv, 0, sizeof(tv));
	tv.it_value.tv_sec = (long) seconds;
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

inline Result run_case(const Law& law, Gen& g, Ctx& c) {
	arm(case_limit());
	Result r { OK, "", "" };
	try {
		law.fn(g, c);
	} catch (Fail& f) {
		r = Result { FAILED, f.msg, f.key };
	} catch (Discard&) {
		r = Result { DISCARDED, "", "" };
	} catch (std::exception& e) {
		std::string w = e.what();
		r = Result { FAILED, "unexpected exception: " + w.substr(0, std::min<size_t>(w.find("Stacktrace"), 500)), c.key };
	} catch (...) {
		r = Result { FAILED, "unexpected exception of unknown type", c.key };
	}
	arm(0);
	if (r.o == FAILED && r.key.empty())
		r.key = law.name;
	return r;
}

inline std::string json_escape(const std::string& s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += ch;
		} else if (ch == '\n')
			o += "\\n";
		else if (ch < 32 || ch > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", ch);
			o += b;
		} else
			o += ch;
	}
	return o;
}

/// shrinks a failing choice sequence; a smaller one counts only if it fails with the same key
inline void shrink(const Law& law, std::vector<uint64_t>& best, std::string& msg, const std::string& key,
		std::string& desc, int budget, double seconds) {
	const double t0 = now();
	auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
		return a.size() != b.size() ? a.size() < b.size() : a < b;
	};
	auto attempt = [&](const std::vector<uint64_t>& cand) {
		if (budget <= 0 || now() - t0 > seconds)
			return false;
		budget--;
		Gen g(cand);
		Ctx c;
		Result r = run_case(law, g, c);
		if (r.o == FAILED && r.key == key) {
			std::vector<uint64_t> used = g.out;
			if (smaller(used, best)) {
				best = used;
				msg = r.msg;
				desc = c.desc.str();
				return true;
			}
		}
		return false;
	};
	bool improved = true;
	while (improved && budget > 0 && now() - t0 < seconds) {
		improved = false;
		for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size();) {
				std::vector<uint64_t> cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + len);
				if (attempt(cand)) {
					improved = true;
					continue;
				}
				cand = best;
				bool any = false;
				for (size_t k = i; k < i + len; k++) {
					any = any || cand[k];
					cand[k] = 0;
				}
				if (any && attempt(cand))
					improved = true;
				i += len;
			}
			if (len == 1)
				break;
		}
		for (size_t i = 0; i < best.size(); i++) {
			uint64_t lo = 0;
			int tries = 0;
			while (i < best.size() && lo < best[i] && tries++ < 24) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				std::vector<uint64_t> cand = best;
				cand[i] = mid;
				if (attempt(cand))
					improved = true;
				else
					lo = mid + 1;
			}
		}
	}
}

inline std::string replay_text(const Law& law, const std::vector<uint64_t>& ch, const std::string& msg,
		const std::string& key, const std::string& desc) {
	std::ostringstream o;
	o << "law " << law.name << "\nchoices";
	for (uint64_t v : ch)
		o << " " << v;
	o << "\n# key: " << key << "\n";
	std::string all = "failure: " + msg + "\ncase: " + desc;
	std::istringstream is(all);
	std::string line;
	while (std::getline(is, line))
		o << "# " << line << "\n";
	return o.str();
}

/// --list | --law L --cases N --seed S --shard K --out FILE [--known FILE] [--maxsec T] | --replay FILE
inline int main_loop(int argc, char** argv) {
	std::map<std::string, std::string> a;
	for (int i = 1; i < argc; i++) {
		std::string k = argv[i];
		if (k == "--list") {
			for (auto& l : laws())
				std::cout << "LAW " << l.name << " " << l.quick << " " << l.thorough << " " << l.shards << "\n";
			std::cout.flush();
			return 0;
		}
		if (k.substr(0, 2) == "--" && i + 1 < argc)
			a[k.substr(2)] = argv[++i];
	}
	if (a.count("caselimit"))
		case_limit() = atof(a["caselimit"].c_str());
	std::string lawname = a["law"];
	std::vector<uint64_t> replay;
	if (a.count("replay")) {
		std::ifstream f(a["replay"]);
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream is(line);
			std::string w;
			is >> w;
			if (w == "law")
				is >> lawname;
			else if (w == "choices") {
				uint64_t v;
				while (is >> v)
					replay.push_back(v);
			}
		}
	}
	const Law* law = nullptr;
	for (auto& l : laws())
		if (l.name == lawname)
			law = &l;
	if (!law) {
		std::cerr << "no law " << lawname << std::endl;
		return 3;
	}
	strncpy(g_lawname, lawname.c_str(), sizeof(g_lawname) - 1);
	snprintf(g_crashfile, sizeof(g_crashfile), "%s.crash", a.count("out") ? a["out"].c_str() : "/dev/null");
	install_crash_handler();

	if (a.count("replay")) {
		Gen g(replay);
		Ctx c;
		Result r = run_case(*law, g, c);
		std::cout << "\nREPLAY " << (r.o == FAILED ? "FAIL" : "PASS") << " law=" << law->name << " key=" << r.key
				<< "\n" << r.msg << "\n" << c.desc.str() << std::endl;
		return r.o == FAILED ? 10 : 0;
	}

	std::set<std::string> known;
	if (a.count("known")) {
		std::ifstream f(a["known"]);
		std::string line;
		while (std::getline(f, line))
			if (!line.empty())
				known.insert(line);
	}
	const long cases = atol(a["cases"].c_str());
	const double maxsec = a.count("maxsec") ? atof(a["maxsec"].c_str()) : 1e9;
	uint64_t s = strtoull(a["seed"].c_str(), nullptr, 10) * 0x2545f4914f6cdd1dull + hash_str(lawname);
	s ^= 0x9e3779b97f4a7c15ull * (1 + strtoull(a["shard"].c_str(), nullptr, 10));

	long evals = 0, discarded = 0, nontrivial = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, long> classes;
	std::map<std::string, std::string> known_hits;
	std::map<std::string, long> known_n;
	std::vector<std::string> samples;
	std::string fail_json, replay_file;
	bool stopped_early = false;
	const double t0 = now();
	for (long i = 0; i < cases; i++) {
		if (now() - t0 > maxsec) {
			stopped_early = true;
			break;
		}
		uint64_t cs = s + (uint64_t) i * 0xd1342543de82ef95ull;
		splitmix(cs);
		Gen g(cs);
		Ctx c;
		Result r = run_case(*law, g, c);
		evals++;
		if (r.o == DISCARDED) {
			discarded++;
			continue;
		}
		for (auto& l : c.labels)
			classes[l]++;
		if (c.nontrivial) {
			nontrivial++;
			std::string key((const char*) g.out.data(), g.out.size() * sizeof(uint64_t));
			distinct.insert(hash_str(key));
		}
		if (r.o == OK && c.nontrivial && samples.size() < 2)
			samples.push_back(c.desc.str().substr(0, 600));
		if (r.o == FAILED) {
			if (known.count(r.key)) {
				known_n[r.key]++;
				if (!known_hits.count(r.key))
					known_hits[r.key] = r.msg;
				continue;
			}
			std::vector<uint64_t> best = g.out;
			std::string msg = r.msg, desc = c.desc.str();
			// write it down first: shrinking may crash
			replay_file = a["out"] + ".replay";
			{
				std::ofstream f(replay_file);
				f << replay_text(*law, best, msg, r.key, desc);
			}
			shrink(*law, best, msg, r.key, desc, 400, 45);
			{
				std::ofstream f(replay_file);
				f << replay_text(*law, best, msg, r.key, desc);
			}
			fail_json = "{\"law\":\"" + law->name + "\",\"key\":\"" + json_escape(r.key) + "\",\"msg\":\""
					+ json_escape(msg) + "\",\"case\":\"" + json_escape(desc) + "\",\"replay\":\""
					+ json_escape(replay_file) + "\"}";
			break;
		}
	}
	std::ofstream f(a["out"]);
	f << "{\"law\":\"" << law->name << "\",\"evaluations\":" << evals << ",\"discarded\":" << discarded
			<< ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size()
			<< ",\"stopped_early\":" << (stopped_early ? "true" : "false") << ",\"wall_s\":" << now() - t0
			<< ",\"classes\":{";
	bool first = true;
	for (auto& p : classes) {
		f << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":" << p.second;
		first = false;
	}
	f << "},\"known\":{";
	first = true;
	for (auto& p : known_hits) {
		f << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":{\"n\":" << known_n[p.first] << ",\"msg\":\""
				<< json_escape(p.second) << "\"}";
		first = false;
	}
	f << "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++)
		f << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
	f << "],\"failure\":" << (fail_json.empty() ? "null" : fail_json) << "}\n";
	f.close();
	return fail_json.empty() ? 0 : 10;
}

} // namespace pbt
