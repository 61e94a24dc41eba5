// The same case on several MPI processes: persistent workers, started with mpirun, which take choices and write what they got.
#pragma once
#include "common.h"
#include <mpi.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace par {

/// what a run of a case leaves
struct Report {
	std::string refused;                                               // an exception which every process threw
	std::map<std::string, std::vector<double> > numbers;               // global values; have to be the same on all processes
	std::map<std::string, std::vector<double> > points;                // by name of cell and number of the point; owned by the process
	std::map<std::string, std::string> texts;
	void save(const std::string& file) const {
		std::ofstream o(file.c_str(), std::ios::binary);
		auto str = [&](const std::string& s) {
			size_t n = s.size();
			o.write((const char*) &n, sizeof n);
			o.write(s.data(), n);
		};
		auto all = [&](const std::map<std::string, std::vector<double> >& m) {
			size_t n = m.size();
			o.write((const char*) &n, sizeof n);
			for (auto& x : m) {
				str(x.first);
				n = x.second.size();
				o.write((const char*) &n, sizeof n);
				o.write((const char*) x.second.data(), n * sizeof(double));
			}
		};
		str(refused);
		all(numbers);
		all(points);
		size_t n = texts.size();
		o.write((const char*) &n, sizeof n);
		for (auto& x : texts) {
			str(x.first);
			str(x.second);
		}
	}
	void load(const std::string& file) {
		std::ifstream i(file.c_str(), std::ios::binary);
		auto num = [&]() {
			size_t n = 0;
			i.read((char*) &n, sizeof n);
			return n;
		};
		auto str = [&]() {
			std::string s(num(), ' ');
			i.read(&s[0], s.size());
			return s;
		};
		auto all = [&](std::map<std::string, std::vector<double> >& m) {
			size_t n = num();
			for (size_t k = 0; k < n && i; k++) {
				std::string s = str();
				std::vector<double> v(num());
				i.read((char*) v.data(), v.size() * sizeof(double));
				m[s] = v;
			}
		};
		refused = str();
		all(numbers);
		all(points);
		size_t n = num();
		for (size_t k = 0; k < n && i; k++) {
			std::string s = str();
			texts[s] = str();
		}
	}
};

typedef std::function<void(Gen&, Report&, const std::string& dir)> CaseFn;
inline std::map<std::string, CaseFn>& cases() {
	static std::map<std::string, CaseFn> m;
	return m;
}
struct Reg {
	Reg(const char* n, CaseFn f) {
		cases()[n] = f;
	}
};

inline int rank() {
	int r;
	MPI_Comm_rank(MPI_COMM_WORLD, &r);
	return r;
}
inline int size() {
	int r;
	MPI_Comm_size(MPI_COMM_WORLD, &r);
	return r;
}

/// runs a case on the processes which are there
inline Report execute(const std::string& name, const std::vector<uint64_t>& choices, const std::string& dir) {
	Report r;
	Gen g(choices);
	g.draw(64); // number of processes
	try {
		cases().at(name)(g, r, dir);
	} catch (pbt::Discard&) {
		r.refused = "discarded";
	} catch (pbt::Fail& f) {
		r.refused = "failed: " + f.msg;
	} catch (std::exception& e) {
		std::string w = e.what();
		r.refused = "exception: " + w.substr(0, std::min<size_t>(w.find("Stacktrace"), 400));
	} catch (...) {
		r.refused = "exception of unknown type";
	}
	return r;
}

/// main loop of the workers: <dir>/req.<k> -> <dir>/res.<k>.<rank>, <dir>/done.<k>
inline int worker(const std::string& dir, pid_t master) {
	for (size_t k = 0;; k++) {
		const std::string tail = std::to_string(k);
		std::vector<uint64_t> msg;
		std::string name, out;
		long go = 0;
		if (rank() == 0) {
			std::string file = dir + "/req." + tail;
			for (;;) {
				if (access(file.c_str(), R_OK) == 0) {
					go = 1;
					break;
				}
				if (kill(master, 0) != 0)
					break;
				usleep(1000);
			}
		}
		MPI_Request rq;
		MPI_Ibcast(&go, 1, MPI_LONG, 0, MPI_COMM_WORLD, &rq);
		for (int f = 0;;) {
			MPI_Test(&rq, &f, MPI_STATUS_IGNORE);
			if (f)
				break;
			usleep(500);
		}
		if (!go)
			return 0;
		std::ifstream in((dir + "/req." + tail).c_str());
		std::getline(in, name);
		std::getline(in, out);
		if (name == "quit")
			return 0;
		uint64_t v;
		while (in >> v)
			msg.push_back(v);
		Report r = execute(name, msg, out);
		const bool bad = r.refused.compare(0, 9, "exception") == 0;
		r.save(dir + "/res." + tail + "." + std::to_string(rank()));
		if (bad) {
			// the others may wait for this process; tell the master at once
			std::ofstream o((dir + "/threw." + tail + "." + std::to_string(rank())).c_str());
		}
		MPI_Request bq;
		MPI_Ibarrier(MPI_COMM_WORLD, &bq);
		for (int f = 0;;) {
			MPI_Test(&bq, &f, MPI_STATUS_IGNORE);
			if (f)
				break;
			usleep(200);
		}
		if (rank() == 0)
			std::ofstream((dir + "/done." + tail).c_str());
	}
}

class Pool {
	struct W {
		pid_t pid = 0;
		size_t next = 0;
		std::string dir;
	};
	std::map<int, W> m_w;
	size_t m_started = 0;
	void start(int n) {
		W w;
		w.dir = std::string(getenv("PBT_SCRATCH")) + "/w" + std::to_string(n) + "." + std::to_string(m_started++);
		mkdir(w.dir.c_str(), 0755);
		std::string np = std::to_string(n), self = getenv("PBT_EXE"), master = std::to_string(getpid());
		w.pid = fork();
		if (w.pid == 0) {
			setpgid(0, 0);
			// the singleton's connection data must not reach mpirun
			std::vector<std::string> drop;
			for (char** e = environ; *e; e++) {
				std::string s = *e;
				if (s.compare(0, 5, "PMIX_") == 0 || s.compare(0, 5, "OMPI_") == 0 || s.compare(0, 5, "PRTE_") == 0 || s.compare(0, 5, "ORTE_") == 0)
					drop.push_back(s.substr(0, s.find('=')));
			}
			for (auto& s : drop)
				unsetenv(s.c_str());
			setenv("OMPI_MCA_orte_tmpdir_base", w.dir.c_str(), 1);
			setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 1);
			setenv("OMPI_MCA_plm_rsh_agent", "", 1);
			setenv("OMPI_MCA_rmaps_base_oversubscribe", "1", 1);
			setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1);
			setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1);
			setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1);
			setenv("PBT_SCRATCH", w.dir.c_str(), 1);
			int fd = open((w.dir + "/log.txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 1);
			dup2(fd, 2);
			int nul = open("/dev/null", O_RDONLY);
			dup2(nul, 0);
			for (int k = 3; k < 256; k++)
				close(k);
			if (getenv("PBT_GDB")) execlp("sh","sh","-c",(std::string("mpirun --oversubscribe --bind-to none -np ")+np+" gdb -batch -ex run -ex bt --args "+self+" --worker "+w.dir+" "+master).c_str(),(char*)0);
			execlp("mpirun", "mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "-np", np.c_str(), self.c_str(), "--worker", w.dir.c_str(),
					master.c_str(), (char*) 0);
			_exit(97);
		}
		m_w[n] = w;
	}
	void stop(int n) {
		W& w = m_w[n];
		if (!w.pid)
			return;
		// mpirun ends its processes when it is asked to
		kill(w.pid, SIGTERM);
		for (int k = 0; k < 3000; k++) {
			if (waitpid(w.pid, 0, WNOHANG) == w.pid) {
				w.pid = 0;
				break;
			}
			usleep(1000);
		}
		if (w.pid) {
			kill(-w.pid, SIGKILL);
			waitpid(w.pid, 0, 0);
			w.pid = 0;
		}
	}
public:
	static Pool& get() {
		static Pool p;
		return p;
	}
	void end() {
		for (auto& x : m_w)
			stop(x.first);
	}
	/// a text if the processes did not come to an end
	std::string run(int n, const std::string& name, const std::vector<uint64_t>& choices, const std::string& out, std::vector<Report>& r, double seconds) {
		if (!m_w[n].pid)
			start(n);
		W& w = m_w[n];
		const std::string tail = std::to_string(w.next++);
		{
			std::ofstream o((w.dir + "/req.tmp").c_str());
			o << name << "\n" << out << "\n";
			for (uint64_t v : choices)
				o << v << " ";
			o << "\n";
		}
		rename((w.dir + "/req.tmp").c_str(), (w.dir + "/req." + tail).c_str());
		double t0 = pbt::now(), threw = 0;
		std::string bad;
		for (;;) {
			if (access((w.dir + "/done." + tail).c_str(), F_OK) == 0)
				break;
			int st;
			if (waitpid(w.pid, &st, WNOHANG) == w.pid) {
				w.pid = 0;
				bad = "the processes stopped (";
				std::ifstream log((w.dir + "/log.txt").c_str());
				std::string l, all;
				while (std::getline(log, l))
					all += l + " ";
				bad += all.size() > 300 ? all.substr(all.size() - 300) : all;
				bad += ")";
				break;
			}
			if (!threw)
				for (int k = 0; k < n; k++)
					if (access((w.dir + "/threw." + tail + "." + std::to_string(k)).c_str(), F_OK) == 0)
						threw = pbt::now();
			if (pbt::now() - t0 > seconds || (threw && pbt::now() - threw > 5)) {
				bad = threw ? "a process threw an exception and the others wait" : "the processes did not finish within " + std::to_string((int) seconds) + " s";
				for (int k = 0; k < n; k++) {
					Report x;
					std::string file = w.dir + "/res." + tail + "." + std::to_string(k);
					if (access(file.c_str(), F_OK) == 0) {
						x.load(file);
						bad += "; process " + std::to_string(k) + ": " + (x.refused.empty() ? "finished" : x.refused);
					} else
						bad += "; process " + std::to_string(k) + " waits";
				}
				break;
			}
			usleep(threw || pbt::now() - t0 > 0.1 ? 2000 : 300);
		}
		if (!bad.empty())
			stop(n);
		else
			for (int k = 0; k < n; k++) {
				r.push_back(Report());
				r.back().load(w.dir + "/res." + tail + "." + std::to_string(k));
			}
		for (int k = 0; k < n; k++) {
			unlink((w.dir + "/res." + tail + "." + std::to_string(k)).c_str());
			unlink((w.dir + "/threw." + tail + "." + std::to_string(k)).c_str());
		}
		unlink((w.dir + "/done." + tail).c_str());
		unlink((w.dir + "/req." + tail).c_str());
		return bad;
	}
};
}

#define CASE(name) \
	static void case_##name(pbt::Gen& g, par::Report& r, const std::string& dir); \
	static par::Reg casereg_##name(#name, case_##name); \
	static void case_##name(pbt::Gen& g, par::Report& r, const std::string& dir)

#define WORKER_MAIN \
	int main(int argc, char** argv) { \
		if (argc > 3 && std::string(argv[1]) == "--worker") { \
			int ac = 1; char** av = argv; \
			natrium::MPIGuard::getInstance(ac, av); \
			par::worker(argv[2], atoi(argv[3])); \
			MPI_Barrier(MPI_COMM_WORLD); \
			MPI_Finalize(); \
			_exit(0); \
		} \
		bool plain = argc > 1 && std::string(argv[1]) == "--list"; \
		if (!plain) { \
			int ac = 1; char** av = argv; \
			natrium::MPIGuard::getInstance(ac, av); \
		} \
		int rc = pbt::main_loop(argc, argv); \
		par::Pool::get().end(); \
		std::cout.flush(); fflush(nullptr); \
		_exit(rc); \
	}
