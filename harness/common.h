// what every harness needs from NATriuM
#pragma once
#include "pbt.h"
#include "natrium/utilities/BasicNames.h"
#include "natrium/utilities/Logging.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/utilities/NATriuMException.h"
using namespace natrium;
using pbt::Gen;
using pbt::Ctx;

#define HARNESS_MAIN \
	int main(int argc, char** argv) { \
		bool plain = argc > 1 && std::string(argv[1]) == "--list"; \
		if (!plain) { \
			int ac = 1; char** av = argv; \
			natrium::MPIGuard::getInstance(ac, av); \
		} \
		int rc = pbt::main_loop(argc, argv); \
		std::cout.flush(); fflush(nullptr); \
		_exit(rc); \
	}
