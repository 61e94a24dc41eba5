#pragma once
#include "common.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/RD3Q27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
#include "natrium/stencils/D3V27.h"
typedef boost::shared_ptr<natrium::Stencil> StencilP;
struct StencilInfo {
	std::string name;
	std::function<StencilP(double)> make;
	size_t D, Q;
	natrium::StencilType type;
};
template<class S> StencilInfo sinfo(const char* n, natrium::StencilType t) {
	return StencilInfo { n, [](double s) {return StencilP(boost::make_shared<S>(s));}, S::D, S::Q, t };
}
inline const std::vector<StencilInfo>& all_stencils() {
	using namespace natrium;
	static std::vector<StencilInfo> v { sinfo<D2Q9>("D2Q9", Stencil_D2Q9), sinfo<D2Q19H>("D2Q19H", Stencil_D2Q19H),
			sinfo<D2Q19V>("D2Q19V", Stencil_D2Q19V), sinfo<D2Q25H>("D2Q25H", Stencil_D2Q25H), sinfo<D3Q13>("D3Q13",
					Stencil_D3Q13), sinfo<D3Q15>("D3Q15", Stencil_D3Q15), sinfo<D3Q19>("D3Q19", Stencil_D3Q19), sinfo<
					D3Q21>("D3Q21", Stencil_D3Q21), sinfo<D3Q27>("D3Q27", Stencil_D3Q27), sinfo<RD3Q27>("RD3Q27",
					Stencil_RD3Q27), sinfo<D3V27>("D3V27", Stencil_D3V27), sinfo<D3Q45>("D3Q45", Stencil_D3Q45), sinfo<
					D3Q77>("D3Q77", Stencil_D3Q77), sinfo<D2Q777>("D2Q777", Stencil_D2Q777) };
	return v;
}
