// The fabric memory of a run: the mock that comes with the repository, in the shared memory of the run.
#pragma once
#include "common.h"
#include "FamMockSession.h"
#include "eckit/io/fam/FamRegion.h"
#include "eckit/io/fam/FamRegionName.h"
namespace scen {
inline eckit::net::Endpoint famEndpoint() { return eckit::net::Endpoint(std::string("localhost:8880")); }
inline void famSize(uint64_t dataBytes) {   // before anything else in the run
    setenv("ECKIT_FAM_MOCK_SHM_SIZE", std::to_string(((sizeof(openfam::mock::State) + 7) & ~7ull) + dataBytes).c_str(), 1);
}
inline eckit::FamRegion famCreate(uint64_t size) { return eckit::FamRegionName(famEndpoint(), "").withRegion("region").create(size, 0640, true); }
inline eckit::FamRegion famOpen() { return eckit::FamRegionName(famEndpoint(), "").withRegion("region").lookup(); }
}
