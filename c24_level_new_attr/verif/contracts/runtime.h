// native runtime harness shared by the whole-runtime contracts: the real Caliper runtime with the services under contract
#pragma once
#include "vf.h"
#include "actor.h"
#include "caliper/Caliper.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/common/Node.h"
#include "common/RuntimeConfig.h"
#include <map>
#include <set>
#include <thread>
#include <string>
#include <vector>
#include <functional>
#include <cstdlib>
using namespace cali;
#ifndef VF_RT_NO_STUBS
namespace cali { namespace internal { void init_builtin_configmanager(Caliper*) {} } void init_submodules() {} void config_sanity_check(const char*, RuntimeConfig) {} }
#endif
namespace cali { namespace services { void add_default_service_specs(); } }
static inline void rt_setup()
{
    static bool done = false; if (done) return; done = true;
    setenv("CALI_LOG_VERBOSITY", "0", 1); setenv("CALI_LOG_LOGFILE", "log.txt", 1); setenv("CALI_CONTEXTTREE_NUM_BLOCKS", "1000000", 1); setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", "64", 1); setenv("CALI_MEMORY_POOL_SIZE", "4096", 1); setenv("CALI_CHANNEL_FLUSH_ON_EXIT", "false", 1);
    services::add_default_service_specs();
    Caliper::instance();
}
static std::set<cali_id_t> g_mine;   // the attributes whose entries are compared
static inline std::string rt_str(const Entry& e)
{
    std::string s;
    if (e.is_reference()) { for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) if (g_mine.count(n->attribute())) s = std::to_string(n->attribute()) + "=" + n->data().to_string() + "/" + s; }
    else if (g_mine.count(e.attribute())) s = std::to_string(e.attribute()) + ":" + std::to_string(e.value().type()) + ":" + e.value().to_string();
    return s;
}
template <class It> static inline std::string rt_rec(It b, It e) { std::string r; for (; b != e; ++b) { std::string s = rt_str(*b); if (!s.empty()) r += s + ";"; } return r; }
