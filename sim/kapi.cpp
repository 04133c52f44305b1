#include "kapi.h"
#include <algorithms/algorithms.h>
#include <printers/printers.h>
#include <generators/generators.h>
#include <printers/SDF3Wrapper.h>
#include <models/repetition_vector.h>
#include <sstream>
#include <cstdio>
#include <boost/lexical_cast.hpp>
#include <boost/rational.hpp>
namespace kapi {
static std::string ld(long double v) { char b[64]; snprintf(b, sizeof b, "%.21Lg", v); return b; }
std::string schedule(const std::string& xml, const std::string& algo, long k) {
    models::Dataflow* d = printers::parseSDF3XML(xml);
    if (!d) return "noparse";
    if (!computeRepetitionVector(d)) return "inconsistent";
    models::Scheduling s;
    using namespace algorithms::scheduling;
    if (algo == "1P") s = CSDF_1PeriodicScheduling(d);
    else if (algo == "SP") s = CSDF_SPeriodicScheduling(d);
    else if (algo == "KP") s = CSDF_KPeriodicScheduling(d);
    else if (algo == "LP") s = CSDF_KPeriodicScheduling_LP(d, generateKPeriodicVector(d, (int)k));
    else if (algo == "LPN") s = CSDF_KPeriodicScheduling_LP(d, generateNPeriodicVector(d));
    else if (algo == "RLP") s = CSDF_RealPeriodicScheduling_LP(d);
    std::ostringstream o; o << "omega " << ld(s.getGraphPeriod()) << " throughput " << ld(s.getGraphThroughput()) << "\n";
    scheduling_t sc = s.getTaskSchedule();
    for (auto& p : sc) {
        o << "task " << d->getVertexName(d->getVertexById(p.first)) << " " << ld(p.second.periodic_starts.first) << " " << p.second.initial_starts.size();
        for (auto x : p.second.initial_starts) o << " " << ld(x);
        o << " " << p.second.periodic_starts.second.size(); for (auto x : p.second.periodic_starts.second) o << " " << ld(x); o << "\n";
    }
    return o.str();
}
std::string repetition(const std::string& xml) {
    models::Dataflow* d = printers::parseSDF3XML(xml); if (!d) return "noparse";
    if (!computeRepetitionVector(d)) return "inconsistent";
    std::ostringstream o; o << "ok"; for (auto v : d->vertices()) o << " " << d->getVertexName(v) << " " << d->getNi(v); return o.str();
}
std::string roundtrip(const std::string& xml) { models::Dataflow* d = printers::parseSDF3XML(xml); if (!d) return ""; return printers::generateSDF3XML(d); }
}
