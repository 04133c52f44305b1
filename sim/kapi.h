// What the scenarios call inside the code under test (implemented in kapi.cpp, the only file that sees its headers).
#pragma once
#include <string>
#include <vector>
#include <map>
namespace kapi {
std::string schedule(const std::string& xml, const std::string& algo, long k);   // "omega X task NAME PERIOD n init... n starts..."
std::string repetition(const std::string& xml);                                   // "ok NAME N ..." or "inconsistent"
std::string roundtrip(const std::string& xml);
}
