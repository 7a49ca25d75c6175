// Stand-in for the (slow) stack-trace capture of SpartaException; no checked property depends on it.
#include "sparta/app/Backtrace.hpp"
namespace sparta { namespace app {
void BacktraceData::render(std::ostream&, bool) const {}
void BacktraceData::addFrame(void*, const char*) {}
Backtrace::Backtrace() {}
Backtrace::~Backtrace() {}
void Backtrace::setAsHandler(int) {}
void Backtrace::dumpBacktrace(std::ostream&) {}
BacktraceData Backtrace::getBacktrace() { return BacktraceData(); }
}}
