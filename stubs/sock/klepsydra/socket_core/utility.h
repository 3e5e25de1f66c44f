// stands in for the stream-based formatting of error texts, which no property speaks about
#ifndef UTILITY_H
#define UTILITY_H
#include <cerrno>
#include <stdexcept>
#include <string>
namespace kpsr { namespace socket_mdlw {
template<typename... Args> std::string buildStringFromParts(Args const &...) { return "text"; }
template<typename... Args> std::string buildErrorMessage(Args const &...) { return "error"; }
}}
#endif
