// Message texts are not part of the property: std::vformat yields the format string itself (in the symbolic run only),
// which saves the solver the decimal conversion of symbolic numbers.
#pragma once
#include <format>
#include <string>
__attribute__((used)) std::string opaqueVformat(std::string_view fmt, std::format_args) asm("__ovr__ZSt7vformatB5cxx11St17basic_string_viewIcSt11char_traitsIcEESt17basic_format_argsISt20basic_format_contextINSt8__format10_Sink_iterIcEEcEE");
std::string opaqueVformat(std::string_view fmt, std::format_args) { return std::string(fmt); }
