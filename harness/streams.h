// Contracts for the text streams that build error messages: the text is not modelled (trusted).
#pragma once
#include <sstream>
#include <string>
extern "C" void contract_stream_nothing(void*) {}
extern "C" void* contract_stream_out(void* s) { return s; }
extern "C" std::string contract_stream_str(const void*) { return std::string(); }
