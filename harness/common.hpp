// Shared by the harnesses: JSON lines in, JSON lines out.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace verif
{

using json = nlohmann::json;

// Reads lines from stdin, answers each with exactly one line on stdout. Every
// answer is flushed: if the code under test aborts, the input that made it
// abort is the first one without an answer.
inline int serve(std::function<json(json const&)> const& fn)
{
	std::string line;
	while(std::getline(std::cin, line))
	{
		if(line.empty())
			continue;
		auto const in = json::parse(line);
		auto const out = fn(in).dump();
		std::fwrite(out.data(), 1, out.size(), stdout);
		std::fputc('\n', stdout);
		std::fflush(stdout);
	}
	return 0;
}

} // namespace verif

#endif
