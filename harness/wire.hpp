// Engine messages as bytes.
#ifndef VERIF_WIRE_HPP
#define VERIF_WIRE_HPP
#include "common.hpp"
#include <cstring>
#include <memory>
#include <vector>

namespace verif
{

inline void pack(std::vector<uint8_t>& out, json const& wire)
{
	auto put = [&](uint32_t v, int n)
	{
		for(int i = 0; i < n; i++)
			out.push_back(static_cast<uint8_t>(v >> (8 * i)));
	};
	for(auto const& f : wire)
	{
		int const w = f[0].get<int>();
		auto const v = static_cast<uint32_t>(f[1].get<int64_t>());
		if(w == 8)
		{
			put(v, 4);
			put(static_cast<uint32_t>(f[2].get<int64_t>()), 4);
		}
		else
			put(v, w);
	}
}

// Memory of exactly that size: reading beyond it is an error.
struct Exact
{
	std::unique_ptr<uint8_t[]> mem;
	size_t size;
	explicit Exact(std::vector<uint8_t> const& v)
		: mem(new uint8_t[v.size()]), size(v.size())
	{
		std::memcpy(mem.get(), v.data(), v.size());
	}
};

} // namespace verif

#endif
