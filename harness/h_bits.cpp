// Drives the bit helpers and the order of places.
//  {"w":width,"x":"lo:hi","c":"count"} -> {"pop","l","r"} for every unsigned
//      type of that width
//  {"list":[place..]} -> {"sorted":[place..] (as a set), "cmp":[[lt,gt,eq]..]}
//  {"a":place,"b":place} -> {"lt","eq"}
//  {"locs":[location..]} -> {"locs":[[empty,pile,zone]..]}
#include "common.hpp"
#include "pbjson.hpp"
#include <set>
#include <ygopen/bit.hpp>
#include <ygopen/proto/duel/data.hpp>

using namespace verif;
using YGOpen::Proto::Duel::Place;

namespace
{


template<typename T>
void one(json& out, unsigned c, uint64_t x)
{
	out.push_back({{"pop", YGOpen::Bit::popcnt<T>(static_cast<T>(x))},
	               {"l", u64(YGOpen::Bit::choosel<T>(c, static_cast<T>(x)))},
	               {"r", u64(YGOpen::Bit::chooser<T>(c, static_cast<T>(x)))}});
}

Place place(json const& j)
{
	Place p;
	p.set_con(j[0].get<int32_t>());
	p.set_loc(static_cast<uint32_t>(j[1].get<int32_t>()));
	p.set_seq(static_cast<uint32_t>(j[2].get<int32_t>()));
	p.set_oseq(j[3].get<int32_t>());
	return p;
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			json out = json::object();
			using YGOpen::Proto::Duel::PlaceLess;
			if(in.contains("w"))
			{
				auto const x = from_u64(in["x"].get<std::string>());
				auto const c = static_cast<unsigned>(
					std::stoll(in["c"].get<std::string>()));
				int const w = in["w"].get<int>();
				out = json::array();
				if(w <= 8)
				{
					one<unsigned char>(out, c, x);
					one<uint8_t>(out, c, x);
				}
				else if(w == 16)
					one<unsigned short>(out, c, x);
				else if(w == 32)
					one<unsigned int>(out, c, x);
				else
				{
					one<unsigned long>(out, c, x);
					one<unsigned long long>(out, c, x);
				}
			}
			else if(in.contains("list"))
			{
				std::vector<Place> l;
				for(auto const& p : in["list"])
					l.push_back(place(p));
				std::set<Place, PlaceLess> s(l.begin(), l.end());
				out["sorted"] = json::array();
				for(auto const& p : s)
					out["sorted"].push_back(to_json(p));
				out["cmp"] = json::array();
				for(size_t i = 0; i + 1 < l.size(); i++)
					out["cmp"].push_back({PlaceLess{}(l[i], l[i + 1]),
					                      PlaceLess{}(l[i + 1], l[i]),
					                      l[i] == l[i + 1]});
			}
			else if(in.contains("a"))
			{
				auto const a = place(in["a"]);
				auto const b = place(in["b"]);
				out["lt"] = PlaceLess{}(a, b);
				out["eq"] = a == b;
			}
			else
			{
				out["locs"] = json::array();
				for(auto const& l : in["locs"])
				{
					using namespace YGOpen::Duel;
					auto const v = static_cast<Location>(l.get<uint32_t>());
					Place p;
					p.set_loc(l.get<uint32_t>());
					namespace D = YGOpen::Proto::Duel;
					out["locs"].push_back(
						{is_empty(v), is_pile(v), is_zone(v),
					     D::is_empty(p), D::is_pile(p), D::is_zone(p)});
				}
			}
			return out;
		});
}
