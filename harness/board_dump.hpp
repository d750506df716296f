// Observing a real frame: its contents in canonical order, and whether all of
// its views tell the same.
#ifndef VERIF_BOARD_DUMP_HPP
#define VERIF_BOARD_DUMP_HPP
#include "common.hpp"
#include <set>
#include <ygopen/client/frame.hpp>
#include <ygopen/proto/duel/data.hpp>

namespace verif
{

using YGOpen::Duel::Controller;
using YGOpen::Duel::Location;
using YGOpen::Proto::Duel::Place;

constexpr std::array<uint32_t, 5> PILES{1U, 2U, 16U, 32U, 64U};
constexpr std::array<uint32_t, 5> ZONES{4U, 8U, 256U, 512U, 1024U};
constexpr std::array<uint32_t, 5> ZONE_LIM{7U, 5U, 1U, 2U, 1U};

inline Place mk(int con, uint32_t loc, uint32_t seq, int oseq)
{
	Place p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}

inline Place place(json const& j)
{
	return mk(j[0].get<int>(), static_cast<uint32_t>(j[1].get<int64_t>()),
	          static_cast<uint32_t>(j[2].get<int64_t>()), j[3].get<int>());
}

// [[con, loc, seq, oseq, uid]...] from the pile and zone containers.
template<typename Frame, typename Id>
json dump(Frame const& f, Id id)
{
	json out = json::array();
	for(int con = 0; con < 2; con++)
	{
		for(auto loc : PILES)
		{
			int seq = 0;
			for(auto const* c :
			    f.pile(static_cast<Controller>(con), static_cast<Location>(loc)))
				out.push_back({con, loc, seq++, -1, c ? id(*c) : -1});
		}
	}
	for(int con = 0; con < 2; con++)
	{
		for(size_t l = 0; l < ZONES.size(); l++)
		{
			for(uint32_t seq = 0; seq < ZONE_LIM[l]; seq++)
			{
				auto const& z = f.zone(static_cast<Controller>(con),
				                       static_cast<Location>(ZONES[l]), seq);
				if(z.card != nullptr)
					out.push_back({con, ZONES[l], seq, -1, id(*z.card)});
				int o = 0;
				for(auto const* c : z.materials)
					out.push_back({con, ZONES[l], seq, o++, c ? id(*c) : -1});
			}
		}
	}
	return out;
}

// Empty if every view agrees and no card is in two places.
template<typename Frame>
std::string check_views(Frame& f)
{
	Frame const& cf = f;
	std::set<void const*> seen;
	auto fail = [](char const* what, Place const& p)
	{
		return std::string(what) + " at [" + std::to_string(p.con()) + "," +
		       std::to_string(p.loc()) + "," + std::to_string(p.seq()) + "," +
		       std::to_string(p.oseq()) + "]";
	};
	auto has = [&](Place const& p, auto const* c) -> std::string
	{
		if(c == nullptr)
			return fail("null card", p);
		if(!seen.insert(c).second)
			return fail("card in two places", p);
		if(!cf.has_card(p))
			return fail("has_card is false for a card", p);
		if(&cf.card(p) != c || &f.card(p) != c)
			return fail("card() finds another card", p);
		return {};
	};
	for(int con = 0; con < 2; con++)
	{
		auto const C = static_cast<Controller>(con);
		for(auto loc : PILES)
		{
			auto const L = static_cast<Location>(loc);
			auto const& p = cf.pile(C, L);
			if(&p != &f.pile(C, L) || &p != &cf.pile(mk(con, loc, 0, -1)) ||
			   &p != &f.pile(mk(con, loc, 0, -1)))
				return fail("pile views differ", mk(con, loc, 0, -1));
			for(size_t i = 0; i < p.size(); i++)
				if(auto e = has(mk(con, loc, i, -1), p[i]); !e.empty())
					return e;
			for(size_t i = p.size(); i < p.size() + 2; i++)
				if(cf.has_card(mk(con, loc, i, -1)))
					return fail("has_card past the end", mk(con, loc, i, -1));
		}
		for(size_t l = 0; l < ZONES.size(); l++)
		{
			auto const L = static_cast<Location>(ZONES[l]);
			if(YGOpen::Client::zone_seq_lim(L) != ZONE_LIM[l])
				return fail("zone limit", mk(con, ZONES[l], 0, -1));
			for(uint32_t s = 0; s < ZONE_LIM[l]; s++)
			{
				auto const pl = mk(con, ZONES[l], s, -1);
				auto const& z = cf.zone(C, L, s);
				if(&z != &f.zone(C, L, s) || &z != &cf.zone(pl) ||
				   &z != &f.zone(pl))
					return fail("zone views differ", pl);
				if(z.card == nullptr && cf.has_card(pl))
					return fail("has_card in an empty zone", pl);
				if(z.card != nullptr)
					if(auto e = has(pl, z.card); !e.empty())
						return e;
				for(size_t o = 0; o < z.materials.size(); o++)
					if(auto e = has(mk(con, ZONES[l], s, o), z.materials[o]);
					   !e.empty())
						return e;
				if(cf.has_card(mk(con, ZONES[l], s, z.materials.size())))
					return fail("has_card past the materials", pl);
			}
		}
	}
	return {};
}

} // namespace verif

#endif
