// Real boards, plain and rewindable, and observing them.
#ifndef VERIF_BOARD_TYPES_HPP
#define VERIF_BOARD_TYPES_HPP
#include "board_dump.hpp"
#include "pbjson.hpp"
#include <cassert>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace verif
{

using namespace YGOpen::Client;
using YGOpen::Duel::Phase;
using YGOpen::Proto::Duel::Chain;

template<typename Card, typename Builder>
struct PlainTraits
{
	using BlockedZonesType = std::vector<Place>;
	using ChainStackType = std::vector<Chain>;
	using FrameType = BasicFrame<Card, Builder>;
	using LPType = uint32_t;
	using PhaseType = Phase;
	using TurnControllerType = Controller;
	using TurnType = uint32_t;
};

template<typename Card, typename Builder>
struct UndoTraits
{
	using BlockedZonesType = BasicUndoable<std::vector<Place>>;
	using ChainStackType = BasicUndoable<std::vector<Chain>>;
	using FrameType = LimboFrame<Card, Builder>;
	using LPType = BasicUndoable<uint32_t>;
	using PhaseType = BasicUndoable<Phase>;
	using TurnControllerType = BasicUndoable<Controller>;
	using TurnType = BasicUndoable<uint32_t>;
};

inline std::vector<Chain> const& chains(std::vector<Chain> const& c) { return c; }

template<typename B>
json observe(B& b)
{
	B const& cb = b;
	json chain = json::array();
	for(auto const& c : chains(cb.chain_stack()))
		chain.push_back(to_json(c));
	json blocked = json::array();
	std::vector<Place> const& bz = cb.blocked_zones();
	for(auto const& p : bz)
		blocked.push_back(to_json(p));
	auto lp = [&](int c) -> int32_t
	{
		uint32_t const v = cb.lp(static_cast<Controller>(c));
		return static_cast<int32_t>(v);
	};
	uint32_t const turn = cb.turn();
	Controller const tc = cb.turn_controller();
	Phase const phase = cb.phase();
	return {{"b", dump(cb.frame(), [](auto const& c) { return c.uid; })},
	        {"v", check_views(b.frame())},
	        {"turn", static_cast<int32_t>(turn)},
	        {"tc", static_cast<int>(tc)},
	        {"lp", json::array({lp(0), lp(1)})},
	        {"phase", static_cast<int32_t>(phase)},
	        {"chain", chain},
	        {"blocked", blocked}};
}

} // namespace verif

#endif
