// Applies queries to real cards.
//  {"new": [place..]}                  boards with cards at these places
//  {"place": p, "data": {..}}          one query
// Answers {"cached": [card..], "plain": [card..], "undo": [card..],
// "undo_cached": [..], "hits": [name..], "undo_hits": [..], "plain_hits": [..]}
// with cards in the order of the places given first.
#include "board_dump.hpp"
#include "pbjson.hpp"
#include <cassert>
#include <memory>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/proto/duel/msg.hpp>
// (After it:)
#include "card_fields.hpp"

namespace
{

using namespace verif;
using namespace YGOpen::Client;
using YGOpen::Proto::Duel::Counter;
using YGOpen::Proto::Duel::Msg;

template<typename T>
using U = BasicUndoable<T>;

using D = DefaultCardTraits;
struct UndoTraits
{
	using CodeType = U<D::CodeType>;
	using PositionType = U<D::PositionType>;
	using AliasType = U<D::AliasType>;
	using TypeType = U<D::TypeType>;
	using LevelType = U<D::LevelType>;
	using XyzRankType = U<D::XyzRankType>;
	using AttributeType = U<D::AttributeType>;
	using RaceType = U<D::RaceType>;
	using AtkType = U<D::AtkType>;
	using DefType = U<D::DefType>;
	using BaseAtkType = U<D::BaseAtkType>;
	using BaseDefType = U<D::BaseDefType>;
	using EquippedToType = U<D::EquippedToType>;
#ifdef VERIF_PLAIN_LISTS // Whose lists take all that lists can do.
	using TargetsType = D::TargetsType;
	using CountersType = D::CountersType;
#else
	using TargetsType = U<D::TargetsType>;
	using CountersType = U<D::CountersType>;
#endif
	using OwnerType = U<D::OwnerType>;
	using StatusType = U<D::StatusType>;
	using IsPublicType = U<D::IsPublicType>;
	using PendLScaleType = U<D::PendLScaleType>;
	using PendRScaleType = U<D::PendRScaleType>;
	using IsHiddenType = U<D::IsHiddenType>;
	using CoverType = U<D::CoverType>;
	using LinkRateType = U<D::LinkRateType>;
	using LinkArrowType = U<D::LinkArrowType>;
};

using PlainCard = BasicCard<DefaultCardTraits>;
using UndoCard = BasicCard<UndoTraits>;
using PlainFrame = BasicFrame<PlainCard>;
using UndoFrame = BasicFrame<UndoCard>;

std::unique_ptr<PlainFrame> cached, plain;
std::unique_ptr<UndoFrame> undo, undo_cached;
std::vector<Place> where;

template<typename F>
json cards(F const& f)
{
	json o = json::array();
	for(auto const& p : where)
		o.push_back(fields(f.card(p)));
	return o;
}

json names(QueryCacheHit h)
{
	json o = json::array();
	using Q = QueryCacheHit;
	auto is = [&](Q q, char const* n)
	{
		if((h & q) == q)
		{
			o.push_back(n);
			h = h & ~q;
		}
	};
	is(Q::CODE, "code");
	is(Q::POSITION, "position");
	is(Q::ALIAS, "alias");
	is(Q::TYPE, "type");
	is(Q::LEVEL, "level");
	is(Q::RANK, "xyz_rank");
	is(Q::ATTRIBUTE, "attribute");
	is(Q::RACE, "race");
	is(Q::ATTACK, "atk");
	is(Q::DEFENSE, "def");
	is(Q::BASE_ATTACK, "base_atk");
	is(Q::BASE_DEFENSE, "base_def");
	is(Q::EQUIP_CARD, "equipped_to");
	is(Q::OWNER, "owner");
	is(Q::STATUS, "status");
	is(Q::IS_PUBLIC, "is_public");
	is(Q::LSCALE, "pend_l_scale");
	is(Q::RSCALE, "pend_r_scale");
	is(Q::IS_HIDDEN, "is_hidden");
	is(Q::COVER, "cover");
	is(Q::LINK_RATE, "link_rate");
	is(Q::LINK_ARROW, "link_arrow");
	if(!!h)
		o.push_back("something else");
	return o;
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			json out;
			if(in.contains("new"))
			{
				where.clear();
				cached = std::make_unique<PlainFrame>();
				plain = std::make_unique<PlainFrame>();
				undo = std::make_unique<UndoFrame>();
				undo_cached = std::make_unique<UndoFrame>();
				for(auto const& p : in["new"])
				{
					where.push_back(place(p));
					cached->card_add(where.back());
					plain->card_add(where.back());
					undo->card_add(where.back());
					undo_cached->card_add(where.back());
				}
			}
			else
			{
				Msg::Query q;
				*q.mutable_place() = place(in["place"]);
				q.mutable_data();
				for(auto const& [k, v] : in["data"].items())
				{
					auto const* f =
						q.data().GetDescriptor()->FindFieldByName(k);
					auto* m = q.mutable_data()->GetReflection()->MutableMessage(
						q.mutable_data(), f);
					bool const list = k == "targets" || k == "counters";
					from_json({{list ? "values" : "value", v}}, *m);
				}
				out["hits"] = names(parse_query<true>(*cached, q));
				out["plain_hits"] = names(parse_query(*plain, q));
				names(parse_query(*undo, q));
				out["undo_hits"] = names(parse_query<true>(*undo_cached, q));
			}
			out["cached"] = cards(*cached);
			out["plain"] = cards(*plain);
			out["undo"] = cards(*undo);
			out["undo_cached"] = cards(*undo_cached);
			return out;
		});
}
