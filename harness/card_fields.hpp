// What a card is known to be: its fields that are not blank.
// (To be included after the library's default_card_traits.hpp, which has no
// include guard.)
#ifndef VERIF_CARD_FIELDS_HPP
#define VERIF_CARD_FIELDS_HPP
#include "pbjson.hpp"

namespace verif
{

template<typename C>
json fields(C const& c)
{
	using D = YGOpen::Client::DefaultCardTraits;
	json o = json::object();
	auto num = [&](char const* name, auto const& v)
	{
		auto const i = static_cast<int32_t>(v);
		if(i != 0)
			o[name] = i;
	};
	num("code", static_cast<D::CodeType const&>(c.code()));
	num("position", static_cast<D::PositionType const&>(c.position()));
	num("alias", static_cast<D::AliasType const&>(c.alias()));
	num("type", static_cast<D::TypeType const&>(c.type()));
	num("level", static_cast<D::LevelType const&>(c.level()));
	num("xyz_rank", static_cast<D::XyzRankType const&>(c.xyz_rank()));
	num("attribute", static_cast<D::AttributeType const&>(c.attribute()));
	num("atk", static_cast<D::AtkType const&>(c.atk()));
	num("def", static_cast<D::DefType const&>(c.def()));
	num("base_atk", static_cast<D::BaseAtkType const&>(c.base_atk()));
	num("base_def", static_cast<D::BaseDefType const&>(c.base_def()));
	num("owner", static_cast<D::OwnerType const&>(c.owner()));
	num("status", static_cast<D::StatusType const&>(c.status()));
	num("is_public", static_cast<D::IsPublicType const&>(c.is_public()));
	num("pend_l_scale", static_cast<D::PendLScaleType const&>(c.pend_l_scale()));
	num("pend_r_scale", static_cast<D::PendRScaleType const&>(c.pend_r_scale()));
	num("is_hidden", static_cast<D::IsHiddenType const&>(c.is_hidden()));
	num("cover", static_cast<D::CoverType const&>(c.cover()));
	num("link_rate", static_cast<D::LinkRateType const&>(c.link_rate()));
	num("link_arrow", static_cast<D::LinkArrowType const&>(c.link_arrow()));
	auto const race = static_cast<uint64_t>(
		static_cast<D::RaceType const&>(c.race()));
	if(race != 0)
		o["race"] = u64(race);
	auto const eq =
		to_json(static_cast<D::EquippedToType const&>(c.equipped_to()));
	if(eq != json::array({0, 0, 0, 0}))
		o["equipped_to"] = eq;
	for(auto const& t : static_cast<D::TargetsType const&>(c.targets()))
		o["targets"].push_back(to_json(t));
	for(auto const& t : static_cast<D::CountersType const&>(c.counters()))
		o["counters"].push_back(to_json(t));
	return o;
}

} // namespace verif

#endif // VERIF_CARD_FIELDS_HPP
