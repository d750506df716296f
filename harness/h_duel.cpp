// A whole duel: the engine's messages, encoded with the real context, sent
// (as bytes) to clients and to the context.
//  {"new":1}
//  {"msgs":[wire..]}   one action of the engine
//  {"to":d}            the rewindable client goes to d events before the latest
// Answers {"plain": board, "undo": board,
// "know": {"plain": [[con,loc,seq,oseq,fields]..], "undo": ..},
// "sizes": [..], "mats": [..], "at": number of events the rewindable client has seen}.
#include "board_types.hpp"
#include "wire.hpp"
#include <algorithm>
#include <google/protobuf/arena.h>
#include <memory>
#include <ygopen/client/card.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/server/basic_encode_context.hpp>
// (After it:)
#include "card_fields.hpp"

namespace
{

using namespace verif;
using namespace YGOpen::Codec;
using YGOpen::Proto::Duel::Msg;
using YGOpen::Server::BasicEncodeContext;

int g_uid = 0;

struct Card : BasicCard<DefaultCardTraits>
{
	int uid;
	explicit Card(int u) : uid(u) {}
	Card(Card&&) = default;
};

struct Builder
{
	static auto build() noexcept -> Card { return Card{++g_uid}; }
};

using Plain = BasicBoard<PlainTraits<Card, Builder>>;
using Undo = BasicBoard<UndoTraits<Card, Builder>>;

std::unique_ptr<Plain> plain;
std::unique_ptr<Undo> undo;
std::vector<Msg::Event> events;
size_t at = 0;

// The context is built in memory that is anything but zero.
alignas(BasicEncodeContext) unsigned char mem[sizeof(BasicEncodeContext)];
BasicEncodeContext* ctx = nullptr;

template<typename Board>
json know(Board const& b, json const& seen)
{
	json o = json::array();
	for(auto const& p : seen["b"])
		if(auto f = fields(b.frame().card(place(p))); !f.empty())
			o.push_back({p[0], p[1], p[2], p[3], std::move(f)});
	return o;
}

json look()
{
	json out;
	out["plain"] = observe(*plain);
	out["undo"] = observe(*undo);
	out["know"] = {{"plain", know(*plain, out["plain"])},
	               {"undo", know(*undo, out["undo"])}};
	out["sizes"] = json::array();
	out["mats"] = json::array();
	for(int con = 0; con < 2; con++)
		for(auto loc : PILES)
			out["sizes"].push_back(ctx->pile_size(static_cast<Controller>(con),
			                                      static_cast<Location>(loc)));
	for(int con = 0; con < 2; con++)
		for(size_t l = 0; l < ZONES.size(); l++)
			for(uint32_t s = 0; s < ZONE_LIM[l]; s++)
				if(ctx->has_xyz_mat(mk(con, ZONES[l], s, -1)))
					out["mats"].push_back({con, ZONES[l], s});
	out["at"] = at;
	return out;
}

void deliver(Msg const& sent)
{
	std::string const bytes = sent.SerializeAsString();
	Msg m;
	if(!m.ParseFromString(bytes))
		std::abort();
	ctx->parse(m);
	if(m.has_event())
	{
		parse_event(*plain, m.event());
		parse_event(*undo, m.event());
		events.push_back(m.event());
		at++;
	}
	if(m.queries_size() > 0)
		for(auto const& q : m.queries())
		{
			Plain const& p = *plain;
			if(!p.frame().has_card(q.place()))
				continue;
			parse_query<true>(plain->frame(), q);
			parse_query(undo->frame(), q);
		}
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			if(in.contains("new"))
			{
				if(ctx != nullptr)
					ctx->~BasicEncodeContext();
				std::memset(mem, 0xA5, sizeof(mem));
				ctx = new(mem) BasicEncodeContext();
				g_uid = 0;
				plain = std::make_unique<Plain>();
				undo = std::make_unique<Undo>();
				events.clear();
				at = 0;
			}
			else if(in.contains("msgs"))
			{
				if(at != events.size())
					return nullptr;
				for(auto const& wire : in["msgs"])
				{
					std::vector<uint8_t> v;
					pack(v, wire);
					Exact const buf(v);
					google::protobuf::Arena arena;
					auto const r = Edo9300::OCGCore::encode_one(arena, *ctx,
					                                            buf.mem.get());
					if(r.state == EncodeOneResult::State::OK)
						deliver(*r.msg);
				}
			}
			else if(in.contains("to"))
			{
				auto const d = std::min(in["to"].get<size_t>(), events.size());
				auto const to = events.size() - d;
				while(at > to)
					undo_parse_event(*undo, events.at(--at));
				while(at < to)
					parse_event(*undo, events.at(at++));
			}
			return look();
		});
}
