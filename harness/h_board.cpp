// Applies events to real boards.
//  {"new": "plain" | "undo"}
//  {"ev": event}      parse_event
//  {"undo": event}    undo_parse_event (undo board only)
//  {"erase": 1}       forget what is undone, all over the board (undo only)
// Answers the whole board: {"b", "v", "turn", "tc", "lp", "phase", "chain",
// "blocked"}.
#include "board_types.hpp"
#include <memory>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>

namespace
{

using namespace verif;
using YGOpen::Proto::Duel::Msg;

int g_uid = 0;

struct Card
{
	int uid;
	explicit Card(int u) noexcept : uid(u) {}
	Card(Card&&) = default;
	Card(Card const&) = delete;
};

struct Builder
{
	static auto build() noexcept -> Card { return Card{++g_uid}; }
};

using Plain = BasicBoard<PlainTraits<Card, Builder>>;
using Undo = BasicBoard<UndoTraits<Card, Builder>>;

std::unique_ptr<Plain> plain;
std::unique_ptr<Undo> undo;

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			if(in.contains("new"))
			{
				plain.reset();
				undo.reset();
				g_uid = 0;
				if(in["new"] == "plain")
					plain = std::make_unique<Plain>();
				else
					undo = std::make_unique<Undo>();
			}
			else if(in.contains("erase"))
			{
				undo->frame().erase_history();
				undo->blocked_zones().erase_history();
				undo->chain_stack().erase_history();
				for(int c : {0, 1})
					undo->lp(static_cast<Controller>(c)).erase_history();
				undo->phase().erase_history();
				undo->turn().erase_history();
				undo->turn_controller().erase_history();
			}
			else
			{
				bool const fwd = in.contains("ev");
				Msg::Event ev;
				from_json(in[fwd ? "ev" : "undo"], ev);
				if(!fwd)
					undo_parse_event(*undo, ev);
				else if(plain)
					parse_event(*plain, ev);
				else
					parse_event(*undo, ev);
			}
			return plain ? observe(*plain) : observe(*undo);
		});
}
