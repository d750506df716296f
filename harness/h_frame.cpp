// Replays operations of spec/Frame.tla on the real frames.
//  {"new": "basic" | "limbo"}       fresh board
//  {"new": .., "pre": [place..]}    fresh board with cards added in this order
//  {"op": {"k": .., ..}}            one operation
//  {"undo": {"k": .., ..}}          (limbo) undo of that operation
//  {"erase": 1}                     (limbo) forget the undone future
// Answers {"b": dump, "v": view error, "live": living cards, "r": returned
// card was the right one}.
#include "board_dump.hpp"
#include <memory>
#include <ygopen/client/frame_limbo.hpp>

namespace
{

using namespace verif;
using YGOpen::Client::BasicFrame;
using YGOpen::Client::LimboFrame;

int g_uid = 0;
int g_live = 0;

struct Card
{
	int uid;
	explicit Card(int u) noexcept : uid(u) { g_live++; }
	Card(Card&& o) noexcept : uid(o.uid) { g_live++; }
	Card(Card const&) = delete;
	auto operator=(Card&&) -> Card& = delete;
	~Card() noexcept
	{
		uid = -7;
		g_live--;
	}
};

struct Builder
{
	static auto build() noexcept -> Card { return Card{++g_uid}; }
};

using Basic = BasicFrame<Card, Builder>;
using Limbo = LimboFrame<Card, Builder>;

std::unique_ptr<Basic> basic;
std::unique_ptr<Limbo> limbo;

std::vector<Place> places(json const& j)
{
	std::vector<Place> r;
	for(auto const& e : j)
		r.push_back(place(e));
	return r;
}

template<typename F>
bool apply(F& f, json const& op)
{
	auto const k = op.at("k").get<std::string>();
	if(k == "add")
	{
		auto const p = place(op["a"]);
		auto& c = f.card_add(p);
		return &c == &f.card(p);
	}
	if(k == "remove")
		f.card_remove(place(op["a"]));
	else if(k == "move")
	{
		auto const a = place(op["a"]);
		auto const b = place(op["b"]);
		auto& c = f.card_move(a, b);
		return &c == &f.card(b);
	}
	else if(k == "swap")
		f.card_swap(place(op["a"]), place(op["b"]));
	else if(k == "shuffle")
	{
		auto const prev = places(op["prev"]);
		auto const cur = places(op["cur"]);
		f.card_shuffle(prev.cbegin(), cur.cbegin(), prev.size());
	}
	else if(k == "resize")
		f.pile_resize(place(op["a"]), op["n"].get<size_t>());
	else if(k == "splice")
		f.pile_splice(place(op["a"]), op["n"].get<size_t>(), place(op["b"]),
		              op["rev"].get<int>() != 0);
	else if(k == "pswap")
		f.pile_swap(place(op["a"]), place(op["b"]));
	else if(k == "clear")
		f.clear();
	else
		std::exit(71);
	return true;
}

// The inverse operations, as undo_parse_event calls them.
bool undo(Limbo& f, json const& op)
{
	auto const k = op.at("k").get<std::string>();
	if(k == "add")
		static_cast<void>(f.undo_card_add(place(op["a"])));
	else if(k == "remove")
	{
		auto const p = place(op["a"]);
		auto& c = f.undo_card_remove(p);
		return &c == &f.card(p);
	}
	else if(k == "move")
		f.card_move(place(op["b"]), place(op["a"]));
	else if(k == "swap")
		f.card_swap(place(op["a"]), place(op["b"]));
	else if(k == "shuffle")
	{
		auto const prev = places(op["prev"]);
		auto const cur = places(op["cur"]);
		f.undo_card_shuffle(prev.cbegin(), cur.cbegin(), prev.size());
	}
	else if(k == "resize")
		f.undo_pile_resize(place(op["a"]), op["n"].get<size_t>());
	else if(k == "splice")
		f.pile_splice(place(op["b"]), op["n"].get<size_t>(), place(op["a"]),
		              op["rev"].get<int>() != 0);
	else if(k == "pswap")
		f.pile_swap(place(op["a"]), place(op["b"]));
	else if(k == "clear")
		f.undo_clear();
	else
		std::exit(72);
	return true;
}

template<typename F>
json observe(F& f, bool r)
{
	return {{"b", dump(std::as_const(f), [](Card const& c) { return c.uid; })},
	        {"v", check_views(f)},
	        {"live", g_live},
	        {"r", r}};
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			if(in.contains("new"))
			{
				basic.reset();
				limbo.reset();
				g_uid = 0;
				if(g_live != 0)
					return {{"leak", g_live}};
				if(in["new"] == "basic")
					basic = std::make_unique<Basic>();
				else
					limbo = std::make_unique<Limbo>();
				if(in.contains("pre"))
					for(auto const& p : in["pre"])
						basic ? basic->card_add(place(p))
							  : limbo->card_add(place(p));
				return basic ? observe(*basic, true) : observe(*limbo, true);
			}
			bool r = true;
			if(in.contains("op"))
				r = basic ? apply(*basic, in["op"]) : apply(*limbo, in["op"]);
			else if(in.contains("undo"))
				r = undo(*limbo, in["undo"]);
			else if(in.contains("erase"))
				limbo->erase_history();
			else
				std::exit(73);
			return basic ? observe(*basic, r) : observe(*limbo, r);
		});
}
