// Replays behaviours of spec/Undoable.tla and UndoableList.tla on BasicUndoable.
//  {"t": "int" | "vec" | "str" | "lv", "tr": [{"a", "v"}..]}
// Answers {"r": [value read after each step], "eq": [a bit per value 0..3:
// compares equal to it]}.
//  {"t": "list" | "strs", "tr": [{"a", "l"}..]}
// Answers {"r": [list read after each step]}.
#include "common.hpp"
#include <cassert>
#include <ygopen/client/undoable.hpp>

namespace
{

using verif::json;
using YGOpen::Client::BasicUndoable;

std::vector<int> vec(int v) { return std::vector<int>(v, v + 10); }
std::string str(int v) { return v == 0 ? "" : std::string(40, char('a' + v)); }

template<typename U, typename Mk, typename Set, typename Rd>
json play(json const& tr, Mk mk, Set set, Rd rd)
{
	U u;
	json r = json::array();
	json eq = json::array();
	for(auto const& s : tr)
	{
		if(s["a"] == "undo")
			u.undo();
		else if(s["a"] == "erase")
			u.erase_history();
		else
			set(u, s["v"].get<int>());
		r.push_back(rd(static_cast<typename U::ValueType const&>(u)));
		int bits = 0;
		for(int v = 0; v < 4; v++)
			bits |= (u == mk(v)) ? 1 << v : 0;
		eq.push_back(bits);
	}
	return {{"r", r}, {"eq", eq}};
}

template<typename T, typename Mk, typename Rd>
json play_list(json const& tr, Mk mk, Rd rd)
{
	BasicUndoable<std::vector<T>> u;
	json r = json::array();
	for(auto const& s : tr)
	{
		std::vector<T> l;
		for(auto const& e : s["l"])
			l.push_back(mk(e.get<int>()));
		auto const& a = s["a"];
		if(a == "set")
			u.assign(l.cbegin(), l.cend());
		else if(a == "push")
			u.push_back(l.at(0));
		else if(a == "pop")
			u.pop_back();
		else if(a == "undo")
			u.undo();
		else if(a == "undo_push")
			u.undo_push_back(mk(0));
		else if(a == "undo_pop")
			u.undo_pop_back();
		else if(a == "erase")
			u.erase_history();
		else
			std::exit(71);
		std::vector<T> const& now = u;
		json o = json::array();
		for(auto const& e : now)
			o.push_back(rd(e));
		r.push_back(o);
		if(!(u == now))
			r.push_back("does not compare equal to itself");
	}
	return {{"r", r}};
}

} // namespace

int main()
{
	return verif::serve(
		[](json const& in) -> json
		{
			auto const& t = in["t"];
			auto const& tr = in["tr"];
			auto back = [](auto const& mk)
			{
				return [mk](auto const& x)
				{
					for(int v = 0; v < 4; v++)
						if(x == mk(v))
							return v;
					return -1;
				};
			};
			auto id = [](int v) { return v; };
			auto assign = [](auto& u, int v)
			{
				auto const x = vec(v);
				u.assign(x.begin(), x.end());
			};
			if(t == "list")
				return play_list<int>(tr, id, id);
			if(t == "strs")
				return play_list<std::string>(tr, str, back(str));
			if(t == "int")
				return play<BasicUndoable<int>>(
					tr, id, [](auto& u, int v) { u = v; }, back(id));
			if(t == "lv")
				return play<BasicUndoable<int>>(
					tr, id,
					[](auto& u, int v)
					{
						auto const c = static_cast<int const>(v);
						u = c;
					},
					back(id));
			if(t == "vec")
				return play<BasicUndoable<std::vector<int>>>(tr, vec, assign,
				                                             back(vec));
			return play<BasicUndoable<std::string>>(
				tr, str, [](auto& u, int v) { u = str(v); }, back(str));
		});
}
