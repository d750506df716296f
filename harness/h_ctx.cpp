// Drives the real BasicEncodeContext.
//  {"new":1} {"ev":event} {"win":r} {"defer":p} {"take":1} {"left":l,"f":f}
//  {"get":l}
// Answers {"mwr", "piles": [sizes], "mats": [0|1 per zone], "r": answer}.
#include "board_dump.hpp"
#include "pbjson.hpp"
#include <cassert>
#include <cstring>
#include <memory>
#include <utility>
#include <map>
#include <ygopen/client/board.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace
{

using namespace verif;
using YGOpen::Proto::Duel::Msg;
using YGOpen::Server::BasicEncodeContext;

// The context is built in memory that is anything but zero.
alignas(BasicEncodeContext) unsigned char mem[sizeof(BasicEncodeContext)];
BasicEncodeContext* ctx = nullptr;

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			json out;
			if(in.contains("new"))
			{
				if(ctx != nullptr)
					ctx->~BasicEncodeContext();
				std::memset(mem, 0xA5, sizeof(mem));
				ctx = new(mem) BasicEncodeContext();
			}
			else if(in.contains("ev"))
			{
				Msg m;
				from_json(in["ev"], *m.mutable_event());
				ctx->parse(m);
			}
			else if(in.contains("win"))
				ctx->match_win_reason(
					static_cast<uint32_t>(in["win"].get<int64_t>()));
			else if(in.contains("defer"))
				ctx->xyz_mat_defer(place(in["defer"]));
			else if(in.contains("take"))
			{
				out["r"] = json::array();
				for(auto const& p : ctx->take_deferred_xyz_mat())
					out["r"].push_back(to_json(p));
			}
			else if(in.contains("left"))
				ctx->xyz_left(place(in["left"]), place(in["f"]));
			else if(in.contains("get"))
				out["r"] = to_json(ctx->get_xyz_left(place(in["get"])));
			out["mwr"] = static_cast<int32_t>(ctx->get_match_win_reason());
			out["piles"] = json::array();
			out["mats"] = json::array();
			for(int con = 0; con < 2; con++)
				for(auto loc : PILES)
					out["piles"].push_back(ctx->pile_size(
						static_cast<YGOpen::Duel::Controller>(con),
						static_cast<YGOpen::Duel::Location>(loc)));
			for(int con = 0; con < 2; con++)
				for(size_t l = 0; l < ZONES.size(); l++)
					for(uint32_t s = 0; s < ZONE_LIM[l]; s++)
						out["mats"].push_back(
							ctx->has_xyz_mat(mk(con, ZONES[l], s, -1)) ? 1 : 0);
			return out;
		});
}
