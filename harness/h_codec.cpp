// Drives the real encoder and decoder of the engine's messages.
//  {"new":1}                        a new context
//  {"wire":[[width,value..]..], "b":{"sizes":[10],"mats":[[con,loc,seq]..]}}
//      -> {"st","read","msg"}      one message, in a buffer of its exact size
//  {"stream":[[wire, b]..]}        all in one buffer, stepped through by what
//      -> {"all":[{"st","read","msg"}..]}          each says it has read
//  {"query":wire}  -> {"data","ov":[codes],"read"}
//  {"req":request,"ans":answer,"out":[bytes]} -> {"out":[bytes]}
#include "board_dump.hpp"
#include "pbjson.hpp"
#include "wire.hpp"
#include <cassert>
#include <cstring>
#include <google/protobuf/arena.h>
#include <map>
#include <memory>
#include <set>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace
{

using namespace verif;
using namespace YGOpen::Codec;
using YGOpen::Proto::Duel::Msg;
using YGOpen::Proto::Duel::Answer;

// What the specification says the board looks like; the rest it remembers.
class Context final : public IEncodeContext
{
public:
	auto pile_size(Con con, Loc loc) const noexcept -> size_t override
	{
		return sizes.at({static_cast<int>(con), static_cast<int>(loc)});
	}
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		return mwr;
	}
	auto has_xyz_mat(Place const& p) const noexcept -> bool override
	{
		return mats.count({static_cast<int>(p.con()), static_cast<int>(p.loc()),
		                   static_cast<int64_t>(p.seq())}) != 0;
	}
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		auto const it = left.find(to_json(p));
		assert(it != left.end());
		return it->second;
	}
	auto match_win_reason(uint32_t r) noexcept -> void override { mwr = r; }
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		deferred.push_back(p);
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		return std::exchange(deferred, {});
	}
	auto xyz_left(Place const& l, Place const& f) noexcept -> void override
	{
		left[to_json(l)] = f;
	}

	void set(json const& b)
	{
		sizes.clear();
		mats.clear();
		int i = 0;
		for(int con = 0; con < 2; con++)
			for(int loc : {1, 2, 16, 32, 64})
				sizes[{con, loc}] = b["sizes"][i++].get<uint32_t>();
		for(auto const& m : b["mats"])
			mats.insert({m[0].get<int>(), m[1].get<int>(), m[2].get<int64_t>()});
	}

private:
	std::map<std::pair<int, int>, size_t> sizes;
	std::set<std::tuple<int, int, int64_t>> mats;
	std::map<json, Place> left;
	std::vector<Place> deferred;
	uint32_t mwr{};
};

Context* ctx = nullptr;

json result(EncodeOneResult const& r)
{
	json o;
	o["st"] = r.state == EncodeOneResult::State::OK        ? "ok"
	          : r.state == EncodeOneResult::State::SWALLOWED ? "swallowed"
	                                                         : "unknown";
	o["read"] = r.bytes_read;
	o["msg"] = r.msg == nullptr ? json() : to_json(*r.msg);
	return o;
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			json out;
			if(in.contains("new"))
			{
				delete ctx;
				ctx = new Context();
			}
			else if(in.contains("wire"))
			{
				std::vector<uint8_t> v;
				pack(v, in["wire"]);
				auto buf = std::make_unique<Exact>(v);
				ctx->set(in["b"]);
				google::protobuf::Arena arena;
				auto const r = Edo9300::OCGCore::encode_one(arena, *ctx,
				                                            buf->mem.get());
				buf.reset(); // The message has to stand on its own.
				out = result(r);
			}
			else if(in.contains("stream"))
			{
				std::vector<uint8_t> v;
				for(auto const& x : in["stream"])
					pack(v, x[0]);
				Exact const buf(v);
				google::protobuf::Arena arena;
				size_t at = 0;
				out["all"] = json::array();
				for(auto const& x : in["stream"])
				{
					if(at >= buf.size)
						break;
					ctx->set(x[1]);
					auto const r = Edo9300::OCGCore::encode_one(
						arena, *ctx, buf.mem.get() + at);
					out["all"].push_back(result(r));
					if(r.state == EncodeOneResult::State::UNKNOWN)
						break;
					at += r.bytes_read;
				}
				out["left"] = static_cast<int64_t>(buf.size) -
				              static_cast<int64_t>(at);
			}
			else if(in.contains("query"))
			{
				std::vector<uint8_t> v;
				pack(v, in["query"]);
				Exact const buf(v);
				Msg::Query::Data q;
				auto const r =
					Edo9300::OCGCore::encode_one_query(buf.mem.get(), q);
				out["data"] = to_json(q);
				out["read"] = r.bytes_read;
				out["ov"] = json::array();
				for(uint32_t i = 0; i < r.overlays_count; i++)
				{
					uint32_t c;
					std::memcpy(&c, r.overlays_ptr + i * 4U, 4U);
					out["ov"].push_back(static_cast<int32_t>(c));
				}
			}
			else if(in.contains("ans"))
			{
				Msg::Request req;
				Answer ans;
				from_json(in["req"], req);
				from_json(in["ans"], ans);
				auto bytes = in["out"].get<std::vector<uint8_t>>();
				Edo9300::OCGCore::decode_one_answer(req, ans, bytes);
				out["out"] = bytes;
			}
			return out;
		});
}
