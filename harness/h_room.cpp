// Drives a real room.
//  {"new":options, "rolls":[numbers of the generator]}   client 1 is the host
//  {"enter":client}
//  {"sig":signal, "by":client}
//      -> {"in":[[client, [events]]..]}      what each client was sent
#include "common.hpp"
#include "pbjson.hpp"
#include <algorithm>
#include <cassert>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <string_view>
#include <tuple>
#include <variant>
#include <ygopen/server/room.hpp>

namespace
{

using namespace verif;
using YGOpen::Server::RoomEvent;
using YGOpen::Server::RoomSignal;

class Client
{
public:
	explicit Client(int n)
	{
		user.set_id("id" + std::to_string(n));
		user.set_name("u" + std::to_string(n));
	}
	Client(Client const&) = delete;
	auto send(RoomEvent const& e) noexcept -> void
	{
		inbox.push_back(to_json(e));
	}
	auto fill_user(YGOpen::Proto::User& u) const noexcept -> void { u = user; }
	YGOpen::Proto::User user;
	std::vector<json> inbox;
};

// Accepts a deck by a rule over the banlist's and the deck's number; writes
// something into the error either way.
class Validator
{
public:
	auto check(std::string_view banlist, YGOpen::Proto::Deck const& d,
	           YGOpen::Proto::DeckError& e) const noexcept -> bool
	{
		auto const ban = banlist.size() < 2
		                     ? 0
		                     : std::atoi(std::string(banlist.substr(1)).c_str());
		auto const& data = d.data();
		if(data.main_cards_size() != 2 || data.extra_cards_size() != 1 ||
		   data.side_cards_size() != 1 ||
		   data.extra_cards(0) != data.main_cards(0) + 1 ||
		   data.side_cards(0) != data.main_cards(0) + 2)
		{
			e.mutable_invalid_card()->add_cards(999);
			return false;
		}
		auto const n = data.main_cards(0);
		e.mutable_invalid_card()->add_cards(n);
		e.mutable_out_of_limit()->set_expected(ban);
		e.mutable_out_of_limit()->set_got(n);
		return (n + ban) % 3 != 0;
	}
};

class Factory
{
public:
	auto make_duel() const noexcept -> void {}
};

// The given numbers; afterwards, others that always come to an end.
class Generator
{
public:
	using result_type = unsigned;
	explicit Generator(std::vector<unsigned> n) : numbers(std::move(n)) {}
	static constexpr auto min() -> result_type { return 0; }
	static constexpr auto max() -> result_type { return ~result_type{}; }
	auto operator()() -> result_type
	{
		return at < numbers.size() ? numbers[at++] : extra++;
	}

private:
	std::vector<unsigned> numbers;
	size_t at{};
	unsigned extra{};
};

struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = Generator;
};

Validator const validator;
Factory const factory;
std::map<int, std::unique_ptr<Client>> clients;
std::unique_ptr<YGOpen::Server::BasicRoom<Traits>> room;

Client& client(int n)
{
	auto& c = clients[n];
	if(c == nullptr)
		c = std::make_unique<Client>(n);
	return *c;
}

} // namespace

int main()
{
	return serve(
		[](json const& in) -> json
		{
			for(auto& [n, c] : clients)
				c->inbox.clear();
			if(in.contains("new"))
			{
				room.reset();
				clients.clear();
				// (So that the order of addresses is not that of arrival.)
				for(int i : {5, 3, 8, 1, 9, 2, 7, 4, 6})
					client(i);
				YGOpen::Proto::Room::Options o;
				from_json(in["new"], o);
				room = std::make_unique<YGOpen::Server::BasicRoom<Traits>>(
					validator, factory,
					Generator(in["rolls"].get<std::vector<unsigned>>()),
					client(1), o);
			}
			else if(in.contains("enter"))
				room->enter(client(in["enter"].get<int>()));
			else
			{
				RoomSignal s;
				from_json(in["sig"], s);
				room->visit(client(in["by"].get<int>()), s);
			}
			json out;
			out["in"] = json::array();
			for(auto& [n, c] : clients)
				if(!c->inbox.empty())
					out["in"].push_back({n, c->inbox});
			return out;
		});
}
