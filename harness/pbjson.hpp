// Protobuf messages <-> JSON, by reflection, in the form the specification
// writes them:
//  * a message is an object of its fields (proto names);
//  * YGOpen.Proto.Duel.Place is the array [con, loc, seq, oseq];
//  * 32 bit integers, enums and bools are signed 32 bit integers;
//  * 64 bit integers are "low:high", both signed 32 bit integers;
//  * a scalar in a oneof is wrapped in a one element array (so that being
//    present with the value 0 differs from being absent);
//  * scalars outside a oneof and repeated fields are left out if zero/empty.
#ifndef VERIF_PBJSON_HPP
#define VERIF_PBJSON_HPP
#include "common.hpp"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

namespace verif
{

using google::protobuf::FieldDescriptor;
using google::protobuf::Message;

inline std::string u64(uint64_t v)
{
	return std::to_string(static_cast<int32_t>(static_cast<uint32_t>(v))) +
	       ":" +
	       std::to_string(static_cast<int32_t>(static_cast<uint32_t>(v >> 32)));
}

inline uint64_t from_u64(std::string const& s)
{
	auto const c = s.find(':');
	auto const lo = static_cast<uint32_t>(std::stoll(s.substr(0, c)));
	auto const hi = static_cast<uint32_t>(std::stoll(s.substr(c + 1)));
	return (static_cast<uint64_t>(hi) << 32U) | lo;
}

inline bool is_place(google::protobuf::Descriptor const* d)
{
	return d->full_name() == "YGOpen.Proto.Duel.Place";
}

inline json to_json(Message const& m);

inline json scalar(Message const& m, FieldDescriptor const* f, int i)
{
	auto const* r = m.GetReflection();
	bool const rep = i >= 0;
	switch(f->cpp_type())
	{
	case FieldDescriptor::CPPTYPE_INT32:
		return rep ? r->GetRepeatedInt32(m, f, i) : r->GetInt32(m, f);
	case FieldDescriptor::CPPTYPE_UINT32:
		return static_cast<int32_t>(rep ? r->GetRepeatedUInt32(m, f, i)
		                                : r->GetUInt32(m, f));
	case FieldDescriptor::CPPTYPE_BOOL:
		return static_cast<int32_t>(rep ? r->GetRepeatedBool(m, f, i)
		                                : r->GetBool(m, f));
	case FieldDescriptor::CPPTYPE_ENUM:
		return rep ? r->GetRepeatedEnumValue(m, f, i) : r->GetEnumValue(m, f);
	case FieldDescriptor::CPPTYPE_UINT64:
		return u64(rep ? r->GetRepeatedUInt64(m, f, i) : r->GetUInt64(m, f));
	case FieldDescriptor::CPPTYPE_INT64:
		return u64(static_cast<uint64_t>(rep ? r->GetRepeatedInt64(m, f, i)
		                                     : r->GetInt64(m, f)));
	case FieldDescriptor::CPPTYPE_STRING:
		return rep ? r->GetRepeatedString(m, f, i) : r->GetString(m, f);
	case FieldDescriptor::CPPTYPE_MESSAGE:
		return to_json(rep ? r->GetRepeatedMessage(m, f, i)
		                   : r->GetMessage(m, f));
	default:
		std::abort();
	}
}

inline bool is_default(json const& v)
{
	return (v.is_number() && v == 0) || (v.is_string() && (v == "" || v == "0:0"));
}

inline json to_json(Message const& m)
{
	auto const* d = m.GetDescriptor();
	auto const* r = m.GetReflection();
	if(is_place(d))
	{
		json a = json::array();
		for(int n = 1; n <= 4; n++)
			a.push_back(scalar(m, d->FindFieldByNumber(n), -1));
		return a;
	}
	json o = json::object();
	for(int i = 0; i < d->field_count(); i++)
	{
		auto const* f = d->field(i);
		if(f->is_repeated())
		{
			json a = json::array();
			for(int k = 0; k < r->FieldSize(m, f); k++)
				a.push_back(scalar(m, f, k));
			if(!a.empty())
				o[f->name()] = std::move(a);
		}
		else if(f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE)
		{
			if(r->HasField(m, f))
				o[f->name()] = scalar(m, f, -1);
		}
		else if(f->containing_oneof() != nullptr)
		{
			if(r->HasField(m, f))
				o[f->name()] = json::array({scalar(m, f, -1)});
		}
		else
		{
			auto v = scalar(m, f, -1);
			if(!is_default(v))
				o[f->name()] = std::move(v);
		}
	}
	return o;
}

inline void from_json(json const& j, Message& m);

inline void put(Message& m, FieldDescriptor const* f, json const& v, bool rep)
{
	auto const* r = m.GetReflection();
	switch(f->cpp_type())
	{
	case FieldDescriptor::CPPTYPE_INT32:
		rep ? r->AddInt32(&m, f, v.get<int32_t>())
			: r->SetInt32(&m, f, v.get<int32_t>());
		break;
	case FieldDescriptor::CPPTYPE_UINT32:
	{
		auto const u = static_cast<uint32_t>(v.get<int64_t>());
		rep ? r->AddUInt32(&m, f, u) : r->SetUInt32(&m, f, u);
		break;
	}
	case FieldDescriptor::CPPTYPE_BOOL:
	{
		bool const b = v.is_boolean() ? v.get<bool>() : v.get<int>() != 0;
		rep ? r->AddBool(&m, f, b) : r->SetBool(&m, f, b);
		break;
	}
	case FieldDescriptor::CPPTYPE_ENUM:
		rep ? r->AddEnumValue(&m, f, v.get<int>())
			: r->SetEnumValue(&m, f, v.get<int>());
		break;
	case FieldDescriptor::CPPTYPE_UINT64:
	{
		auto const u = from_u64(v.get<std::string>());
		rep ? r->AddUInt64(&m, f, u) : r->SetUInt64(&m, f, u);
		break;
	}
	case FieldDescriptor::CPPTYPE_STRING:
		rep ? r->AddString(&m, f, v.get<std::string>())
			: r->SetString(&m, f, v.get<std::string>());
		break;
	case FieldDescriptor::CPPTYPE_MESSAGE:
		from_json(v, rep ? *r->AddMessage(&m, f) : *r->MutableMessage(&m, f));
		break;
	default:
		std::abort();
	}
}

inline void from_json(json const& j, Message& m)
{
	auto const* d = m.GetDescriptor();
	if(is_place(d) && j.is_array())
	{
		for(int n = 1; n <= 4; n++)
			put(m, d->FindFieldByNumber(n), j[n - 1], false);
		return;
	}
	if(!j.is_object()) // TLC writes the empty record as an empty array.
		return;
	for(auto const& [name, v] : j.items())
	{
		auto const* f = d->FindFieldByName(name);
		if(f == nullptr)
		{
			std::fprintf(stderr, "no field %s in %s\n", name.c_str(),
			             d->full_name().c_str());
			std::exit(70);
		}
		if(f->is_repeated())
		{
			for(auto const& e : v)
				put(m, f, e, true);
		}
		else if(f->cpp_type() != FieldDescriptor::CPPTYPE_MESSAGE &&
		        f->containing_oneof() != nullptr && v.is_array())
		{
			put(m, f, v[0], false);
		}
		else
		{
			put(m, f, v, false);
		}
	}
}

} // namespace verif

#endif
