From 5d76a278b219089194fcb1115241147fd2283c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 01/12] fix: remember the removed tail when a rewindable pile
 shrinks

The slice kept for undo started at the number of removed cards instead of
the remaining count, so undoing gave back other cards (or wrote past the
slice when more cards stayed than left).
---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 850e28a0a71e0551c528a5c0a5918d70d723f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 02/12] fix: index materials by overlay sequence when swapping
 from a material

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 35d69d2d86167bb378b9f629aebfb5a610432cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 03/12] fix: do not look at the first place of an empty shuffle

---
 include/ygopen/client/frame.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index caf5cb1..73d0939 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -312,7 +312,7 @@ public:
 	                            size_t count) noexcept -> void
 	{
 		// NOTE: Also assuming that shuffle is done for a single location.
-		assert(!is_pile(*previous));
+		assert(count == 0U || !is_pile(*previous));
 		constexpr size_t UPPER_BOUND =
 			zone_seq_lim(YGOpen::Duel::LOCATION_MONSTER_ZONE);
 		assert(count <= UPPER_BOUND);
-- 
2.43.0


From b08b56393ec489acc1858c160b094fca96dbeee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 04/12] fix: choose bits of types wider than unsigned, and none
 for count 0

Shifting 1U is undefined past 31 bits, and choosel looked at the most
significant bit before checking whether anything was asked for.
---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..fd16a18 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
+		chosen |= x & (T{1U} << (i - 1U));
 		i--;
 	}
 	return chosen;
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & (T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 3a77a5686db468308a2610dad00f4ec8378af88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 05/12] fix: start with no match win reason in
 BasicEncodeContext

---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From c793fb3a6750962e511fd530296a70b3a9187069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 06/12] fix: place reloaded materials on the zone of the card
 holding them

Materials under the field and pendulum zones of MSG_RELOAD_FIELD were added
to sequences 5 to 7 of the spell zones, which do not exist.
---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 1a14a930810f3a0c9843ca697d45be1254741277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 07/12] fix: name field and pendulum zones to the core as it
 knows them

Their locations do not exist in the core (nor fit in the byte written), so
selecting one of these zones, which the encoder offers, was answered with
location 0.
---
 src/codec/edo9300_ocgcore_decode.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..727ca10 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,22 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			auto loc = p.loc();
+			auto seq = p.seq();
+			// NOTE: The core has these as part of the spell zones.
+			if(loc == YGOpen::Duel::LOCATION_FIELD_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 5U; // NOLINT
+			}
+			else if(loc == YGOpen::Duel::LOCATION_PENDULUM_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 6U; // NOLINT
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From cb02d647ecd4d32cff96da68481a7ec2cbe2c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 08/12] fix: answer with all 64 bits of the selected races

The request offers 64 bits of races, the upper half of the answer was lost.
---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 727ca10..eacd91c 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -177,7 +177,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Races are 64 bits wide, just like in the request.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write<uint64_t>(ptr, answer.select_race());
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0


From 07beab7ea4b0458a8cf483b4dcab75ee32e294d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 09/12] fix: find deferred materials where earlier ones moved
 them

---
 src/codec/edo9300_ocgcore_encode.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..3392c41 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1425,14 +1425,22 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			for(auto const& def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
-				// Skip no-ops.
+				auto def_oseq = def.oseq();
 				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
-					continue;
+				   def.seq() == curr.seq() && def_oseq >= 0)
+				{
+					// The core counted without the materials that were already
+					// attached below this one.
+					def_oseq += oseq;
+					// Skip no-ops.
+					if(def_oseq == oseq)
+						continue;
+				}
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
 				*old_place = def;
+				old_place->set_oseq(def_oseq);
 				*new_place = curr;
 				new_place->set_oseq(oseq);
 			}
-- 
2.43.0


From 352b294209eeddc6b2686c6ae8570cc5bfeb304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 10/12] fix: push to and pop from rewindable lists, and undo
 that

They asserted, so no rewindable board could follow a chain.
---
 include/ygopen/client/undoable.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index a7d5cc0..1898d9b 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -68,24 +68,26 @@ public:
 	template<typename... Args>
 	constexpr auto push_back(Args&&... args) noexcept -> void
 	{
-		assert(false); // TODO
+		if(current_ == --values_.cend())
+			values_.emplace_back(*current_).push_back(
+				std::forward<Args>(args)...);
+		current_++;
 	}
 
 	constexpr auto pop_back() noexcept -> void
 	{
-		assert(false); // TODO
+		if(current_ == --values_.cend())
+			values_.emplace_back(*current_).pop_back();
+		current_++;
 	}
 
 	template<typename... Args>
-	constexpr auto undo_push_back(Args&&... args) noexcept -> void
+	constexpr auto undo_push_back(Args&&... /*args*/) noexcept -> void
 	{
-		assert(false); // TODO
+		undo();
 	}
 
-	constexpr auto undo_pop_back() noexcept -> void
-	{
-		assert(false); // TODO
-	}
+	constexpr auto undo_pop_back() noexcept -> void { undo(); }
 
 private:
 	ContainerType values_;
-- 
2.43.0


From ee53a80a47b57d9860884756422789cff2bb1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 11/12] fix: forget undone values of rewindable values

It asserted, so nothing but the frame of a rewindable board could record a
different future.
---
 include/ygopen/client/undoable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index 1898d9b..b3fd456 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -5,6 +5,7 @@
  */
 #ifndef YGOPEN_CLIENT_UNDOABLE_HPP
 #define YGOPEN_CLIENT_UNDOABLE_HPP
+#include <iterator>
 #include <list>
 
 namespace YGOpen::Client
@@ -51,7 +52,7 @@ public:
 
 	constexpr auto erase_history() noexcept -> void
 	{
-		assert(false); // TODO
+		values_.erase(std::next(current_), values_.cend());
 	}
 
 	// FIXME: Too lazy to do something else, should probably be optimized
-- 
2.43.0


From 663a528a766de869d2e6024ddf924048e19bd7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 12/12] fix: undo zone shuffles

It asserted, so no history with a shuffle could be undone.
---
 include/ygopen/client/frame_limbo.hpp | 34 ++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index 17c4cab..d8bd3ee 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -5,6 +5,7 @@
  */
 #ifndef YGOPEN_CLIENT_FRAME_LIMBO_HPP
 #define YGOPEN_CLIENT_FRAME_LIMBO_HPP
+#include <array>
 #include <deque>
 #include <variant>
 #include <ygopen/client/frame.hpp>
@@ -185,7 +186,38 @@ public:
 	constexpr auto undo_card_shuffle(InputIt previous, InputIt current,
 	                                 size_t count) noexcept -> void
 	{
-		assert(false); // TODO
+		// Follow the trades that the shuffle did, then do them backwards.
+		using Zone = typename BaseFrame::Side::Zone;
+		constexpr size_t UPPER_BOUND =
+			zone_seq_lim(YGOpen::Duel::LOCATION_MONSTER_ZONE);
+		assert(count <= UPPER_BOUND);
+		std::array<uint32_t, UPPER_BOUND> seqs{};
+		std::array<Zone*, UPPER_BOUND> from{};
+		std::array<Zone*, UPPER_BOUND> to{};
+		for(size_t i = 0U; i < count; i++)
+			seqs[i] = (*previous++).seq();
+		for(size_t i = 0U; i < count; i++)
+		{
+			auto const& p = *current++;
+			if(is_empty(p))
+				continue;
+			from[i] = &this->zone(get_con(p), get_loc(p), seqs[i]);
+			to[i] = &this->zone(p);
+			auto const seq = p.seq();
+			for(size_t j = 0U; j < count; j++)
+			{
+				if(seqs[j] != seq)
+					continue;
+				seqs[j] = seqs[i];
+				break;
+			}
+			seqs[i] = seq;
+		}
+		for(size_t i = count; i != 0U; i--)
+		{
+			if(from[i - 1U] != nullptr)
+				std::swap(*from[i - 1U], *to[i - 1U]);
+		}
 	}
 
 private:
-- 
2.43.0

