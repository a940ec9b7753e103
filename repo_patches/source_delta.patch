From 699cc8a1ae7a6d9a1c768ad4c767687b23162305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 01/47] fix: \B must match where \b does not

\B was built as a boundary of non-word characters, which holds wherever
exactly one side is a word character: the same places as \b.
---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 6 ++++++
 include/ctre/starts_with_anchor.hpp     | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..fea9163 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..8f561c0 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -28,6 +28,11 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-- 
2.43.0


From a98cdc253c35af1f6c07fccbf36b9eebc7c9d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 02/47] fix: \e is the escape character U+001B

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From ef6bdc1517e3c5e1da4a4ddd5de35001a84bccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 03/47] fix: keep the order of adjacent possessive repeats when
 they are fused

Combining possessive repeats is not commutative: a++a?+b matches "ab",
a?+a++b does not.
---
 include/ctre/actions/fusion.inc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..1a2f6d1 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -48,21 +48,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From 2f7a8f22a4734a6b8d017269c3c7d722dcdd8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 04/47] fix: a repeat which can be skipped does not anchor a
 search

search<"(?:^a)*b"> did not look further than at the first position.
---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 8f561c0..6b57f01 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -60,19 +60,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 25c6e46f270bbb8ec002f38474f3790c1066a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 05/47] fix: greedy repeats in front of mode switches, rejects
 and negated classes compile

a*(?i)b, x*a++a++, a*[[:^digit:]] and a*[^\D] are accepted by the parser,
but the calculation of the first characters had no overload for them.
---
 include/ctre/first.hpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index fea9163..c99d460 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -34,6 +34,23 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
+// nothing can follow a reject
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
+// mode switch changes meaning of everything what follows
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -376,13 +393,26 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+template <typename Item, typename CB> constexpr int64_t negative_helper_item(Item item, CB & cb, int64_t start) {
+	return negative_helper(item, cb, start);
+}
+
+// negative items inside of a negative set are not subtracted (it's only less precise)
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -509,6 +539,9 @@ public:
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
-- 
2.43.0


From 930357957aa4a2e5f9ea852160d1836239e833d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 06/47] fix: letters in different case can collide in case
 insensitive mode

(?i)a*A turned into a possessive repeat and did not match "aa".
---
 include/ctre/first.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index c99d460..2abe777 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -554,11 +554,22 @@ public:
 	}
 	
 	
+	constexpr void insert_part_in_other_case(int64_t low, int64_t high, int64_t first_letter, int64_t last_letter, int64_t distance) {
+		const int64_t l = low < first_letter ? first_letter : low;
+		const int64_t h = high > last_letter ? last_letter : high;
+		if (l <= h) insert(l + distance, h + distance);
+	}
+	// the mode is not known here, so letters are there in both cases
+	constexpr void insert_both_cases(int64_t low, int64_t high) {
+		insert(low, high);
+		insert_part_in_other_case(low, high, 'a', 'z', 'A' - 'a');
+		insert_part_in_other_case(low, high, 'A', 'Z', 'a' - 'A');
+	}
 	template <auto V> constexpr void populate(ctre::character<V>) {
-		insert(V,V);
+		insert_both_cases(V,V);
 	}
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
-		insert(A,B);
+		insert_both_cases(A,B);
 	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
@@ -579,7 +590,8 @@ public:
 };
 
 template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
-	constexpr size_t capacity = calculate_size_of_first(rhs);
+	// each item can be there in both cases
+	constexpr size_t capacity = 3 * calculate_size_of_first(rhs);
 	
 	point_set<capacity> set;
 	set.populate(rhs);
-- 
2.43.0


From 15be8ee99227c230f613cfa0aa1e283398fa510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 07/47] fix: do not give up backtracking in front of an
 assertion

An assertion can hold at an earlier position without consuming anything:
[a\-]+\b on "a-", or multiline [^b]*$ on "x\nyb".
---
 include/ctre/first.hpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 2abe777..adb2ff5 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -64,20 +64,23 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	// it can hold earlier than at the end of previous repeat
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	// it can hold earlier than at the end of previous repeat
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	// it can hold only if previous repeat is given up
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -86,21 +89,21 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	// in multiline mode it can hold in front of a line end
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	// it can hold earlier than at the end of previous repeat
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	// in multiline mode it can hold in front of a line end
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 // sequence
-- 
2.43.0


From 4a07e76732879b99133afa303e6f94633f4a47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 08/47] fix: all modes in one mode switch are applied

x(?im)a lost its x, (?im)a one of the modes.
---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..3c1bec4 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// next modes in same brackets are put behind those already there
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<Previous...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<Previous..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From 84aa11fd9220328bf35f7433dbc1cc5d458bdb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 09/47] fix: back references are case insensitive in case
 insensitive mode

---
 include/ctre/atoms_characters.hpp | 5 +++++
 include/ctre/evaluation.hpp       | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..cbfaf85 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -31,6 +31,11 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+// same letter, but in the other case
+template <typename T> constexpr CTRE_FORCE_INLINE bool is_same_ascii_letter(T lhs, T rhs) {
+	return is_ascii_alpha(lhs) && static_cast<T>(lhs ^ static_cast<T>(0x20)) == rhs;
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..b471579 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -442,9 +442,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, [[maybe_unused]] const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (*current == *range_current || (is_case_insensitive(f) && is_same_ascii_letter(*current, *range_current))) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From 938789881e795a77309abc7db24a27a1a761fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 10/47] fix: ranges over more than letters of one case are case
 insensitive

(?i)[a-~] did not match "A".
---
 include/ctre/atoms_characters.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index cbfaf85..92bbb18 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -70,19 +70,12 @@ template <typename... Content> struct negate {
 };
 
 template <auto A, auto B> struct char_range {
-	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, [[maybe_unused]] const flags & f) noexcept {
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const CharT other = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if (other >= A && other <= B) {
+				return true;
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
-- 
2.43.0


From 56c039be63682c35b5a58507a5a303cdf13831a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 11/47] fix: end != iterator of a multi subject range was
 inverted

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From a77e053d02ffdae39f098b81061e7d7ee8584e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 12/47] fix: a capture which did not match is different from
 any string

It was neither equal nor unequal, unlike a result which did not match.
---
 include/ctre/return_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From 62a40e0c7cba1b6cb5244a93bbbcb2031236e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 13/47] fix: captures inside of an atomic group

(?>(a)) did not compile, as its capture was not found.
---
 include/ctre/find_captures.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..39857b5 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -99,6 +99,11 @@ CTRE_EXPORT template <size_t A, size_t B, typename... Content, typename... Tail,
 
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookahead_positive<Content...>, Tail...>, Output output) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
-- 
2.43.0


From c6628e2ce25341c6c378178a1210cd502b1e1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 14/47] fix: a back reference inside of its own group sees the
 previous content

Opening a group again moved the begin of its previous content, so
(a|b\1)+ matched "ab".
---
 include/ctre/return_type.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index bf89dc0..44ff98f 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -41,6 +41,7 @@ template <size_t Id, typename Name = void> struct captured_content {
 	template <typename Iterator> class storage {
 		Iterator _begin{};
 		Iterator _end{};
+		Iterator _opened{};
 		
 		bool _matched{false};
 	public:
@@ -63,6 +64,15 @@ template <size_t Id, typename Name = void> struct captured_content {
 			_end = pos;
 			return *this;
 		}
+		// content of a capture changes when it is closed, not when it is opened again
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_opened = pos;
+		}
+		constexpr CTRE_FORCE_INLINE void close(Iterator pos) noexcept {
+			_begin = _opened;
+			_end = pos;
+			_matched = true;
+		}
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
@@ -489,11 +499,11 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close(pos);
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
-- 
2.43.0


From d4ccef2685d5fa6480653e30a627f32d7c47fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 15/47] fix: empty iterations of a repeat

Iterations which are required (a min count, or an atomic group) can be empty:
(a?){2} did not match "a" and (?>a*)b did not match "b". A greedy repeat which
did not iterate consumed nothing: (?:a*(?:ab)?)* never ended.
---
 include/ctre/evaluation.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index b471579..76e3f0c 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -278,7 +278,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// required iteration can be empty
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -324,8 +325,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		const auto backup_current = current;
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
-			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// try as many of inner as possible and then try outer once (required iteration can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? consumed_something(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -360,21 +361,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -396,8 +397,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	else {
 		// A..B
 		size_t i{0};
+		const Iterator backup_current = current;
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// required iteration can be empty
+			auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
@@ -409,10 +412,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
-- 
2.43.0


From a132a2e938829995e1d62d63bf1fe055708ef2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 16/47] fix: search_all, tokenize and split go on after an
 empty match

They found the same empty match again and again.
---
 include/ctre/iterators.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..27402c8 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -49,6 +49,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
+		// after an empty match continue with next position, so it can't be found again
+		if (current_match && current_match.template get<0>().begin() == current_match.template get<0>().end()) {
+			++current;
+		}
+		
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
 		
 		if (current_match) {
@@ -105,9 +110,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	EndIterator end{};
 	value_type current_match{};
 	bool last_match{false};
+	bool empty_delimiter{false};
 
 	constexpr CTRE_FORCE_INLINE void modify_match() {
 		auto tmp = current_match.template get<0>().end();
+		empty_delimiter = (current_match.template get<0>().begin() == tmp);
 		current_match.set_end_mark(current_match.template get<0>().begin());
 		current_match.set_start_mark(current);
 		current = tmp;
@@ -145,7 +152,18 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 	
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		// after an empty delimiter look for the next one behind next position, so it can't be found again
+		auto search_begin = current;
+		if (empty_delimiter) {
+			if (current == end) {
+				current_match = decltype(current_match){};
+				match_rest();
+				return *this;
+			}
+			++search_begin;
+		}
+	
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, search_begin, end);
 	
 		if (current_match) {
 			modify_match();
-- 
2.43.0


From 714b6995f223439b5c59bbed3ac789b7604d9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 17/47] fix: split by an anchored regex returns the whole rest

The end of the rest was set by search, which stops at the begin when the regex
is anchored: split<"^,">("a,bc") returned empty pieces forever.
---
 include/ctre/iterators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 27402c8..e80f737 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -121,10 +121,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
 		current_match.set_start_mark(current);
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		current_match.matched();
-		current = current_match.template get<0>().end();
 		last_match = true;
 	}
 
-- 
2.43.0


From cc6dad807b49dbd2522a241a223492d5471494ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 18/47] fix: incrementing utf8_iterator never skips what
 follows an incomplete sequence

It went past the end of a truncated subject and swallowed correct code
units behind an incomplete sequence.
---
 include/ctre/utf8.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..0656ffa 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -119,9 +119,17 @@ struct utf8_iterator {
 		// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
 		// (*ptr >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
 		// & 0b11u  selects only needed two bits
-		// +1  because each iteration is at least one code unit forward
+		// there is always at least one code unit forward
+		
+		const unsigned length = ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u);
+		
+		++ptr;
+		
+		// incomplete sequence ends in front of the unit which doesn't belong to it (or at the end)
+		for (unsigned i = 0; i < length && ptr != end && (*ptr & 0b1100'0000u) == 0b1000'0000u; ++i) {
+			++ptr;
+		}
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
 		return *this;
 	}
 	
-- 
2.43.0


From d6b0a01fede97e0b7398d07fbe66ec18f58af8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 19/47] fix: decrementing utf8_iterator is inverse of
 incrementing it

On a malformed subject it could go in front of the begin and it did not stop
at positions where incrementing stops.
---
 include/ctre/utf8.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 0656ffa..0ddf79a 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * start{nullptr};
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -134,14 +135,19 @@ struct utf8_iterator {
 	}
 	
 	constexpr utf8_iterator & operator--() noexcept {
-		if (ptr > end) {
-			ptr = end-1;
-		} else {
-			--ptr;
+		--ptr;
+		
+		// look for front unit of the sequence, unit which doesn't belong to any sequence stands alone
+		const char8_t * front = ptr;
+		unsigned distance = 0;
+		
+		while (front != start && distance < 3 && (*front & 0b11000000u) == 0b10'000000) {
+			--front;
+			++distance;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
-			--ptr;
+		if (((0x3A55000000000000ull >> ((*front >> 2) & 0b111110u)) & 0b11u) >= distance) {
+			ptr = front;
 		}
 		
 		return *this;
@@ -244,7 +250,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From b58046807a78e7323a74ba4fcbfd3e8c9a6f5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 20/47] fix: code units of char subjects are never negative

---
 include/ctre/atoms_characters.hpp | 10 ++++++++++
 include/ctre/evaluation.hpp       | 12 ++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index 92bbb18..077f0f5 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -6,6 +6,7 @@
 
 #ifndef CTRE_IN_A_MODULE
 #include <cstdint>
+#include <type_traits>
 #endif
 
 namespace ctre {
@@ -36,6 +37,15 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_same_ascii_letter(T lh
 	return is_ascii_alpha(lhs) && static_cast<T>(lhs ^ static_cast<T>(0x20)) == rhs;
 }
 
+// code units of a pattern are never negative, so the ones of a subject must not be either
+template <typename T> constexpr CTRE_FORCE_INLINE auto code_unit(T v) {
+	if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char>) {
+		return static_cast<unsigned char>(v);
+	} else {
+		return v;
+	}
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 76e3f0c..512d3dd 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -88,7 +88,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator current, co
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename CharacterLike, typename... Tail, typename = std::enable_if_t<(MatchesCharacter<CharacterLike>::template value<decltype(*std::declval<Iterator>())>)>> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<CharacterLike, Tail...>) noexcept {
 	if (current == last) return not_matched;
-	if (!CharacterLike::match_char(*current, f)) return not_matched;
+	if (!CharacterLike::match_char(code_unit(*current), f)) return not_matched;
 	
 	return evaluate(begin, ++current, last, consumed_something(f), captures, ctll::list<Tail...>());
 }
@@ -106,7 +106,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 // matching strings in patterns
 template <auto... String, typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE bool match_string([[maybe_unused]] Iterator & current, [[maybe_unused]] const EndIterator last, [[maybe_unused]] const flags & f) {
-	return ((current != last && character<String>::match_char(*current++, f)) && ... && true);
+	return ((current != last && character<String>::match_char(code_unit(*current++), f)) && ... && true);
 }
 
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, auto... String, typename... Tail> 
@@ -233,10 +233,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	static_assert(is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "To use boundary in regex you need to provide bidirectional iterator or range.");
 	
 	if (last != current) {
-		after = CharacterLike::match_char(*current, f);
+		after = CharacterLike::match_char(code_unit(*current), f);
 	}
 	if (begin != current) {
-		before = CharacterLike::match_char(*std::prev(current), f);
+		before = CharacterLike::match_char(code_unit(*std::prev(current)), f);
 	}
 	
 	if (before == after) return not_matched;
@@ -255,10 +255,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	static_assert(is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "To use boundary in regex you need to provide bidirectional iterator or range.");
 	
 	if (last != current) {
-		after = CharacterLike::match_char(*current, f);
+		after = CharacterLike::match_char(code_unit(*current), f);
 	}
 	if (begin != current) {
-		before = CharacterLike::match_char(*std::prev(current), f);
+		before = CharacterLike::match_char(code_unit(*std::prev(current)), f);
 	}
 	
 	if (before != after) return not_matched;
-- 
2.43.0


From a2880f35297e9a1481fbb869f15e0adc1a6f493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 21/47] fix: assertions inside of a lookbehind

---
 include/ctre/rotate.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f232883..c7f7a34 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -75,11 +75,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// everything is evaluated in the opposite direction, so a look ahead is a look behind there (and vice versa)
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -90,11 +90,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+// begin is end in the opposite direction
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
+static auto rotate(assert_subject_end_line) -> lookbehind_positive<assert_subject_end_line>;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
-- 
2.43.0


From 6ee46e0e0f2360c07fa93bca8cf80cdc3b7a64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 22/47] fix: a back reference by name right at the beginning of
 a named capture

---
 include/ctre/actions/capture.inc.hpp | 4 ++++
 include/ctre/pcre.gram               | 2 +-
 include/ctre/pcre.hpp                | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/capture.inc.hpp b/include/ctre/actions/capture.inc.hpp
index ebf5437..ede52d2 100644
--- a/include/ctre/actions/capture.inc.hpp
+++ b/include/ctre/actions/capture.inc.hpp
@@ -19,6 +19,10 @@ template <auto V, typename A, size_t Id, typename... Ts, size_t Counter> static
 template <auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture<Id, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
+// start_name (a name which follows directly a name of a capture is not part of it)
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::start_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
+}
 // push_name
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
diff --git a/include/ctre/pcre.gram b/include/ctre/pcre.gram
index f86efdf..f1b667b 100644
--- a/include/ctre/pcre.gram
+++ b/include/ctre/pcre.gram
@@ -177,7 +177,7 @@ backslash-><backslash_range>|<backslash_set>
 
 backslash->g,copen,minus,<number>,cclose,[make_relative_back_reference]
 backslash->g,copen,<number>,cclose,[make_back_reference]
-backslash->g,copen,<block_name>,cclose,[make_back_reference]
+backslash->g,copen,alpha_characters,[start_name],<block_name2>,cclose,[make_back_reference]
 backslash->escape_backreference,[create_number],[make_back_reference]
 
 character->other,[push_character] | nonspecial_characters,[push_character] | set_control_chars,[push_character] | dot,[push_character_anything] | backslash,<backslash>|capture_control_chars,[push_character] | \>,[push_character]
diff --git a/include/ctre/pcre.hpp b/include/ctre/pcre.hpp
index 70ee731..0e7246a 100644
--- a/include/ctre/pcre.hpp
+++ b/include/ctre/pcre.hpp
@@ -139,6 +139,7 @@ struct pcre {
 	struct start_lookahead_positive: ctll::action {};
 	struct start_lookbehind_negative: ctll::action {};
 	struct start_lookbehind_positive: ctll::action {};
+	struct start_name: ctll::action {};
 
 // (q)LL1 function:
 	using _others = ctll::neg_set<'!','$','\x28','\x29','*','+',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','?','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','\x7B','|','\x7D'>;
@@ -368,7 +369,7 @@ struct pcre {
 
 	static constexpr auto rule(m, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2, ctll::term<'\x7D'>, make_back_reference>;
 	static constexpr auto rule(m, ctll::term<'-'>) -> ctll::push<ctll::anything, number, ctll::term<'\x7D'>, make_relative_back_reference>;
-	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
+	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
 
 	static constexpr auto rule(mod, ctll::set<'!','$','\x28','\x29',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','|'>) -> ctll::epsilon;
 	static constexpr auto rule(mod, ctll::epsilon) -> ctll::epsilon;
-- 
2.43.0


From 5eda324647dca37d06f3410a5e376c66c8b2dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 23/47] fix: (?:a??)?+ compiles

---
 include/ctre/actions/repeat.inc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 98c2e0b..77955c9 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -86,5 +86,10 @@ template <auto V, typename... Subject, size_t A, size_t B, typename... Ts, typen
 	return pcre_context{ctll::push_front(possessive_repeat<A,B,Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// make_possessive (lazy optional which was made optional again)
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 
 #endif
-- 
2.43.0


From 19cde080d717f36d576d8792decca1aaaf1ebe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 24/47] fix: fusion of adjacent repeats which never match or
 which can be empty

a{3,2}a* never matches, and a required iteration of a possessive repeat
of something which can be empty is there even behind an unbounded one:
(?:a|)++(?:a|)++ matches "aa".
---
 include/ctre/actions/fusion.inc.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index 1a2f6d1..5f64a33 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -6,20 +6,37 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// maximum smaller than minimum
+static constexpr bool never_repeats(size_t Min, size_t Max) {
+	return Max && Min > Max;
+}
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (never_repeats(MinA, MaxA) || never_repeats(MinB, MaxB)) {
+		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
+	} else {
+		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (never_repeats(MinA, MaxA) || never_repeats(MinB, MaxB)) {
+		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
+	} else {
+		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>) {
 	[[maybe_unused]] constexpr bool first_is_unbounded = (MaxA == 0);
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
+	// a required iteration of a content which can be empty is not taken by the first repeat
+	[[maybe_unused]] constexpr bool content_always_consumes = (MatchesCharacter<Content>::template value<char32_t> || ... || false);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (never_repeats(MinA, MaxA) || never_repeats(MinB, MaxB) || (second_is_nonempty && !content_always_consumes)) {
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
-- 
2.43.0


From e8023327fa9bf59ad72020d3f34281ee4337861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 25/47] fix: lazy repeat at its maximum passes an iteration
 which consumed nothing

---
 include/ctre/evaluation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 512d3dd..d1853cd 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -311,7 +311,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
-- 
2.43.0


From e7c61199b468a6828f0f605a117c693bf9747570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 26/47] fix: const and temporary ranges of strings can be
 filtered

---
 include/ctre/range.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index b75227f..c3f1009 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -42,11 +42,12 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	// begin() and end() are called on a const object
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
-		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
+		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::reference>()));
 		using iterator_category = std::forward_iterator_tag;
 		using reference = const value_type &;
 		using pointer = const value_type *;
-- 
2.43.0


From 018f907ba551392d2ded89b4a8fcdd0664532ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 27/47] fix: back references in UTF-8 subjects

Captures of a UTF-8 subject are pointers to its code units, while the
position is utf8_iterator: ctre::match<"(.)\\1">(u8"..") did not compile.
---
 include/ctre/evaluation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index d1853cd..6cd0056 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -445,7 +445,7 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, [[maybe_unused]] const flags & f) noexcept {
+template <typename Iterator, typename EndIterator, typename RangeIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, RangeIterator range_current, const RangeIterator range_end, [[maybe_unused]] const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
 		if (*current == *range_current || (is_case_insensitive(f) && is_same_ascii_letter(*current, *range_current))) {
 			current++;
@@ -457,6 +457,13 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
+// captures of utf8 subject are pointers to code units, content needs to be compared by code points
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<utf8_iterator> match_against_range(utf8_iterator current, const EndIterator last, const char8_t * range_begin, const char8_t * range_end, const flags & f) noexcept {
+	return match_against_range(current, last, utf8_iterator{range_begin, range_end, range_begin}, utf8_iterator{range_end, range_end, range_begin}, f);
+}
+#endif
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
-- 
2.43.0


From 682339759dc3f64531828d82d44ae5398c792024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 28/47] fix: multiline ^ with a forward iterator

std::prev of a forward iterator is undefined, ctre::multiline_search<"^b">
crashed on a std::forward_list.
---
 include/ctre/evaluation.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 6cd0056..cc21b8a 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -43,6 +43,19 @@ template <size_t Limit> constexpr CTRE_FORCE_INLINE bool less_than([[maybe_unuse
 constexpr bool is_bidirectional(const std::bidirectional_iterator_tag &) { return true; }
 constexpr bool is_bidirectional(...) { return false; }
 
+// forward iterator can't step back, its previous position is looked for from the beginning
+template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator previous_position([[maybe_unused]] const BeginIterator begin, Iterator current) noexcept {
+	if constexpr (is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{})) {
+		return std::prev(current);
+	} else {
+		Iterator previous = begin;
+		for (Iterator next = std::next(previous); next != current; ++next) {
+			previous = next;
+		}
+		return previous;
+	}
+}
+
 // sink for making the errors shorter
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator, const EndIterator, flags, R, ...) noexcept {
@@ -190,7 +203,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	if (multiline_mode(f)) {
 		if (begin == current) {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-		} else if (*std::prev(current) == '\n') {
+		} else if (*previous_position(begin, current) == '\n') {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 		} else {
 			return not_matched;
-- 
2.43.0


From 0663482ba413d6880591c4ce625da4167a0ac83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 29/47] fix: relative back reference \g{-0} is a syntax error

It was taken for a reference to the group which is going to be opened next.
---
 include/ctre/actions/backreference.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/backreference.inc.hpp b/include/ctre/actions/backreference.inc.hpp
index 2a7de4d..88d3c87 100644
--- a/include/ctre/actions/backreference.inc.hpp
+++ b/include/ctre/actions/backreference.inc.hpp
@@ -19,7 +19,7 @@ template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr au
 // relative backreference
 template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_relative_back_reference, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<Id>, Ts...>, pcre_parameters<Counter>>) {	
 	// if we are looking outside of existing list of Ids ... reject input during parsing
-	if constexpr (Counter < Id) {
+	if constexpr (Counter < Id || Id == 0) {
 		return ctll::reject{};
 	} else {
 		constexpr size_t absolute_id = (Counter + 1) - Id;
-- 
2.43.0


From 1f8d7bc87f2312d518cda3d68e29a18991f27067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 30/47] fix: content of std::u8string is UTF-8, same as content
 of its view

ctre::match<"."> of std::u8string was looking at its code units, while
with std::u8string_view and const char8_t * it looks at code points.
---
 include/ctre/wrapper.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..14da928 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -199,7 +199,16 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		// content of std::u8string is UTF-8, same as content of its view
+		if constexpr (std::is_convertible_v<const std::remove_reference_t<Range> &, std::u8string_view>) {
+			return exec(static_cast<std::u8string_view>(range));
+		} else {
+#endif
 		return exec(std::begin(range), std::end(range));
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		}
+#endif
 	}
 
 	// another api
-- 
2.43.0


From 030569240122a9dde35db09215e5ae206642bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 31/47] fix: lazy repeat in UTF-8 subject

What follows was evaluated with const char8_t * instead of utf8_iterator
after an iteration, so it was matched by code units.
---
 include/ctre/evaluation.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index cc21b8a..3e6857e 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -311,15 +311,13 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
 		
-			if (outer_result) {
+			if (auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>())) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
-- 
2.43.0


From 3584e50a216eebf118c63a756fe3cfa1bdeabe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 32/47] fix: result of a search which doesn't match is empty

---
 include/ctre/wrapper.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 14da928..2e5964c 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -92,12 +92,7 @@ struct search_method {
 		}
 
 		// in case the RE is empty or fixed
-		auto out = evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
-
-		// ALERT: ugly hack
-		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
-		return out;
+		return evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
 	}
 
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
-- 
2.43.0


From 66c7528bbc8d3cf7bbd57ee8f7a430f6398094de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 33/47] fix: pointer != utf8_iterator was inverted in C++17

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 0ddf79a..0dc2746 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -92,7 +92,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
-- 
2.43.0


From fa1d16eac21e9e3b3ce90db3d1ff55f790394ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 34/47] fix: units of a UTF-8 subject are not truncated by
 std::reverse_iterator in C++17

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 0dc2746..8fd3295 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -18,7 +18,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t;
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
-- 
2.43.0


From 153fdfb6b1db11b020663a0420d24c79918a3fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 35/47] fix: unknown values of Unicode properties are rejected

---
 include/ctre/actions/properties.inc.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ctre/actions/properties.inc.hpp b/include/ctre/actions/properties.inc.hpp
index 05f7e80..2ee192b 100644
--- a/include/ctre/actions/properties.inc.hpp
+++ b/include/ctre/actions/properties.inc.hpp
@@ -35,12 +35,12 @@ template <auto V, auto... Name, typename... Ts, typename Parameters> static cons
 // make_property
 template <auto V, auto... Value, auto... Name, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_property, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<property_value<Value...>, property_name<Name...>, Ts...>, Parameters> subject) {
 	//return ctll::reject{};
-	constexpr auto prop = property_builder<Name...>::template get<Value...>();
+	using prop = decltype(property_builder<Name...>::template get<Value...>());
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<prop, ctll::reject>) {
 		return ctll::reject{};
 	} else {
-		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
+		return pcre_context{ctll::push_front(prop(), ctll::list<Ts...>()), subject.parameters};
 	}
 }
 
@@ -61,12 +61,12 @@ template <auto V, auto... Name, typename... Ts, typename Parameters> static cons
 // make_property_negative
 template <auto V, auto... Value, auto... Name, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_property_negative, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<property_value<Value...>, property_name<Name...>, Ts...>, Parameters> subject) {
 	//return ctll::reject{};
-	constexpr auto prop = property_builder<Name...>::template get<Value...>();
+	using prop = decltype(property_builder<Name...>::template get<Value...>());
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<prop, ctll::reject>) {
 		return ctll::reject{};
 	} else {
-		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
+		return pcre_context{ctll::push_front(negate<prop>(), ctll::list<Ts...>()), subject.parameters};
 	}
 }
 
-- 
2.43.0


From c3845e4b717797d3c4bd80006ae04865f25a9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 36/47] fix: unassigned code points have no age

---
 include/ctre/atoms_unicode.hpp    | 3 ++-
 include/unicode-db/unicode-db.hpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index 7e6ec8b..8718246 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -57,7 +57,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..99ce0ed 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7365,6 +7365,11 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 }
 
 constexpr version cp_age(char32_t cp) {
+    // noncharacters are not in the table
+    if(cp >= 0xFDD0 && cp <= 0xFDEF)
+        return version::v3_1;
+    if((cp & 0xFFFE) == 0xFFFE && cp <= 0x10FFFF)
+        return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
     return static_cast<version>(detail::tables::age_data.value(cp, uint8_t(version::unassigned)));
 }
 
-- 
2.43.0


From 7acc807dedef8e122123182da24c9c601432a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 37/47] fix: look up in tables of Unicode properties which are
 not sorted (as Pd, Dash)

---
 include/unicode-db/unicode-db.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 99ce0ed..02459fb 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -280,19 +280,14 @@ struct bool_trie {
 
 template<std::size_t size>
 struct flat_array {
+    // not sorted
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
-- 
2.43.0


From 9af946da99ec792f68151001bb2f2df1d8b9317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 38/47] fix: category C contains unassigned code points

---
 include/unicode-db/unicode-db.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 02459fb..f1091a1 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -3190,7 +3190,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
-- 
2.43.0


From 677960c2d35ab22777775039692d80b30cc853bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 39/47] fix: Case_Ignorable is not empty

---
 include/unicode-db/unicode-db.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index f1091a1..3bbd4ab 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7422,8 +7422,34 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    switch(cp) {
+        // Word_Break is MidLetter
+        case 0x003A:
+        case 0x00B7:
+        case 0x0387:
+        case 0x055F:
+        case 0x05F4:
+        case 0x2027:
+        case 0xFE13:
+        case 0xFE55:
+        case 0xFF1A:
+        // Word_Break is MidNumLet
+        case 0x002E:
+        case 0x2018:
+        case 0x2019:
+        case 0x2024:
+        case 0xFE52:
+        case 0xFF07:
+        case 0xFF0E:
+        // Word_Break is Single_Quote
+        case 0x0027:
+            return true;
+        default:
+            return detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+                   detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+                   detail::tables::cat_sk.lookup(cp);
+    }
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
-- 
2.43.0


From 169ecd90a83d28775d3dad2def79f0adff787707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 40/47] fix: surrogates and private use code points are
 assigned

---
 include/unicode-db/unicode-db.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 3bbd4ab..3ec9383 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -9546,7 +9546,8 @@ constexpr bool get_binary_prop<binary_prop::ascii>(char32_t c) {
 
 template<>
 constexpr bool get_binary_prop<binary_prop::assigned>(char32_t c) {
-    return cp_is_assigned(c);
+    // surrogates and private use code points are assigned too
+    return cp_is_assigned(c) || cp_category_is<category::cs>(c) || cp_category_is<category::co>(c);
 }
 
 template<>
-- 
2.43.0


From ba7f0ae48ec595c543cbe26606523e85afa15187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 41/47] fix: don't form a pointer behind the end of a UTF-8
 subject

An incomplete sequence at the end was detected by comparing ptr + length with
the end, which is undefined (and not a constant expression) if it's further
than one past the end.
---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 8fd3295..e1c227a 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -202,7 +202,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if ((end - ptr) <= static_cast<int>(length)) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
-- 
2.43.0


From d2260e1d45f8d39edebc052bf448b8ecbde64259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:09 +0000
Subject: [PATCH 42/47] fix: iterators at different results are not equal

---
 include/ctre/iterators.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index e80f737..f0f5ac4 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -67,10 +67,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// different results can have the same end, and past the last one there is none
+		if (!(left.current == right.current) || bool(left.current_match) != bool(right.current_match)) return false;
+		return !left.current_match || left.current_match.template get<0>().begin() == right.current_match.template get<0>().begin();
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
@@ -178,10 +180,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// different results can have the same end, and past the last one there is none
+		if (!(left.current == right.current) || bool(left.current_match) != bool(right.current_match) || left.last_match != right.last_match) return false;
+		return !left.current_match || left.current_match.template get<0>().begin() == right.current_match.template get<0>().begin();
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
-- 
2.43.0


From 9a3e1deebbc1cb55aef58087cdfd69665b5ac2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 43/47] fix: grammars whose rules begin with their terminal
 compile with clang in C++17

---
 include/ctll/parser.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ctll/parser.hpp b/include/ctll/parser.hpp
index d3751f9..759ed9b 100644
--- a/include/ctll/parser.hpp
+++ b/include/ctll/parser.hpp
@@ -132,15 +132,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
-- 
2.43.0


From a4094f02613e8156a75286665f6bb68e46b2d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 44/47] fix: operators which compose expressions are found in
 every scope

---
 include/ctre/operators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ctre/operators.hpp b/include/ctre/operators.hpp
index ee2652c..d55b338 100644
--- a/include/ctre/operators.hpp
+++ b/include/ctre/operators.hpp
@@ -1,6 +1,8 @@
 #ifndef CTRE_V2__CTRE__OPERATORS__HPP
 #define CTRE_V2__CTRE__OPERATORS__HPP
 
+namespace ctre {
+
 template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,B>> {
 	return {};
 }
@@ -9,4 +11,6 @@ template <typename A, typename B> constexpr auto operator>>(ctre::regular_expres
 	return {};
 }
 
+} // namespace ctre
+
 #endif
-- 
2.43.0


From 88a2cc16788f42c73de92a79e9e777a9f481dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 45/47] fix: script_extensions_view::iterator had its prefix
 and postfix ++ exchanged

---
 include/unicode-db/unicode-db.hpp        | 8 ++++----
 include/unicode-db/unicode_interface.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 3ec9383..1654d56 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -21,9 +21,9 @@ struct script_extensions_view {
         constexpr iterator(char32_t c);
         constexpr script operator*() const;
 
-        constexpr iterator& operator++(int);
+        constexpr iterator& operator++();
 
-        constexpr iterator operator++();
+        constexpr iterator operator++(int);
 
         constexpr bool operator==(sentinel) const;
         constexpr bool operator!=(sentinel) const;
@@ -7320,13 +7320,13 @@ constexpr script script_extensions_view::iterator::operator*() const {
     return m_script;
 }
 
-constexpr auto script_extensions_view::iterator::operator++(int) -> iterator& {
+constexpr auto script_extensions_view::iterator::operator++() -> iterator& {
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
     return *this;
 }
 
-constexpr auto script_extensions_view::iterator::operator++() -> iterator {
+constexpr auto script_extensions_view::iterator::operator++(int) -> iterator {
     auto c = *this;
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
diff --git a/include/unicode-db/unicode_interface.hpp b/include/unicode-db/unicode_interface.hpp
index 7ad4cf5..189a26b 100644
--- a/include/unicode-db/unicode_interface.hpp
+++ b/include/unicode-db/unicode_interface.hpp
@@ -22,9 +22,9 @@ namespace uni
             constexpr iterator(char32_t c);
             constexpr script operator*() const;
 
-            constexpr iterator& operator++(int);
+            constexpr iterator& operator++();
 
-            constexpr iterator operator++();
+            constexpr iterator operator++(int);
 
             constexpr bool operator==(sentinel) const;
             constexpr bool operator!=(sentinel) const;
-- 
2.43.0


From 2770e529fedc5b1e747aaa952d804b81687cff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 46/47] fix: values above U+10FFFF had properties, a block, and
 were assigned

---
 include/unicode-db/unicode-db.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 1654d56..82f4ed8 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -252,6 +252,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -7369,6 +7371,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -7389,7 +7393,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
-    return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
+    return (char32_t(cp) <= 0x10ffff && (char32_t(cp) & 0xfffe) == 0xfffe) ||
+           (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
 // http://unicode.org/reports/tr44/#Lowercase
-- 
2.43.0


From c03fabe225db02f40ccd692f22ff514cc77e2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 47/47] fix: cp_script_is was declared and not defined

---
 include/unicode-db/unicode-db.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 82f4ed8..aac8d79 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7310,6 +7310,11 @@ constexpr script cp_script(char32_t cp) {
     return detail::tables::cp_script<0>(cp);
 }
 
+template<script s>
+constexpr bool cp_script_is(char32_t cp) {
+    return cp_script(cp) == s;
+}
+
 constexpr script_extensions_view::script_extensions_view(char32_t c_) : c(c_) {}
 
 constexpr script_extensions_view::iterator::iterator(char32_t c_) :
-- 
2.43.0

