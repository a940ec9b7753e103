// Every way a result can be looked at: for each capture (and the whole result as the last one) the
// values of all its accessors are written down; spec/Access.tla says what each of them has to be.
#pragma once
#include "forms.hpp"
#include <optional>
#include <sstream>
#include <charconv>

namespace rec {

template <typename C> long unit(C c) {
	if constexpr (sizeof(C) == 1) return static_cast<unsigned char>(c); else return static_cast<long>(static_cast<std::make_unsigned_t<C>>(c));
}
template <> inline long unit<char32_t>(char32_t c) { return static_cast<long>(c); }
template <> inline long unit<char16_t>(char16_t c) { return static_cast<long>(c); }
template <typename S> void text(const S & s) {
	line += '[';
	bool first = true;
	for (auto c: s) { if (!first) line += ','; first = false; num(unit(c)); }
	line += ']';
}
inline void key(const char * name) { line += line.back() == '{' ? "\"" : ",\""; line += name; line += "\":"; }
template <typename S> void optional_text(const char * name, const std::optional<S> & s) {
	key(name);
	line += '[';
	if (s) text(*s);
	line += ']';
}
inline void flag(const char * name, bool v) { key(name); num(v); }

template <typename N, typename C> void number(const C & c, int base) {
	const auto put = [&](bool opt, bool has, N v) {
		line += line.back() == '[' ? "[" : ",[";
		num(static_cast<long>(sizeof(N) * 8)); line += ','; num(std::is_signed_v<N>); line += ','; num(base); line += ','; num(opt); line += ',';
		char buf[80];
		const auto end = std::to_chars(buf, buf + 80, v, base).ptr;
		if (has) text(std::string_view(buf, static_cast<size_t>(end - buf))); else text(std::string_view("?"));
		line += ']';
	};
	if (base == 10) {
		put(false, true, c.template to_number<N>());
		const auto o = c.template to_optional_number<N>();
		put(true, o.has_value(), o.value_or(0));
	} else {
		put(false, true, c.template to_number<N>(base));
		const auto o = c.template to_optional_number<N>(base);
		put(true, o.has_value(), o.value_or(0));
	}
	if constexpr (std::is_same_v<N, int>) if (base == 10) {
		put(false, true, c.to_number());
		const auto o = c.to_optional_number();
		put(true, o.has_value(), o.value_or(0));
	}
}

template <typename C, typename S> void compared(const C & c, const S & s, std::basic_string_view<typename C::char_type> as) {
	line += line.back() == '[' ? "[" : ",[";
	text(as);
	line += ','; num(c == s); line += ','; num(s == c); line += ','; num(c != s); line += ','; num(s != c);
	line += ']';
}

// K: 0 narrow and contiguous, 1 contiguous, 2 only iterators, 3 UTF-8 iterators; WHOLE: the result itself, not one of its captures
template <int K, bool WHOLE, typename C, typename Base> void view(const C & c, Base base, long n) {
	using Ch = typename C::char_type;
	line += '{';
	flag("ok", static_cast<bool>(c));
	// std::distance of libstdc++ does not take value initialized iterators of a list
	if constexpr (K == 2) if (!c) { line += '}'; return; }
	key(K == 3 ? "chars" : "size"); num(static_cast<long>(c.size()));
	if constexpr (!WHOLE) { key("units"); num(static_cast<long>(c.unit_size())); key("id"); num(static_cast<long>(C::get_id())); }
	if (c) { key("span"); line += '['; num(static_cast<long>(std::distance(base, place(c.begin())))); line += ','; num(static_cast<long>(std::distance(base, place(c.end())))); line += ']'; }
	if constexpr (K == 3 && !WHOLE) if (c) { key("at"); line += '['; num(c.data_unsafe() - base); line += ']'; }
	if constexpr (K < 2 || !WHOLE) {
		key("texts"); line += '[';
		text(c.to_string()); line += ','; text(c.str());
		if constexpr (K < 2) {
			line += ','; text(static_cast<std::basic_string<Ch>>(c)); line += ','; text(std::basic_string<Ch>(c));
			line += ','; text(c.to_view()); line += ','; text(c.view());
			const std::basic_string_view<Ch> v = c;
			line += ','; text(v); line += ','; text(static_cast<std::basic_string_view<Ch>>(c));
			if constexpr (std::is_same_v<Ch, char> || std::is_same_v<Ch, wchar_t>) {
				std::basic_ostringstream<Ch> o;
				if constexpr (std::is_same_v<Ch, char>) { o << c; line += ','; text(o.str()); }
			}
		}
		line += ']';
		key("opts"); line += '[';
		line += '['; if (const auto o = c.to_optional_string()) text(*o); line += ']';
		if constexpr (K < 2) {
			line += ",["; if (const auto o = c.to_optional_view()) text(*o); line += ']';
			const std::optional<std::basic_string_view<Ch>> o2 = c;
			line += ",["; if (o2) text(*o2); line += ']';
		}
		line += ']';
		if constexpr (K < 2) {
			key("direct"); line += "[[";
			{ const std::optional<std::basic_string<Ch>> o(c); if (o) text(*o); }
			line += "],["; const std::optional<std::basic_string_view<Ch>> o(c); if (o) text(*o); line += ']';
			line += ']';
		}
	}
	if constexpr (K < 2) {
		if (c) {
			// addresses
			const auto * first = [&] { if constexpr (std::is_pointer_v<Base>) return base; else return n ? &*base : nullptr; }();
			if (n) {
				key("at"); line += '[';
				num(c.data() - first); line += ','; num(c.view().data() - first); line += ','; num(c.to_view().data() - first);
				if constexpr (!WHOLE) { line += ','; num(c.data_unsafe() - first); }
				line += ']';
			}
		}
		key("cmp"); line += '[';
		const std::basic_string<Ch> self = c.to_string();
		compared(c, std::basic_string_view<Ch>(self), self);
		std::basic_string<Ch> more = self; more += static_cast<Ch>('a');
		compared(c, more, more);
		std::basic_string<Ch> less = self.substr(0, self.empty() ? 0 : self.size() - 1);
		compared(c, std::basic_string_view<Ch>(less), less);
		std::basic_string<Ch> other = self; if (!other.empty()) other.back() = static_cast<Ch>(other.back() ^ 1);
		compared(c, other, other);
		compared(c, std::basic_string<Ch>(), std::basic_string_view<Ch>());
		static const Ch one[] = {'a', 0};
		compared(c, one, std::basic_string_view<Ch>(one));
		if (self.find(Ch{}) == self.npos) compared(c, self.c_str(), self);
		line += ']';
	}
	if constexpr (K == 0 && std::is_same_v<Ch, char>) {
		key("num"); line += '[';
		number<int>(c, 10); number<signed char>(c, 10); number<unsigned char>(c, 10); number<short>(c, 16); number<unsigned short>(c, 8); number<int>(c, 16);
		number<unsigned>(c, 10); number<long long>(c, 10); number<unsigned long long>(c, 2); number<long long>(c, 36); number<unsigned long>(c, 16);
		line += ']';
	}
	line += '}';
}

template <ctll::fixed_string... N> struct names { };

template <ctll::fixed_string N, typename R, typename Base> void named(const R & r, Base base) {
	line += line.back() == '[' ? "[[" : ",[[";
	bool first = true;
	for (char32_t c: N) { if (!first) line += ','; first = false; num(static_cast<long>(c)); }
	line += "],";
	span(r.template get<N>(), base);
	line += ']';
}

template <int K, typename R, typename Base, size_t... I, ctll::fixed_string... N> void whole(const R & r, Base base, long n, std::index_sequence<I...>, names<N...>) {
	line += "{\"spans\":";
	line += '[';
	((I == 0 ? void() : void(line += ','), span(r.template get<I>(), base)), ...);
	line += "],\"free\":[";
	((I == 0 ? void() : void(line += ','), span(ctre::get<I>(r), base)), ...);
	line += "],\"bound\":";
	if constexpr (sizeof...(I) <= 4) { if (r) bound(r, base); else line += "[]"; } else line += "[]";
	line += ",\"count\":["; num(static_cast<long>(R::count())); line += ','; num(static_cast<long>(std::tuple_size<R>::value));
	line += "],\"names\":[";
	(named<N>(r, base), ...);
	line += "],\"views\":[";
	((view<K, false>(r.template get<I>(), base, n), line += ','), ...);
	view<K, true>(r, base, n);
	line += "]}";
}

// the subject as one of several types
template <int TYPE, bool MANY, typename RE, typename CharT, ctll::fixed_string... N> void access(const char * op, int mode, RE re, subjects<CharT> s, names<N...> nm) {
	const auto each = [&](auto && range, auto base, long n, auto kind) {
		if constexpr (MANY) {
			line += '[';
			size_t k = 0;
			for (auto && r: range) {
				if (k++) line += ',';
				if (k > static_cast<size_t>(n) + 3) { line += "0"; break; }
				using R = std::remove_cv_t<std::remove_reference_t<decltype(r)>>;
				whole<decltype(kind)::value>(r, base, n, std::make_index_sequence<R::count()>(), nm);
			}
			line += ']';
		} else {
			using R = std::remove_cv_t<std::remove_reference_t<decltype(range)>>;
			line += '[';
			whole<decltype(kind)::value>(range, base, n, std::make_index_sequence<R::count()>(), nm);
			line += ']';
		}
	};
	constexpr int narrow = std::is_same_v<CharT, char> ? 0 : 1;
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		const long n = static_cast<long>(sv.size());
		call(op, mode, i);
		if constexpr (TYPE == 0) each(re(sv), sv.begin(), n, std::integral_constant<int, narrow>{});
		if constexpr (TYPE == 1) { const std::basic_string<CharT> str(sv); if constexpr (std::is_same_v<CharT, char8_t>) each(re(str), str.data(), n, std::integral_constant<int, 1>{}); else each(re(str), str.begin(), n, std::integral_constant<int, narrow>{}); }
		if constexpr (TYPE == 2) { const std::vector<CharT> v(sv.begin(), sv.end()); each(re(v), v.begin(), n, std::integral_constant<int, narrow>{}); }
		if constexpr (TYPE == 3) { const std::list<CharT> v(sv.begin(), sv.end()); each(re(v), v.begin(), n, std::integral_constant<int, 2>{}); }
		if constexpr (TYPE == 4) each(re(ctre::utf8_range(sv)), sv.data(), n, std::integral_constant<int, 3>{});
		ret();
	}
}

// what can be asked in constant expressions
template <size_t N> struct facts { long v[N][12]{}; size_t n = N; };
template <typename R, size_t... I> constexpr auto ask(const R & r, std::string_view base, std::string_view probe, std::index_sequence<I...>) {
	facts<sizeof...(I)> f;
	const auto fill = [&](size_t i, const auto & c) {
		long * v = f.v[i];
		v[0] = bool(c);
		v[1] = static_cast<long>(c.size());
		v[2] = c == probe; v[3] = probe == c; v[4] = c != probe; v[5] = probe != c;
		if (c) {
			v[6] = c.begin() - base.begin(); v[7] = c.end() - base.begin();
			v[8] = c.to_view().data() - base.data(); v[9] = static_cast<long>(c.view().size());
			v[10] = c.data() - base.data();
			v[11] = c.to_optional_view().has_value();
		}
	};
	(fill(I, r.template get<I>()), ...);
	return f;
}
template <typename RE> constexpr auto asked(RE re, std::string_view s, std::string_view probe) {
	const auto r = re(s);
	return ask(r, s, probe, std::make_index_sequence<decltype(r)::count()>());
}
template <size_t N> void tell(const char * op, int mode, int subject, std::string_view probe, const facts<N> & f) {
	call(op, mode, subject);
	line += '[';
	text(probe);
	for (size_t i = 0; i < N; ++i) { line += ",["; for (int k = 0; k < 12; ++k) { if (k) line += ','; num(f.v[i][k]); } line += ']'; }
	line += ']';
	ret("constant");
}

}
