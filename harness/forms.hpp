// The same call, spelled in every way the library offers. Every spelling is recorded as a call of its
// own; the specification gives one result for all of them.
#pragma once
#include "h.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>

namespace rec {

inline void ret(const char * form) { line += ",\""; line += form; line += "\"],"; }

// an end which is not the iterator's type (its iterator operations are only there for lookbehinds, which
// name a reverse iterator of it)
template <typename It> struct until {
	It last;
	using iterator_category = std::bidirectional_iterator_tag;
	using value_type = typename std::iterator_traits<It>::value_type;
	using reference = typename std::iterator_traits<It>::reference;
	using pointer = typename std::iterator_traits<It>::pointer;
	using difference_type = std::ptrdiff_t;
	auto operator++() noexcept -> until &;
	auto operator++(int) noexcept -> until;
	auto operator--() noexcept -> until &;
	auto operator--(int) noexcept -> until;
	friend auto operator==(until, until) noexcept -> bool;
	auto operator*() const noexcept -> reference;
	friend constexpr bool operator==(const It & i, const until & u) { return i == u.last; }
	friend constexpr bool operator==(const until & u, const It & i) { return i == u.last; }
	friend constexpr bool operator!=(const It & i, const until & u) { return !(i == u.last); }
	friend constexpr bool operator!=(const until & u, const It & i) { return !(i == u.last); }
};

// a range type of the user
template <typename CharT> struct own_range {
	const CharT * b;
	const CharT * e;
	constexpr const CharT * begin() const noexcept { return b; }
	constexpr const CharT * end() const noexcept { return e; }
};

template <typename To, typename From> std::basic_string<To> widen(std::basic_string_view<From> s) {
	std::basic_string<To> r;
	for (From c: s) r += static_cast<To>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<From, char>, char, int>>>(c));
	return r;
}

inline std::basic_string<char8_t> utf8(std::string_view s) {
	std::basic_string<char8_t> r;
	for (char c: s) r += static_cast<char8_t>(c);
	return r;
}

inline bool ascii(std::string_view s) {
	for (char c: s) if (c < 0) return false;
	return true;
}
inline bool no_zero(std::string_view s) { return s.find('\0') == s.npos; }

// captures by structured bindings
template <typename R, typename It> void bound(const R & r, It base) {
	if (!r) { line += "[]"; return; }
	line += '[';
	if constexpr (R::count() == 1) {
		auto [a] = r; span(a, base);
	} else if constexpr (R::count() == 2) {
		auto [a, b] = r; span(a, base); line += ','; span(b, base);
	} else if constexpr (R::count() == 3) {
		auto [a, b, c] = r; span(a, base); line += ','; span(b, base); line += ','; span(c, base);
	} else if constexpr (R::count() == 4) {
		auto [a, b, c, d] = r; span(a, base); line += ','; span(b, base); line += ','; span(c, base); line += ','; span(d, base);
	}
	line += ']';
}
template <typename R, typename It, size_t... I> void freely_impl(const R & r, It base, std::index_sequence<I...>) {
	if (!r) { line += "[]"; return; }
	line += '[';
	((I == 0 ? void() : void(line += ','), span(ctre::get<I>(r), base)), ...);
	line += ']';
}
template <typename R, typename It> void freely(const R & r, It base) { freely_impl(r, base, std::make_index_sequence<R::count()>()); }

template <typename Range, typename It> void all(const Range & range, It base, size_t limit) {
	line += '[';
	size_t k = 0;
	for (auto && r: range) {
		if (k++) line += ',';
		if (k > limit) { line += "[]"; break; }
		result(r, base);
	}
	line += ']';
}

struct Single {
	template <typename R, typename It> static void show(const R & r, It base, size_t) { result(r, base); }
	static constexpr bool many = false;
};
struct Many {
	template <typename R, typename It> static void show(const R & r, It base, size_t n) { all(r, base, n + 2); }
	static constexpr bool many = true;
};

// MASK selects spellings
template <typename K, unsigned MASK, typename RE> void forms(const char * op, int mode, RE re, subjects<char> s) {
	for (int i = 0; i < s.n; ++i) {
		const std::string_view sv = s.list[s.idx[i]];
		const std::string str(sv);
		const size_t n = sv.size();
		const auto done = [&](const auto & r, auto base, const char * form) { call(op, mode, i); K::show(r, base, n); ret(form); };
		if constexpr (MASK & (1u << 0)) done(re(str), str.begin(), "string");
		if constexpr (MASK & (1u << 1)) if (no_zero(sv)) { const char * z = str.c_str(); done(re(z), z, "C string"); }
		if constexpr (MASK & (1u << 2)) done(re(str.data(), str.data() + n), str.data(), "pointers");
		if constexpr (MASK & (1u << 3)) { const std::list<char> l(sv.begin(), sv.end()); done(re(l.begin(), l.end()), l.begin(), "list iterators"); done(re(l), l.begin(), "list"); }
		if constexpr (MASK & (1u << 4)) { const std::forward_list<char> l(sv.begin(), sv.end()); done(re(l), l.begin(), "forward list"); }
		if constexpr (MASK & (1u << 5)) { std::deque<char> d(sv.begin(), sv.end()); done(re(d.begin(), d.end()), d.begin(), "deque"); }
		if constexpr (MASK & (1u << 6)) { const std::vector<char> v(sv.begin(), sv.end()); done(re(v), v.begin(), "vector"); }
		if constexpr (MASK & (1u << 7)) { const std::list<char> l(sv.begin(), sv.end()); done(re(l.begin(), until<std::list<char>::const_iterator>{l.end()}), l.begin(), "list, sentinel"); }
		if constexpr (MASK & (1u << 8)) { done(re(str.data(), until<const char *>{str.data() + n}), str.data(), "pointer, sentinel"); }
		if constexpr (MASK & (1u << 9)) if (ascii(sv)) { const auto w = widen<wchar_t>(sv); const std::wstring_view v = w; done(re(v), v.begin(), "wide view"); if (no_zero(sv)) { const wchar_t * z = w.c_str(); done(re(z), z, "wide C string"); } }
		if constexpr (MASK & (1u << 10)) if (ascii(sv)) { const auto w = widen<char16_t>(sv); const std::u16string_view v = w; done(re(v), v.begin(), "UTF-16 view"); }
		if constexpr (MASK & (1u << 11)) if (ascii(sv)) { const auto w = widen<char32_t>(sv); const std::u32string_view v = w; done(re(v), v.begin(), "UTF-32 view"); done(re(w), w.begin(), "UTF-32 string"); }
		if constexpr (MASK & (1u << 12)) if (ascii(sv)) { const auto w = utf8(sv); const std::u8string_view v = w; done(re(v), w.data(), "UTF-8 view"); }
		if constexpr (MASK & (1u << 13)) { const own_range<char> o{str.data(), str.data() + n}; done(re(o), o.b, "range of the user"); }
		if constexpr (MASK & (1u << 14)) { done(RE::exec(sv), sv.begin(), "exec"); done(re.try_extract(sv), sv.begin(), "try_extract"); }
		if constexpr (MASK & (1u << 15)) { done(RE::exec(sv.begin(), sv.end()), sv.begin(), "exec iterators"); std::string mut = str; done(re(mut.begin(), mut.end()), mut.begin(), "mutable iterators"); done(re(mut), mut.begin(), "mutable string"); }
		if constexpr ((MASK & (1u << 16)) != 0 && !K::many) {
			call(op, mode, i); const auto r = re(sv); bound(r, sv.begin()); ret("structured bindings");
			call(op, mode, i); freely(r, sv.begin()); ret("get");
		}
		if constexpr ((MASK & (1u << 16)) != 0 && K::many) { done(sv | re, sv.begin(), "pipe"); done(str | re, str.begin(), "pipe string"); }
	}
}

// subjects of wider units
template <typename K, typename RE, typename CharT> void wforms(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const std::basic_string_view<CharT> sv = s.list[s.idx[i]];
		const std::basic_string<CharT> str(sv);
		const size_t n = sv.size();
		const auto done = [&](const auto & r, auto base, const char * form) { call(op, mode, i); K::show(r, base, n); ret(form); };
		done(re(str), str.begin(), "string");
		if (sv.find(CharT(0)) == sv.npos) { const CharT * z = str.c_str(); done(re(z), z, "C string"); }
		done(re(str.data(), str.data() + n), str.data(), "pointers");
		done(re(str.data(), until<const CharT *>{str.data() + n}), str.data(), "pointer, sentinel");
		const std::vector<CharT> v(sv.begin(), sv.end());
		done(re(v), v.begin(), "vector");
		const std::deque<CharT> d(sv.begin(), sv.end());
		done(re(d.begin(), d.end()), d.begin(), "deque");
		const std::list<CharT> l(sv.begin(), sv.end());
		done(re(l), l.begin(), "list");
		done(RE::exec(sv), sv.begin(), "exec");
		done(re.try_extract(sv), sv.begin(), "try_extract");
	}
}

// the object is given by another expression
template <typename K, typename F> void spelled(const char * op, int mode, const char * form, F f, subjects<char> s) {
	for (int i = 0; i < s.n; ++i) {
		const std::string_view sv = s.list[s.idx[i]];
		call(op, mode, i);
		K::show(f(sv), sv.begin(), sv.size());
		ret(form);
	}
}

// by iterators and the sentinel
template <typename F, typename E> void walked(const char * op, int mode, const char * form, F f, E end, subjects<char> s) {
	for (int i = 0; i < s.n; ++i) {
		const std::string_view sv = s.list[s.idx[i]];
		call(op, mode, i);
		line += '[';
		size_t k = 0;
		for (auto it = f(sv); it != end; ++it) {
			if (k++) line += ',';
			if (k > sv.size() + 3) { line += "[]"; break; }
			result(*it, sv.begin());
		}
		line += ']';
		ret(form);
	}
}

// UTF-8 subjects
template <typename K, typename RE> void u8forms(const char * op, int mode, RE re, subjects<char8_t> s) {
	for (int i = 0; i < s.n; ++i) {
		const std::u8string_view sv = s.list[s.idx[i]];
		const size_t n = sv.size();
		std::u8string str(sv);
		const auto done = [&](const auto & r, const char8_t * base, const char * form) { call(op, mode, i); K::show(r, base, n); ret(form); };
		done(re(str), str.data(), "u8string");
		done(re(static_cast<const std::u8string &>(str)), str.data(), "const u8string");
		if (str.find(u8'\0') == str.npos) { const char8_t * z = str.c_str(); done(re(z), z, "UTF-8 C string"); }
		done(RE::exec(sv), sv.data(), "exec");
		done(re.try_extract(sv), sv.data(), "try_extract");
		const ctre::utf8_range points(sv);
		done(re(points), sv.data(), "utf8_range");
		done(re(points.begin(), points.end()), sv.data(), "utf8_iterator, sentinel");
		done(re(points.begin(), ctre::utf8_iterator{sv.data() + n, sv.data() + n, sv.data()}), sv.data(), "two utf8_iterators");
	}
}

// evaluated by the compiler: the result, as an array of positions
template <size_t N> struct fixed_result {
	bool ok = false;
	long b[N] = {}, e[N] = {};
	bool m[N] = {};
};
template <typename R, typename V, size_t... I> constexpr auto fix_impl(const R & r, V sv, std::index_sequence<I...>) {
	fixed_result<R::count()> f;
	f.ok = static_cast<bool>(r);
	if (f.ok) ((f.m[I] = static_cast<bool>(r.template get<I>()), f.b[I] = f.m[I] ? r.template get<I>().begin() - sv.begin() : 0, f.e[I] = f.m[I] ? r.template get<I>().end() - sv.begin() : 0), ...);
	return f;
}
template <typename R, typename V> constexpr auto fix(const R & r, V sv) { return fix_impl(r, sv, std::make_index_sequence<R::count()>()); }
template <typename F> void constant(const char * op, int mode, int i, const F & f) {
	call(op, mode, i);
	if (!f.ok) line += "[]"; else {
		line += '[';
		for (size_t k = 0; k < sizeof(f.b) / sizeof(f.b[0]); ++k) {
			if (k) line += ',';
			if (!f.m[k]) line += "[]"; else { line += '['; num(f.b[k]); line += ','; num(f.e[k]); line += ']'; }
		}
		line += ']';
	}
	ret("constant expression");
}
template <size_t N, size_t C> struct fixed_results { size_t n = 0; fixed_result<C> r[N] = {}; };
template <size_t N, typename RE> constexpr auto fix_all(RE re, std::string_view sv) {
	using R = std::remove_cv_t<std::remove_reference_t<decltype(*re(sv).begin())>>;
	fixed_results<N, R::count()> f;
	for (auto && r: re(sv)) { if (f.n == N) break; f.r[f.n++] = fix(r, sv); }
	return f;
}
template <typename F> void constants(const char * op, int mode, int i, const F & f) {
	call(op, mode, i);
	line += '[';
	for (size_t q = 0; q < f.n; ++q) {
		if (q) line += ',';
		line += '[';
		const auto & r = f.r[q];
		for (size_t k = 0; k < sizeof(r.b) / sizeof(r.b[0]); ++k) {
			if (k) line += ',';
			if (!r.m[k]) line += "[]"; else { line += '['; num(r.b[k]); line += ','; num(r.e[k]); line += ']'; }
		}
		line += ']';
	}
	line += ']';
	ret("constant expression");
}

}
