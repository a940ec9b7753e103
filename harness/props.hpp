// Which code points (units) a pattern matches: a line "id form first-last .." for each pattern.
#include <ctre-unicode.hpp>
#include <cstdio>
#include <string_view>

template <typename F> void runs(int id, const char * form, long last, F && f) {
	printf("%d %s", id, form);
	long lo = -1;
	for (long c = 0; c <= last + 1; ++c) {
		const bool is = c <= last && f(c);
		if (is && lo < 0) lo = c;
		if (!is && lo >= 0) {
			printf(" %lx-%lx", lo, c - 1);
			lo = -1;
		}
	}
	puts("");
}

// (and what is above the last code point)
template <ctll::fixed_string P> void points(int id) {
	runs(id, "32", 0x1103ff, [](long v) {
		const char32_t c = static_cast<char32_t>(v);
		return bool(ctre::match<P>(std::u32string_view(&c, 1)));
	});
}

// the other ways to give a code point
template <ctll::fixed_string P> void others(int id) {
	runs(id, "8", 0x10ffff, [](long v) {
		if (v >= 0xd800 && v < 0xe000) return false;
		char8_t b[4];
		size_t n = 0;
		if (v < 0x80) b[n++] = static_cast<char8_t>(v);
		else if (v < 0x800) { b[n++] = static_cast<char8_t>(0xc0 | (v >> 6)); b[n++] = static_cast<char8_t>(0x80 | (v & 0x3f)); }
		else if (v < 0x10000) { b[n++] = static_cast<char8_t>(0xe0 | (v >> 12)); b[n++] = static_cast<char8_t>(0x80 | ((v >> 6) & 0x3f)); b[n++] = static_cast<char8_t>(0x80 | (v & 0x3f)); }
		else { b[n++] = static_cast<char8_t>(0xf0 | (v >> 18)); b[n++] = static_cast<char8_t>(0x80 | ((v >> 12) & 0x3f)); b[n++] = static_cast<char8_t>(0x80 | ((v >> 6) & 0x3f)); b[n++] = static_cast<char8_t>(0x80 | (v & 0x3f)); }
		return bool(ctre::match<P>(std::u8string_view(b, n)));
	});
	runs(id, "16", 0xffff, [](long v) {
		const char16_t c = static_cast<char16_t>(v);
		return bool(ctre::match<P>(std::u16string_view(&c, 1)));
	});
	runs(id, "w", 0x10ffff, [](long v) {
		const wchar_t c = static_cast<wchar_t>(v);
		return bool(ctre::match<P>(std::wstring_view(&c, 1)));
	});
	runs(id, "c", 0xff, [](long v) {
		const char c = static_cast<char>(v);
		return bool(ctre::match<P>(std::string_view(&c, 1)));
	});
	// found in the middle of others, and as the only one
	runs(id, "s", 0x10ffff, [](long v) {
		const char32_t c = static_cast<char32_t>(v);
		const auto r = ctre::search<P>(std::u32string_view(&c, 1));
		return r && r.size() == 1;
	});
}
