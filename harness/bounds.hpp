// What a call does to the positions of its subject: iterators which write down every operation made with
// them (they never judge), subjects alone in their heap block, subjects inside of a larger text.
#pragma once
#include "forms.hpp"
#include <set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char * __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0"; }
#endif

namespace rec {

enum : int { inc = 1, dec, jump, read, index_, same, at_end, order, born = 10, nothing, copy };
constexpr long nil = -1000;

// touches: every different operation with the positions; history: the operations in their order with the
// numbers of the iterators (the positions are left to the specification)
struct tape_t {
	bool on = false, long_history = false, want_history = false;
	std::set<std::array<long, 3>> touches;
	std::vector<std::array<int, 3>> history;
	std::vector<int> free_ids;
	int ids = 0;
	void start(bool h) { on = true; want_history = h; long_history = false; touches.clear(); history.clear(); }
	int fresh() {
		if (free_ids.empty()) return ++ids;
		const int i = free_ids.back();
		free_ids.pop_back();
		return i;
	}
	void touch(int op, long p, long k) { if (on) touches.insert({op, p, k}); }
	void note(int op, int a, long b) {
		if (!on || !want_history || long_history) return;
		if (history.size() >= 700) { long_history = true; return; }
		history.push_back({op, a, static_cast<int>(b)});
	}
};
inline tape_t tape;

template <typename CharT> inline const CharT * subject_begin = nullptr;

template <typename CharT, typename Tag> struct guarded {
	using iterator_category = Tag;
	using value_type = CharT;
	using reference = const CharT &;
	using pointer = const CharT *;
	using difference_type = std::ptrdiff_t;
	const CharT * p = nullptr;
	int id;
	long at() const { return p ? static_cast<long>(p - subject_begin<CharT>) : nil; }
	guarded() noexcept: id{tape.fresh()} { tape.note(nothing, id, 0); }
	explicit guarded(const CharT * q) noexcept: p{q}, id{tape.fresh()} { tape.note(born, id, at()); }
	guarded(const guarded & o) noexcept: p{o.p}, id{tape.fresh()} { tape.note(copy, id, o.id); }
	guarded & operator=(const guarded & o) noexcept { p = o.p; tape.note(copy, id, o.id); return *this; }
	~guarded() { tape.free_ids.push_back(id); }
	void did(int op, long k = 0) const { tape.touch(op, at(), k); tape.note(op, id, k); }
	void with(int op, const guarded & o) const { tape.touch(op, at(), o.at()); tape.note(op, id, o.id); }
	const CharT & look(long k) const {
		// a text around the subject is there to be read, further away nothing is
		static const CharT far_away = 'a';
		return (p && at() + k >= -16 && p + k < limit) ? p[k] : far_away;
	}
	static inline const CharT * limit = nullptr;
	reference operator*() const { did(read); return look(0); }
	guarded & operator++() { did(inc); ++p; return *this; }
	guarded operator++(int) { guarded o = *this; ++*this; return o; }
	guarded & operator--() requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { did(dec); --p; return *this; }
	guarded operator--(int) requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { guarded o = *this; --*this; return o; }
	static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;
	guarded & operator+=(std::ptrdiff_t k) requires ra { did(jump, k); p += k; return *this; }
	guarded & operator-=(std::ptrdiff_t k) requires ra { did(jump, -k); p -= k; return *this; }
	friend guarded operator+(const guarded & g, std::ptrdiff_t k) requires ra { guarded o = g; o += k; return o; }
	friend guarded operator+(std::ptrdiff_t k, const guarded & g) requires ra { guarded o = g; o += k; return o; }
	friend guarded operator-(const guarded & g, std::ptrdiff_t k) requires ra { guarded o = g; o -= k; return o; }
	friend std::ptrdiff_t operator-(const guarded & a, const guarded & b) requires ra { a.with(order, b); return a.p - b.p; }
	reference operator[](std::ptrdiff_t k) const requires ra { did(index_, k); return look(k); }
	friend bool operator==(const guarded & a, const guarded & b) { a.with(same, b); return a.p == b.p; }
	friend bool operator!=(const guarded & a, const guarded & b) { a.with(same, b); return a.p != b.p; }
	friend bool operator<(const guarded & a, const guarded & b) requires ra { a.with(order, b); return a.p < b.p; }
	friend bool operator>(const guarded & a, const guarded & b) requires ra { a.with(order, b); return a.p > b.p; }
	friend bool operator<=(const guarded & a, const guarded & b) requires ra { a.with(order, b); return a.p <= b.p; }
	friend bool operator>=(const guarded & a, const guarded & b) requires ra { a.with(order, b); return a.p >= b.p; }
};
template <typename C, typename T> const C * place(const guarded<C, T> & g) { return g.p; }

// an end of another type
template <typename It> struct edge {
	using CharT = typename It::value_type;
	const CharT * last = nullptr;
	using iterator_category = std::bidirectional_iterator_tag;
	using value_type = CharT;
	using reference = const CharT &;
	using pointer = const CharT *;
	using difference_type = std::ptrdiff_t;
	auto operator++() noexcept -> edge &;
	auto operator++(int) noexcept -> edge;
	auto operator--() noexcept -> edge &;
	auto operator--(int) noexcept -> edge;
	friend auto operator==(edge, edge) noexcept -> bool;
	auto operator*() const noexcept -> reference;
	friend bool operator==(const It & i, const edge & u) { i.did(at_end); return i.p == u.last; }
	friend bool operator==(const edge & u, const It & i) { i.did(at_end); return i.p == u.last; }
	friend bool operator!=(const It & i, const edge & u) { i.did(at_end); return i.p != u.last; }
	friend bool operator!=(const edge & u, const It & i) { i.did(at_end); return i.p != u.last; }
};

inline void tape_out(const char * form) {
	line += ",\""; line += form; line += "\",[";
	bool first = true;
	for (const auto & t: tape.touches) {
		line += first ? "[" : ",[";
		first = false;
		num(t[0]); line += ','; num(t[1]); line += ','; num(t[2]); line += ']';
	}
	line += "],[";
	if (!tape.long_history) {
		first = true;
		for (const auto & t: tape.history) {
			line += first ? "[" : ",[";
			first = false;
			num(t[0]); line += ','; num(t[1]); line += ','; num(t[2]); line += ']';
		}
	}
	line += "],";
	num(tape.ids);
	line += "],";
}

// the subject with a text in front of it and behind it which goes on as the subject does
template <typename CharT> struct surrounded {
	std::vector<CharT> store;
	const CharT * b;
	surrounded(std::basic_string_view<CharT> s, int kind) {
		const auto other = [&](size_t i) -> CharT {
			switch (kind % 4) {
				case 0: return s.empty() ? CharT('a') : s[i % s.size()];
				case 1: return s.empty() ? CharT('b') : s[s.size() - 1];
				case 2: return static_cast<CharT>("ab1_\n "[i % 6]);
				default: return CharT('\n');
			}
		};
		for (size_t i = 0; i < 16; ++i) store.push_back(other(i));
		// in front of it ends what it begins with
		if (kind % 4 == 0) for (size_t i = 0; i < 16 && !s.empty(); ++i) store[15 - i] = s[s.size() - 1 - i % s.size()];
		if (kind % 4 == 1 && !s.empty()) for (size_t i = 0; i < 16; ++i) store[i] = s[0];
		for (CharT c: s) store.push_back(c);
		for (size_t i = 0; i < 16; ++i) store.push_back(other(i));
		b = store.data() + 16;
	}
};

// END: 0 the same type, 1 another one, 2 a range
template <typename K, typename Tag, int END, typename RE, typename CharT> void guard(const char * op, int mode, RE re, subjects<CharT> s, int histories) {
	using It = guarded<CharT, Tag>;
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		const surrounded<CharT> around(sv, i);
		subject_begin<CharT> = around.b;
		It::limit = around.store.data() + around.store.size();
		call(op, mode, i);
		tape.free_ids.clear();
		tape.ids = 0;
		tape.start(i < histories);
		{
			const It first(around.b);
			const auto last = [&] {
				if constexpr (END == 1) return edge<It>{around.b + sv.size()}; else return It(around.b + sv.size());
			}();
			const auto made = [&] {
				if constexpr (END == 2) {
					struct { It b, e; const It & begin() const { return b; } const It & end() const { return e; } } range{first, last};
					return re(range);
				} else return re(first, last);
			};
			if constexpr (!K::many) {
				const auto r = made();
				tape.on = false;
				result(r, around.b);
			} else {
				const auto range = made();
				line += '[';
				size_t k = 0;
				for (auto && r: range) {
					tape.on = false;
					if (k++) line += ',';
					if (k > sv.size() + 3) { line += "[]"; break; }
					result(r, around.b);
					tape.on = true;
				}
				tape.on = false;
				line += ']';
			}
		}
		tape_out("guarded");
	}
}

// all results of a range in a constant expression
template <size_t N, typename RE, typename Arg, typename V> constexpr auto fix_each(RE re, Arg arg, V sv) {
	using R = std::remove_cv_t<std::remove_reference_t<decltype(*re(arg).begin())>>;
	fixed_results<N, R::count()> f;
	for (auto && r: re(arg)) { if (f.n == N) break; f.r[f.n++] = fix(r, sv); }
	return f;
}

// a part of a larger text, for every kind of neighbours
template <typename K, typename RE, typename CharT> void inside(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		for (int kind = 0; kind < 4; ++kind) {
			const surrounded<CharT> around(sv, kind);
			const std::basic_string_view<CharT> v(around.b, sv.size());
			call(op, mode, i); K::show(re(v), place(v.begin()), sv.size()); ret("inside of a text");
			if constexpr (!std::is_same_v<CharT, char8_t>) {
				call(op, mode, i); K::show(re(around.b, around.b + sv.size()), around.b, sv.size()); ret("inside of a text, pointers");
			}
		}
	}
}

// alone in a heap block of exactly its size
template <typename K, typename RE, typename CharT> void alone(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		const size_t n = sv.size();
		std::unique_ptr<CharT[]> block(new CharT[n]);
		std::copy(sv.begin(), sv.end(), block.get());
		const std::basic_string_view<CharT> v(block.get(), n);
		call(op, mode, i); K::show(re(v), place(v.begin()), n); ret("alone in a block");
		if constexpr (std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t> || std::is_same_v<CharT, char8_t>) if (sv.find(CharT{}) == sv.npos) {
			std::unique_ptr<CharT[]> zero(new CharT[n + 1]);
			*std::copy(sv.begin(), sv.end(), zero.get()) = CharT{};
			const CharT * z = zero.get();
			call(op, mode, i); K::show(re(z), z, n); ret("C string alone in a block");
		}
	}
}

}
