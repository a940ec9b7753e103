// Recorder: calls the public API of the library under test and writes one JSON line per pattern.
//   {"id":N,"ev":[[op,mode,subject,result],...]}            calls
//   {"id":N,"crash":"signal","op":...,"mode":...,"s":...}   the process could not go on in this call
#pragma once
#ifndef REC_CTRE_HEADER
#define REC_CTRE_HEADER <ctre.hpp>
#endif
#include REC_CTRE_HEADER
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <string_view>
#include <iterator>
#include <unistd.h>
#include <sys/time.h>
#include <vector>

namespace rec {

inline int cur_id = 0, cur_mode = 0, cur_subject = 0;
inline const char * cur_op = "";
inline std::string line;

inline void die(int sig) {
	char buf[200];
	const int n = snprintf(buf, sizeof(buf), "\n{\"id\":%d,\"crash\":\"%s\",\"op\":\"%s\",\"mode\":%d,\"s\":%d}\n", cur_id, (sig == SIGALRM || sig == SIGVTALRM) ? "hang" : "signal", cur_op, cur_mode, cur_subject);
	if (write(1, buf, static_cast<size_t>(n)) < 0) _exit(4);
	_exit(3);
}

inline void setup() {
	static char stack[1 << 16];
	stack_t st{};
	st.ss_sp = stack;
	st.ss_size = sizeof(stack);
	sigaltstack(&st, nullptr);
	struct sigaction sa{};
	sa.sa_handler = die;
	sa.sa_flags = SA_ONSTACK;
	for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM}) sigaction(s, &sa, nullptr);
}

// processor time of one pattern is limited
inline void budget(long ms) {
	struct itimerval t{};
	t.it_value.tv_sec = ms / 1000;
	t.it_value.tv_usec = (ms % 1000) * 1000;
	setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

inline void num(long v) { line += std::to_string(v); }
template <typename It> It place(It it) { return it; }
#ifdef CTRE_ENABLE_UTF8_RANGE
inline const char8_t * place(ctre::utf8_iterator it) { return it.ptr; }
#endif
template <typename C, typename It> void span(const C & c, It base) {
	if (!c) { line += "[]"; return; }
	line += '[';
	num(static_cast<long>(std::distance(base, place(c.begin()))));
	line += ',';
	num(static_cast<long>(std::distance(base, place(c.end()))));
	line += ']';
}
template <typename R, typename It, size_t... I> void result_impl(const R & r, It base, std::index_sequence<I...>) {
	if (!r) { line += "[]"; return; }
	line += '[';
	((I == 0 ? void() : void(line += ','), span(r.template get<I>(), base)), ...);
	line += ']';
}
template <typename R, typename It> void result(const R & r, It base) {
	result_impl(r, base, std::make_index_sequence<R::count()>());
}

inline void begin(int id) { cur_id = id; line = "{\"id\":" + std::to_string(id) + ",\"ev\":["; budget(10000); }
inline void end() {
	if (line.back() == ',') line.pop_back();
	line += "]}\n";
	fwrite(line.data(), 1, line.size(), stdout);
	fflush(stdout);
}
inline void call(const char * op, int mode, int subject) {
	cur_op = op; cur_mode = mode; cur_subject = subject;
	line += "[\""; line += op; line += "\","; num(mode); line += ','; num(subject); line += ',';
}
inline void ret() { line += "],"; }

template <typename CharT> struct subjects {
	const std::basic_string_view<CharT> * list;
	const int * idx;
	int n;
};

// calls with one result
template <typename RE, typename CharT> void one(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		call(op, mode, i);
		result(re(sv), sv.begin());
		ret();
	}
}
// calls with a range of results; a range which does not end is cut
template <typename RE, typename CharT> void many(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		call(op, mode, i);
		line += '[';
		size_t k = 0;
		for (auto && r: re(sv)) {
			if (k++) line += ',';
			if (k > sv.size() + 3) { line += "[]"; break; } // an empty result is never in a range: it stands for too many
			result(r, sv.begin());
		}
		line += ']';
		ret();
	}
}


// which units of a subject match alone
template <typename RE, typename CharT> void units(const char * op, int mode, RE re, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		call(op, mode, i);
		line += '[';
		bool first = true;
		for (const CharT & c: sv) {
			if (re(std::basic_string_view<CharT>(&c, 1))) {
				if (!first) line += ',';
				first = false;
				num(static_cast<long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<CharT, char>, char, int>>>(c)));
			}
		}
		line += ']';
		ret();
	}
}

// a history of operations on iterators of one range, written as a script of single letters and slots:
// n0 begin, c01 copy slot 0 to 1, i0 increment, p01 postfix increment of 0 with the old value to 1,
// d0 what it refers to, e0 compared with the end, q01 compared with each other; nothing is done
// behind the end of the range
template <bool Ordered = true, typename Begin, typename Sentinel, typename Show> void script(const char * s, Begin begin, Sentinel end, Show show) {
	using It = decltype(begin());
	It slot[3]{};
	bool set[3]{};
	line += '[';
	bool first = true;
	while (*s) {
		const char o = *s++;
		const int a = *s++ - '0';
		const int b = (o == 'c' || o == 'p' || o == 'q') ? *s++ - '0' : 0;
		if (o != 'n' && !set[a]) continue;
		if (o == 'q' && !set[b]) continue;
		if ((o == 'i' || o == 'p' || o == 'd') && slot[a] == end) continue;
		if (o == 'n') set[a] = true;
		if (o == 'c' || o == 'p') set[b] = true;
		if (!first) line += ',';
		first = false;
		line += "[\"";
		line += o;
		line += "\",";
		num(a + 1);
		line += ',';
		num(b + 1);
		line += ',';
		switch (o) {
			case 'n': slot[a] = begin(); line += '0'; break;
			case 'c': slot[b] = slot[a]; line += '0'; break;
			case 'i': { const bool same = (&++slot[a] == &slot[a]); line += same ? '0' : '1'; break; }
			case 'p': slot[b] = slot[a]++; line += '0'; break;
			case 'd': show(slot[a]); break;
			case 'e': line += (slot[a] == end) ? '1' : '0'; line += ','; line += (end == slot[a]) ? '1' : '0'; line += ','; line += (slot[a] != end) ? '1' : '0'; line += ','; line += (end != slot[a]) ? '1' : '0'; break;
			case 'q': line += (slot[a] == slot[b]) ? '1' : '0'; line += ','; line += (slot[a] != slot[b]) ? '1' : '0';
				if constexpr (Ordered) { for (bool v: {slot[a] < slot[b], slot[a] > slot[b], slot[a] <= slot[b], slot[a] >= slot[b]}) line += v ? ",1" : ",0"; } break;
		}
		line += ']';
	}
	line += ']';
}

template <typename RE, typename CharT> void history(const char * op, int mode, RE re, subjects<CharT> s, const char * const * scripts) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		for (const char * const * t = scripts; *t; ++t) {
			call(op, mode, i);
			const auto range = re(sv);
			script(*t, [&] { return range.begin(); }, range.end(), [&](const auto & it) { result(*it, sv.begin()); });
			ret();
		}
	}
}

// the same over other subjects: KIND 0 view, 1 a pair of list iterators, 2 UTF-8, 3 a pair of pointers, 4 a deque
template <int KIND, typename RE> void history_of(const char * op, int mode, RE re, subjects<char> s, const char * const * scripts) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		const auto run = [&](const auto & range, auto base, auto ordered) {
			for (const char * const * t = scripts; *t; ++t) {
				call(op, mode, i);
				script<decltype(ordered)::value>(*t, [&] { return range.begin(); }, range.end(), [&](const auto & it) { result(*it, base); });
				ret();
			}
		};
		if constexpr (KIND == 0) run(re(sv), sv.begin(), std::true_type{});
		if constexpr (KIND == 1) { const std::list<char> l(sv.begin(), sv.end()); run(re(l.begin(), l.end()), l.begin(), std::false_type{}); }
#ifdef __cpp_char8_t
		if constexpr (KIND == 2) { const std::basic_string<char8_t> u(sv.begin(), sv.end()); const std::basic_string_view<char8_t> v(u); run(re(v), v.data(), std::true_type{}); }
#endif
		if constexpr (KIND == 3) run(re(sv.data(), sv.data() + sv.size()), sv.data(), std::true_type{});
		if constexpr (KIND == 4) { const std::deque<char> d(sv.begin(), sv.end()); run(re(d.begin(), d.end()), d.begin(), std::true_type{}); }
	}
}

template <typename T> const T * raw(const T * p) { return p; }
template <typename It, typename = decltype(std::declval<It>().base())> auto raw(It i) { return i.base(); }

// subjects as a range: each one in a place of its own, a result is shown with the number of its subject
template <typename CharT> struct apart {
	std::vector<std::vector<CharT>> store;
	std::vector<std::basic_string_view<CharT>> list;
	explicit apart(subjects<CharT> s) {
		for (int i = 0; i < s.n; ++i) {
			const auto sv = s.list[s.idx[i]];
			store.emplace_back(sv.begin(), sv.end());
			store.back().push_back(CharT{}); // never empty, so that the place is its own
			list.emplace_back(store.back().data(), sv.size());
		}
	}
};
template <typename R> void numbered(const R & r, const std::vector<std::pair<const char *, size_t>> & a) {
	size_t i = 0;
	const char * b = raw(r.template get<0>().begin());
	while (i < a.size() && !(std::less_equal<>{}(a[i].first, b) && std::less_equal<>{}(b, a[i].first + a[i].second))) ++i;
	line += '[';
	num(static_cast<long>(i));
	line += ',';
	if (i < a.size()) {
		const auto base = r.template get<0>().begin() - (b - a[i].first);
		result(r, base);
	} else line += "[]";
	line += ']';
}
template <bool Ordered, typename Range, typename Pipe> void filtered(const char * op, int mode, Range && subj, Pipe pipe, const char * const * scripts) {
	std::vector<std::pair<const char *, size_t>> where;
	for (const auto & x: subj) {
		if constexpr (std::is_convertible_v<decltype(x), const char *>) where.emplace_back(x, strlen(x)); else where.emplace_back(x.data(), x.size());
	}
	for (const char * const * t = scripts; *t; ++t) {
		call(op, mode, 0);
		const auto range = pipe(subj);
		script<Ordered>(*t, [&] { return range.begin(); }, range.end(), [&](const auto & it) { numbered(*it, where); });
		ret();
	}
}
// KIND of range: 0 vector of views, 1 const vector of strings, 2 list of views, 3 vector of C strings, 4 deque of strings, 5 a range made by another one
template <int KIND = 0, typename RE> void multi(const char * op, int mode, RE re, subjects<char> s, const char * const * scripts) {
	const apart<char> a(s);
	const auto pipe = [re](auto & r) { return r | re; };
	if constexpr (KIND == 0) filtered<true>(op, mode, a.list, pipe, scripts);
	if constexpr (KIND == 1) { const std::vector<std::string> v(a.list.begin(), a.list.end()); filtered<true>(op, mode, v, pipe, scripts); }
	if constexpr (KIND == 2) { std::list<std::string_view> v(a.list.begin(), a.list.end()); filtered<false>(op, mode, v, pipe, scripts); }
	if constexpr (KIND == 3) { std::vector<const char *> v; for (auto x: a.list) v.push_back(x.data()); filtered<true>(op, mode, v, pipe, scripts); }
	if constexpr (KIND == 4) { std::deque<std::string> v(a.list.begin(), a.list.end()); filtered<true>(op, mode, v, pipe, scripts); }
	if constexpr (KIND == 5) filtered<true>(op, mode, a.list, [re](auto & r) { return std::vector<std::string_view>(r) | re; }, scripts);
}

}
