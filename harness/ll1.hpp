// Grammars run by the engine of ctll; the grammars and the runs are generated (see C24).
#include <ctll/parser.hpp>
#include <cstdio>
#include <type_traits>

template <int N, int Prev> struct item {};
template <typename... Ts> struct noted {};
template <int N> struct act: ctll::action {};

constexpr int ch(char32_t v) { return static_cast<int>(v); }
template <int N, int Prev, typename... Ts> constexpr auto note(noted<Ts...>) {
	if constexpr (N == 4 && Prev == 'b') return ctll::reject{};
	else return noted<Ts..., item<N, Prev>>{};
}
struct selector {
	template <int N, auto V, typename... Ts, std::enable_if_t<N != 5, int> = 0> static constexpr auto apply(act<N>, ctll::term<V>, noted<Ts...> s) {
		return note<N, ch(static_cast<char32_t>(V))>(s);
	}
	template <int N, typename... Ts, std::enable_if_t<N != 5, int> = 0> static constexpr auto apply(act<N>, ctll::epsilon, noted<Ts...> s) {
		return note<N, 0>(s);
	}
};
// the same, knowing every action
struct full_selector: selector {
	using selector::apply;
	template <auto V, typename... Ts> static constexpr auto apply(act<5>, ctll::term<V>, noted<Ts...> s) { return s; }
	template <typename... Ts> static constexpr auto apply(act<5>, ctll::epsilon, noted<Ts...> s) { return s; }
};

template <int... Ns, int... Ps> void log(noted<item<Ns, Ps>...>) {
	bool first = true;
	((std::printf("%s[%d,%d]", first ? "" : ",", Ns, Ps), first = false), ...);
}
template <typename Parser> void run(int id) {
	using out = typename Parser::template output<noted<>>;
	constexpr bool same = Parser::template correct_with<noted<>> == out::is_correct && static_cast<bool>(out{}) == out::is_correct;
	std::printf("{\"id\":%d,\"c\":%d,\"p\":%d,\"x\":[", id, same ? static_cast<int>(out::is_correct) : 2, static_cast<int>(out::position));
	log(typename out::output_type{});
	std::printf("]}\n");
}
