// Literals built from units: lines "L type units" and "= type units type units", units in hexadecimal
// separated by dots ("-": none). Types: n char, 8 char8_t, u char holding UTF-8, 16, 32, w.
#include <ctll/fixed_string.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <memory>

using Units = std::vector<unsigned long>;
constexpr size_t Most = 12;

static Units units(const std::string & s) {
	Units out;
	if (s == "-") return out;
	std::stringstream in(s);
	for (std::string x; std::getline(in, x, '.');) out.push_back(strtoul(x.c_str(), nullptr, 16));
	return out;
}

static std::string list(const std::vector<unsigned long> & v) {
	std::string out = "[";
	for (size_t i = 0; i < v.size(); ++i) out += (i ? "," : "") + std::to_string(v[i]);
	return out + "]";
}

// what is asked is passed the literal
template <typename T, size_t N, typename F> void with_n(const Units & u, bool array, F && f) {
	if constexpr (N > 0) {
		if (array) {
			auto a = std::make_unique<std::array<T, N>>();
			for (size_t i = 0; i < N; ++i) (*a)[i] = static_cast<T>(u[i]);
			f(ctll::fixed_string(*a));
		} else {
			// alone in its block: what is behind it must not be looked at
			T * p = static_cast<T *>(malloc(sizeof(T) * N));
			for (size_t i = 0; i < N; ++i) p[i] = static_cast<T>(u[i]);
			f(ctll::fixed_string<N>(ctll::construct_from_pointer, p));
			free(p);
		}
	} else {
		const T empty[1] = {0};
		f(ctll::fixed_string(empty));
	}
}

template <typename T, size_t N = 0, typename F> void with(const Units & u, bool array, F && f) {
	if constexpr (N <= Most) {
		if (u.size() == N) with_n<T, N>(u, array, f);
		else with<T, N + 1>(u, array, f);
	}
}

template <typename F> void typed(const std::string & ty, const Units & u, bool array, F && f) {
	if (ty == "n" || ty == "u") with<char>(u, array, f);
	else if (ty == "8") with<char8_t>(u, array, f);
	else if (ty == "16") with<char16_t>(u, array, f);
	else if (ty == "32") with<char32_t>(u, array, f);
	else with<wchar_t>(u, array, f);
}

static const char * shown(const std::string & ty) { return ty == "u" ? "8" : ty.c_str(); }

int main(int, char ** argv) {
	std::ifstream in(argv[1]);
	std::string line;
	size_t n = 0;
	while (std::getline(in, line)) {
		std::stringstream s(line);
		std::string what, ty, a, ty2, b;
		s >> what >> ty >> a;
		bool array = ++n % 2;
		if (what == "L") {
			const Units u = units(a);
			typed(ty, u, array, [&](const auto & x) {
				std::vector<unsigned long> v, w, z;
				const auto copy = x;
				for (char32_t c: copy) v.push_back(c);
				for (size_t i = 0; i < x.size(); ++i) w.push_back(x[i]);
				for (char32_t c: static_cast<std::basic_string_view<char32_t>>(x)) z.push_back(c);
				printf("[\"%s\",%s,%s,%d,%s,%s]\n", shown(ty), list(u).c_str(), list(v).c_str(), copy.correct() && x.correct() ? 1 : 0, list(w).c_str(), list(z).c_str());
			});
		} else {
			s >> ty2 >> b;
			const Units u = units(a), v = units(b);
			typed(ty, u, array, [&](const auto & x) {
				typed(ty2, v, !array, [&](const auto & y) {
					if constexpr (requires { x.is_same_as(y); }) {
						printf("[\"=\",\"%s\",%s,\"%s\",%s,%d]\n", shown(ty), list(u).c_str(), shown(ty2), list(v).c_str(), x.is_same_as(y) ? 1 : 0);
					} else printf("[\"=\",\"%s\",%s,\"%s\",%s,%d]\n", shown(ty), list(u).c_str(), shown(ty2), list(v).c_str(), x.size() == 0 && y.size() == 0 ? 1 : 0);
				});
			});
		}
	}
}
