// What the functions of the Unicode database answer: the code which names the enumerators is generated.
#pragma once
#include <ctre-unicode.hpp>
#include <cmath>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

std::string name_of(uni::category);
std::string name_of(uni::script);
std::string name_of(uni::version);
std::string name_of(uni::block);
std::string categories_of(char32_t);
std::string scripts_of(char32_t);

inline std::string scientific(long long n) {
	int e = 0;
	while (n != 0 && n % 10 == 0) { n /= 10; ++e; }
	if (n > 2000000000 || n < -2000000000) n = -1; // (no such number)
	return std::to_string(n) + "," + std::to_string(e);
}

struct Answer {
	uni::category gc;
	uni::script sc;
	uni::version age;
	uni::block blk;
	bool valid, assigned, ascii;
	uni::numeric_value num;
	uni::script scx[64]{};
	int extensions = 0;
	constexpr explicit Answer(char32_t c): gc{uni::cp_category(c)}, sc{uni::cp_script(c)}, age{uni::cp_age(c)}, blk{uni::cp_block(c)}, valid{uni::cp_is_valid(c)}, assigned{uni::cp_is_assigned(c)}, ascii{uni::cp_is_ascii(c)}, num{uni::cp_numeric_value(c)} {
		for (auto x: uni::cp_script_extensions(c)) {
			if (extensions == 64) break;
			scx[extensions++] = x;
		}
	}
};

inline std::string number_of(const uni::numeric_value & v) {
	if (!v.is_valid()) return "[]";
	const auto n = scientific(v.numerator());
	return "[" + n + "," + std::to_string(v.denominator()) + "," + scientific(std::llround(v.value() * 20160.0)) + "]";
}

inline std::string extensions_of(const Answer & a) {
	std::string s;
	for (int i = 0; i < a.extensions; ++i) s += (i == 0 ? "\"" : ",\"") + name_of(a.scx[i]) + "\"";
	return s;
}

inline std::string answers(const Answer & a, char32_t c) {
	return "{\"gc\":\"" + name_of(a.gc) + "\",\"sc\":\"" + name_of(a.sc) + "\",\"age\":\"" + name_of(a.age) + "\",\"blk\":\"" + name_of(a.blk)
		+ "\",\"valid\":" + (a.valid ? "1" : "0") + ",\"assigned\":" + (a.assigned ? "1" : "0") + ",\"ascii\":" + (a.ascii ? "1" : "0")
		+ ",\"num\":" + number_of(a.num) + ",\"scx\":[" + extensions_of(a) + "],\"gis\":[" + categories_of(c) + "],\"sis\":[" + scripts_of(c) + "]}";
}

// lines "v <answers>" and "s first last index"
struct Sweep {
	std::map<std::string, int> index;
	void value(const std::string & s) {
		index.emplace(s, static_cast<int>(index.size()) + 1);
		std::printf("v %s\n", s.c_str());
	}
	int at(char32_t c) { return at(answers(Answer{c}, c)); }
	int at(const std::string & s) {
		if (index.find(s) == index.end()) value(s);
		return index[s];
	}
	void range(unsigned long first, unsigned long last) {
		int now = at(static_cast<char32_t>(first));
		unsigned long lo = first;
		for (unsigned long c = first + 1; c <= last; ++c) {
			const int k = at(static_cast<char32_t>(c));
			if (k != now) {
				std::printf("s %lu %lu %d\n", lo, c - 1, now);
				lo = c;
				now = k;
			}
		}
		std::printf("s %lu %lu %d\n", lo, last, now);
	}
	// as a constant expression
	template <char32_t C> void constant() {
		static constexpr Answer a{C};
		const int k = at(answers(a, C));
		std::printf("s %lu %lu %d\n", static_cast<unsigned long>(C), static_cast<unsigned long>(C), k);
	}
};

// one walk: a line "w id code point [order] [[operation, result] ..]"
inline void walk(int id, char32_t c, const char * ops) {
	using view = uni::script_extensions_view;
	const view all = uni::cp_script_extensions(c);
	auto it = all.begin();
	const auto end = all.end();
	auto value = [&](const auto & x) -> std::string { return x == end ? "end" : name_of(*x); };
	std::printf("w %d %lu [%s] [", id, static_cast<unsigned long>(c), extensions_of(Answer{c}).c_str());
	const char * sep = "";
	for (; *ops; ++ops) {
		std::string op, got;
		switch (*ops) {
			case 'd': op = "deref"; got = value(it); break;
			case 'e': op = "atend"; got = (it == end) == !(it != end) ? (it == end ? "yes" : "no") : "both"; break;
			case '+': if (it == end) continue; op = "pre"; { auto && x = ++it; got = value(x); } break;
			case 'p': if (it == end) continue; op = "post"; { auto && x = it++; got = value(x); } break;
			case '2': { auto look = it; if (look == end) continue; (void)++look; if (look == end) continue; } op = "prepre"; { auto && x = ++(++it); got = value(x); } break;
		}
		std::printf("%s[\"%s\",\"%s\"]", sep, op.c_str(), got.c_str());
		sep = ",";
	}
	std::puts("]");
}
