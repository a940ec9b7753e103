// Walks of ctre::utf8_iterator over texts read from a file: one text per line, units in hexadecimal, then
// a script (see spec/Utf8Trace.tla). A step which is not possible is left out.
#include <ctre.hpp>
#include <cstdio>
#include <cstring>
#include <memory>

using It = ctre::utf8_iterator;

int main(int, char ** argv) {
	FILE * f = fopen(argv[1], "r");
	char hex[4096], script[4096];
	int id = 0;
	while (fscanf(f, "%4095s %4095s", hex, script) == 2) {
		const size_t n = hex[0] == '-' ? 0 : strlen(hex) / 2;
		// a block of its own: whoever reads behind it is caught
		std::unique_ptr<char8_t[]> p(new char8_t[n]);
		printf("{\"id\":%d,\"S\":[", ++id);
		for (size_t i = 0; i < n; ++i) {
			unsigned v;
			sscanf(hex + 2 * i, "%2x", &v);
			p[i] = static_cast<char8_t>(v);
			printf("%s%u", i ? "," : "", v);
		}
		printf("],\"ev\":[");
		const char8_t * const b = p.get();
		const char8_t * const e = b + n;
		const It::sentinel end{};
		It it{b, e, b};
		bool first = true;
		size_t limit = 0;
		for (const char * s = script; *s && limit < 4 * n + 200; ++limit) {
			char o = *s;
			bool again = false;
			if (o == 'W') { if (it == end) { ++s; continue; } o = 'f'; again = true; }       // walk to the end
			if (o == 'R') { if (it == b) { ++s; continue; } o = 'b'; again = true; }         // and back
			if (!again) ++s;
			char op = 0;
			if (o == 's') { it = It{b, e, b}; op = 's'; }
			else if (o == 'e') { it = It{e, e, b}; op = 'e'; }
			else if (strchr("fFpa", o)) {
				if (it == end) continue;
				op = 'f';
				if (o == 'f') { if (&++it != &it) return 5; }
				else if (o == 'F') { const It old = it; if ((it++).ptr != old.ptr) return 5; }
				else if (o == 'p') it = it + 1;
				else { It t = it; ++t; if (t == end) continue; it = it + 2; op = 'a'; }
			} else if (strchr("bBmc", o)) {
				if (it.ptr <= b) continue;
				op = 'b';
				if (o == 'b') { if (&--it != &it) return 5; }
				else if (o == 'B') { const It old = it; if ((it--).ptr != old.ptr) return 5; }
				else if (o == 'm') it = it - 1;
				else { It t = it; --t; if (t.ptr <= b) continue; it = it - 2; op = 'c'; }
			} else continue;
			const long at = it.ptr - b;
			const bool stop = (it == end);
			if (stop != (end == it) || stop == (it != end) || stop == (end != it)) { printf("[]"); break; }
			// compared with pointers and with other iterators
			if (at >= 0 && at <= static_cast<long>(n)) {
				for (const char8_t * q = b; q <= e; ++q) {
					const bool same = q == b + at;
					const It other{q, e, b};
					if ((it == q) != same || (q == it) != same || (it != q) == same || (q != it) == same || (it == other) != same || (it != other) == same) return 6;
				}
				if (static_cast<const char8_t *>(it) != b + at) return 7;
				It assigned{b, e, b};
				assigned = b + at;
				if (assigned.ptr != b + at || assigned.end != e || assigned.start != b) return 8;
			}
			const bool inside = at >= 0 && at < static_cast<long>(n);
			printf("%s[\"%c\",%ld,%ld,%d]", first ? "" : ",", op, at, inside ? static_cast<long>(*it) : -1l, stop ? 1 : 0);
			first = false;
			if (at < 0 || at > static_cast<long>(n)) break;
		}
		printf("]}\n");
	}
}
