// Patterns and names given as literals of several types.
#include <array>
#include <string_view>

namespace rec {

// calls recorded under the name of a form; show writes what is asked of a result
template <typename RE, typename Show, typename CharT> void named(const char * op, int mode, const char * form, RE re, Show show, subjects<CharT> s) {
	for (int i = 0; i < s.n; ++i) {
		const auto sv = s.list[s.idx[i]];
		call(op, mode, i);
		const auto r = re(sv);
		line += '[';
		if (r) {
			span(r.template get<0>(), sv.begin());
			show(r, sv.begin());
		}
		line += "],\"";
		line += form;
		line += '"';
		ret();
	}
}

}
