// Lists the highlight types: number, long name and short name.
#include "ulight/ulight.h"
#include <cstdio>

int main()
{
    for (int t = 0; t < 256; ++t) {
        const auto l = ulight_highlight_type_long_string(ulight_highlight_type(t));
        const auto s = ulight_highlight_type_short_string(ulight_highlight_type(t));
        if (l.length || s.length) std::printf("%d %.*s %.*s\n", t, int(l.length), l.text, int(s.length), s.text);
    }
}
