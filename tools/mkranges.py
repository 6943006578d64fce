#!/usr/bin/env python3
"""range-v3 as installed no longer converts a view to a vector implicitly, which the library (written for an
older range-v3) relies on, nor accumulates over a constant view that caches its first element.
Writes copies of the headers concerned with both added.
usage: mkranges.py OUTDIR"""
import os, sys
src = "/usr/include/range/v3/view/interface.hpp"
t = open(src).read()
mark = "    private:\n"
assert t.count(mark) == 1, "range-v3's view/interface.hpp is not the expected one"
add = """        template<typename T_, typename A_, bool True = true,
                 typename = std::enable_if_t<std::is_constructible<T_, range_reference_t<D<True> &>>::value>>
        operator std::vector<T_, A_>()
        {
            std::vector<T_, A_> v;
            if constexpr(sized_range<D<True> &>) v.reserve(ranges::size(derived()));
            auto e = ranges::end(derived());
            for(auto i = ranges::begin(derived()); i != e; ++i) v.emplace_back(*i);
            return v;
        }
        template<typename T_, typename A_, bool True = true,
                 typename = std::enable_if_t<std::is_constructible<T_, range_reference_t<D<True> const &>>::value>>
        operator std::vector<T_, A_>() const
        {
            std::vector<T_, A_> v;
            if constexpr(sized_range<D<True> const &>) v.reserve(ranges::size(derived()));
            auto e = ranges::end(derived());
            for(auto i = ranges::begin(derived()); i != e; ++i) v.emplace_back(*i);
            return v;
        }

"""
t = t.replace(mark, add + mark).replace("#include <iosfwd>\n", "#include <iosfwd>\n#include <type_traits>\n#include <vector>\n", 1)
d = os.path.join(sys.argv[1], "range", "v3", "view")
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "interface.hpp"), "w").write(t)

src = "/usr/include/range/v3/numeric/accumulate.hpp"
t = open(src).read()
mark = "    struct accumulate_fn\n    {\n"
assert t.count(mark) == 1, "range-v3's numeric/accumulate.hpp is not the expected one"
t = t.replace(mark, mark + """        template<typename V, typename T,
                 typename = std::enable_if_t<!input_range<V const &> && input_range<V &>>>
        T operator()(V const & v, T init) const
        {
            V copy(v);
            return (*this)(copy, std::move(init));
        }
""")
d = os.path.join(sys.argv[1], "range", "v3", "numeric")
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "accumulate.hpp"), "w").write(t)

# group_by: an older range-v3 did not keep the end of the first group in the view, which could so be constant
src = "/usr/include/range/v3/view/group_by.hpp"
t = open(src).read()
mark = t[t.index("        cursor begin_cursor()\n"):t.index("    public:\n        group_by_view() = default;")]
assert t.count(mark) == 1 and "second_" in mark, "range-v3's view/group_by.hpp is not the expected one"
t = t.replace(mark, """        cursor begin_cursor() const
        {
            auto & rng = const_cast<Rng &>(rng_);
            auto & fun = const_cast<semiregular_box_t<Fun> &>(fun_);
            auto b = ranges::begin(rng);
            auto e = ranges::end(rng);
            return {fun, b, b != e ? find_if_not(ranges::next(b), e, pred{b, fun}) : b, e};
        }

""")
open(os.path.join(sys.argv[1], "range", "v3", "view", "group_by.hpp"), "w").write(t)
