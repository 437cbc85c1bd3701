// An archive that keeps copies of the values it is given, for the serialize functions of the classes.
#pragma once
#include "sym.h"
#include <cereal/cereal.hpp>
#include <type_traits>
#include <vector>
struct Tape {
    std::vector<void *> items;
    size_t at = 0;
};
template <bool LOAD>
struct TapeArchive {
    using is_loading = std::integral_constant<bool, LOAD>;
    using is_saving = std::integral_constant<bool, !LOAD>;
    Tape &t;
    template <class T>
    void one(cereal::NameValuePair<T> &&n) {
        one(n.value);
    }
    template <class T>
    void one(T &v) {
        using V = std::remove_const_t<T>;
        if constexpr (LOAD) {
            if (t.at >= t.items.size()) sym_fail("an archive is loaded with more values than were saved");
            const_cast<V &>(v) = *static_cast<V *>(t.items[t.at++]);
        } else
            t.items.push_back(new V(v));
    }
    template <class T>
    TapeArchive &operator&(T &&v) {
        one(std::forward<T>(v));
        return *this;
    }
    template <class T>
    TapeArchive &operator<<(T &&v) {
        return *this & std::forward<T>(v);
    }
    template <class T>
    TapeArchive &operator>>(T &&v) {
        return *this & std::forward<T>(v);
    }
    template <class... T>
    TapeArchive &operator()(T &&...v) {
        ((*this & std::forward<T>(v)), ...);
        return *this;
    }
};
// loads what was saved
template <class C>
static void roundTrip(C &from, C &to) {
    Tape t;
    TapeArchive<false> s{t};
    TapeArchive<true> l{t};
    from.serialize(s, 0);
    to.serialize(l, 0);
    sym_assert(t.at == t.items.size(), "an archive is loaded with fewer values than were saved");
}
