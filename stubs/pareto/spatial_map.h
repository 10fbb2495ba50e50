// Declarations only: the pareto container library is not present in this
// sandbox. Enough for type-checking the two files that include it, so that the
// analyses can read them.
#pragma once
#include <array>
#include <cstddef>
#include <initializer_list>
#include <utility>
namespace pareto
{
template<class T, size_t N>
struct point
{
    std::array<T, N> v;
    point() = default;
    point(std::initializer_list<T>);
    T operator[](size_t) const;
};
template<class T, size_t N, class V>
struct spatial_map
{
    using value_type = std::pair<point<T, N>, V>;
    struct iterator
    {
        value_type *operator->() const;
        value_type &operator*() const;
        iterator &operator++();
        bool operator==(const iterator &) const;
        bool operator!=(const iterator &) const;
    };
    iterator begin() const;
    iterator end() const;
    template<class... A>
    std::pair<iterator, bool> emplace(A &&...);
    iterator find_intersection(const point<T, N> &, const point<T, N> &) const;
    void clear();
    size_t size() const;
};
}
