// Stand-in for the hash containers in symbolic runs: a list searched with the key comparison.  Whenever a
// key is found its hash has to agree with the hash of the stored key, so that the real container finds it too.
#pragma once
#include <initializer_list>
#include <iterator>
#include <tuple>
#include <utility>
#include <stdexcept>
#include <bits/functional_hash.h>
#include <bits/allocator.h>
#include <bits/stl_function.h>
extern "C" void sym_assert(int, const char *);
namespace pisym {
template <class V> struct LNode {
    V v;
    LNode *next, *prev;
    template <class... A> explicit LNode(A &&...a) : v(std::forward<A>(a)...), next(nullptr), prev(nullptr) {}
};
template <class V, bool C> struct LIter {
    typedef std::forward_iterator_tag iterator_category;
    typedef V value_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::conditional_t<C, const V, V> *pointer;
    typedef std::conditional_t<C, const V, V> &reference;
    LNode<V> *n = nullptr;
    LIter() {}
    explicit LIter(LNode<V> *n) : n(n) {}
    template <bool D, class = std::enable_if_t<C && !D>> LIter(const LIter<V, D> &o) : n(o.n) {}
    reference operator*() const { return n->v; }
    pointer operator->() const { return &n->v; }
    LIter &operator++() { n = n->next; return *this; }
    LIter operator++(int) { LIter r = *this; n = n->next; return r; }
    friend bool operator==(const LIter &a, const LIter &b) { return a.n == b.n; }
    friend bool operator!=(const LIter &a, const LIter &b) { return a.n != b.n; }
};
template <class K, class V, class Hash, class Eq, class Get, bool ConstIt> struct Linear {
    typedef K key_type;
    typedef V value_type;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef Hash hasher;
    typedef Eq key_equal;
    typedef V &reference;
    typedef const V &const_reference;
    typedef LIter<V, ConstIt> iterator;
    typedef LIter<V, true> const_iterator;
    typedef LNode<V> N;
    N *first = nullptr, *last = nullptr;
    size_type count_ = 0;
    Linear() {}
    Linear(const Linear &o) { for (N *n = o.first; n; n = n->next) append(new N(n->v)); }
    Linear(Linear &&o) noexcept { swap(o); }
    Linear(std::initializer_list<V> l) { for (auto &v : l) insert(v); }
    template <class I> Linear(I a, I b) { for (; a != b; ++a) insert(*a); }
    ~Linear() { clear(); }
    Linear &operator=(const Linear &o) { if (this != &o) { Linear c(o); swap(c); } return *this; }
    Linear &operator=(Linear &&o) noexcept { clear(); swap(o); return *this; }
    void swap(Linear &o) noexcept { std::swap(first, o.first); std::swap(last, o.last); std::swap(count_, o.count_); }
    void append(N *n) { n->prev = last; (last ? last->next : first) = n; last = n; count_++; }
    N *search(const K &k) const {
        for (N *n = first; n; n = n->next)
            if (Eq()(Get()(n->v), k)) {
                sym_assert(Hash()(Get()(n->v)) == Hash()(k), "equal keys have different hashes");
                return n;
            }
        return nullptr;
    }
    iterator begin() { return iterator(first); }
    iterator end() { return iterator(nullptr); }
    const_iterator begin() const { return const_iterator(first); }
    const_iterator end() const { return const_iterator(nullptr); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    bool empty() const { return !first; }
    size_type size() const { return count_; }
    void reserve(size_type) {}
    void rehash(size_type) {}
    void clear() {
        while (first) { N *n = first; first = n->next; delete n; }
        last = nullptr;
        count_ = 0;
    }
    iterator find(const K &k) { return iterator(search(k)); }
    const_iterator find(const K &k) const { return const_iterator(search(k)); }
    size_type count(const K &k) const { return search(k) ? 1 : 0; }
    bool contains(const K &k) const { return search(k); }
    template <class... A> std::pair<iterator, bool> emplace(A &&...a) {
        N *n = new N(std::forward<A>(a)...);
        if (N *o = search(Get()(n->v))) { delete n; return {iterator(o), false}; }
        append(n);
        return {iterator(n), true};
    }
    std::pair<iterator, bool> insert(const V &v) { return emplace(v); }
    std::pair<iterator, bool> insert(V &&v) { return emplace(std::move(v)); }
    template <class P, class = std::enable_if_t<std::is_constructible<V, P &&>::value && !std::is_same<std::decay_t<P>, V>::value>> std::pair<iterator, bool> insert(P &&p) { return emplace(std::forward<P>(p)); }
    iterator insert(const_iterator, const V &v) { return emplace(v).first; }
    template <class I> void insert(I a, I b) { for (; a != b; ++a) emplace(*a); }
    template <class... A> iterator emplace_hint(const_iterator, A &&...a) { return emplace(std::forward<A>(a)...).first; }
    iterator erase(const_iterator i) {
        N *n = i.n, *x = n->next;
        (n->prev ? n->prev->next : first) = n->next;
        (n->next ? n->next->prev : last) = n->prev;
        delete n;
        count_--;
        return iterator(x);
    }
    template <bool D = ConstIt, class = std::enable_if_t<!D>> iterator erase(iterator i) { return erase(const_iterator(i)); }
    size_type erase(const K &k) { N *n = search(k); if (!n) return 0; erase(const_iterator(n)); return 1; }
};
struct First { template <class P> const auto &operator()(const P &p) const { return p.first; } };
struct Self { template <class P> const P &operator()(const P &p) const { return p; } };
} // namespace pisym
