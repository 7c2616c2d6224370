// Stand-in for slavenf/sfl-library's segmented_vector (not installed here, see DESIGN.md).
// Same contract as far as simfil relies on it: elements live in fixed-size
// segments of N elements that never move when the vector grows, operator[] is
// unchecked in release builds (here: checked, throws std::logic_error so that an
// out-of-bounds access cannot go unnoticed), at() throws std::out_of_range.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace sfl
{

template <class T, std::size_t N = 1024, class Allocator = std::allocator<T>>
class segmented_vector
{
    static_assert(N > 0);
    struct SegmentDeleter { void operator()(T* p) const { ::operator delete(static_cast<void*>(p), std::align_val_t(alignof(T))); } };
    using Segment = std::unique_ptr<T, SegmentDeleter>;

    std::vector<Segment> segments_;
    std::size_t size_ = 0;

    static Segment make_segment()
    {
        return Segment(static_cast<T*>(::operator new(sizeof(T) * N, std::align_val_t(alignof(T)))));
    }
    T* slot(std::size_t i) const { return segments_[i / N].get() + i % N; }
    void need(std::size_t n)
    {
        while (segments_.size() * N < n)
            segments_.push_back(make_segment());
    }
    [[noreturn]] static void oob() { throw std::logic_error("segmented_vector: index out of bounds"); }

    template <bool Const>
    class It
    {
        using V = std::conditional_t<Const, const segmented_vector, segmented_vector>;
        V* v_ = nullptr;
        std::size_t i_ = 0;
        friend class segmented_vector;
        template <bool> friend class It;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = std::conditional_t<Const, const T*, T*>;
        using reference = std::conditional_t<Const, const T&, T&>;
        It() = default;
        It(V* v, std::size_t i) : v_(v), i_(i) {}
        operator It<true>() const { return It<true>(v_, i_); }
        reference operator*() const { return (*v_)[i_]; }
        pointer operator->() const { return &(*v_)[i_]; }
        reference operator[](difference_type d) const { return (*v_)[i_ + d]; }
        It& operator++() { ++i_; return *this; }
        It operator++(int) { auto t = *this; ++i_; return t; }
        It& operator--() { --i_; return *this; }
        It operator--(int) { auto t = *this; --i_; return t; }
        It& operator+=(difference_type d) { i_ += d; return *this; }
        It& operator-=(difference_type d) { i_ -= d; return *this; }
        friend It operator+(It a, difference_type d) { return a += d; }
        friend It operator+(difference_type d, It a) { return a += d; }
        friend It operator-(It a, difference_type d) { return a -= d; }
        friend difference_type operator-(const It& a, const It& b) { return difference_type(a.i_) - difference_type(b.i_); }
        friend bool operator==(const It& a, const It& b) { return a.i_ == b.i_ && a.v_ == b.v_; }
        friend bool operator!=(const It& a, const It& b) { return !(a == b); }
        friend bool operator<(const It& a, const It& b) { return a.i_ < b.i_; }
        friend bool operator>(const It& a, const It& b) { return a.i_ > b.i_; }
        friend bool operator<=(const It& a, const It& b) { return a.i_ <= b.i_; }
        friend bool operator>=(const It& a, const It& b) { return a.i_ >= b.i_; }
    };

public:
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using allocator_type = Allocator;
    using iterator = It<false>;
    using const_iterator = It<true>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    segmented_vector() = default;
    explicit segmented_vector(size_type n) { resize(n); }
    segmented_vector(size_type n, const T& v) { resize(n, v); }
    segmented_vector(std::initializer_list<T> l) { for (auto& e : l) push_back(e); }
    template <class InIt, class = typename std::iterator_traits<InIt>::iterator_category>
    segmented_vector(InIt a, InIt b) { for (; a != b; ++a) emplace_back(*a); }
    segmented_vector(const segmented_vector& o) { for (auto& e : o) push_back(e); }
    segmented_vector(segmented_vector&& o) noexcept { swap(o); }
    segmented_vector& operator=(const segmented_vector& o)
    {
        if (this != &o) { clear(); for (auto& e : o) push_back(e); }
        return *this;
    }
    segmented_vector& operator=(segmented_vector&& o) noexcept { if (this != &o) { clear(); segments_.clear(); swap(o); } return *this; }
    segmented_vector& operator=(std::initializer_list<T> l) { clear(); for (auto& e : l) push_back(e); return *this; }
    ~segmented_vector() { clear(); }

    void swap(segmented_vector& o) noexcept { segments_.swap(o.segments_); std::swap(size_, o.size_); }
    void assign(size_type n, const T& v) { T copy(v); clear(); resize(n, copy); }

    bool empty() const { return size_ == 0; }
    size_type size() const { return size_; }
    size_type max_size() const { return std::size_t(-1) / sizeof(T); }
    size_type capacity() const { return segments_.size() * N; }
    size_type available() const { return capacity() - size_; }
    static constexpr size_type segment_capacity() { return N; }
    void reserve(size_type n) { need(n); }
    void shrink_to_fit() { segments_.resize((size_ + N - 1) / N); segments_.shrink_to_fit(); }

    T& operator[](size_type i) { if (i >= size_) oob(); return *slot(i); }
    const T& operator[](size_type i) const { if (i >= size_) oob(); return *slot(i); }
    T& at(size_type i) { if (i >= size_) throw std::out_of_range("segmented_vector::at"); return *slot(i); }
    const T& at(size_type i) const { if (i >= size_) throw std::out_of_range("segmented_vector::at"); return *slot(i); }
    T& front() { return (*this)[0]; }
    const T& front() const { return (*this)[0]; }
    T& back() { return (*this)[size_ - 1]; }
    const T& back() const { return (*this)[size_ - 1]; }
    iterator nth(size_type i) { return begin() + i; }
    const_iterator nth(size_type i) const { return begin() + i; }
    size_type index_of(const_iterator it) const { return it.i_; }

    iterator begin() { return {this, 0}; }
    iterator end() { return {this, size_}; }
    const_iterator begin() const { return {this, 0}; }
    const_iterator end() const { return {this, size_}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }

    template <class... A>
    T& emplace_back(A&&... a)
    {
        need(size_ + 1);
        T* p = ::new (static_cast<void*>(slot(size_))) T{std::forward<A>(a)...};
        ++size_;
        return *p;
    }
    void push_back(const T& v) { need(size_ + 1); ::new (static_cast<void*>(slot(size_))) T(v); ++size_; }
    void push_back(T&& v) { need(size_ + 1); ::new (static_cast<void*>(slot(size_))) T(std::move(v)); ++size_; }
    void pop_back() { if (!size_) oob(); --size_; slot(size_)->~T(); }
    iterator erase(const_iterator it)
    {
        for (size_type i = it.i_; i + 1 < size_; ++i) (*this)[i] = std::move((*this)[i + 1]);
        pop_back();
        return {this, it.i_};
    }
    iterator erase(const_iterator a, const_iterator b)
    {
        auto n = b.i_ - a.i_;
        for (size_type i = a.i_; i + n < size_; ++i) (*this)[i] = std::move((*this)[i + n]);
        while (n--) pop_back();
        return {this, a.i_};
    }
    template <class... A>
    iterator emplace(const_iterator it, A&&... a)
    {
        auto at = it.i_;
        emplace_back(std::forward<A>(a)...);
        for (size_type i = size_ - 1; i > at; --i) std::swap((*this)[i], (*this)[i - 1]);
        return {this, at};
    }
    iterator insert(const_iterator it, const T& v) { return emplace(it, v); }
    void resize(size_type n)
    {
        while (size_ > n) pop_back();
        need(n);
        while (size_ < n) { ::new (static_cast<void*>(slot(size_))) T(); ++size_; }
    }
    void resize(size_type n, const T& v)
    {
        while (size_ > n) pop_back();
        need(n);
        while (size_ < n) { ::new (static_cast<void*>(slot(size_))) T(v); ++size_; }
    }
    void clear() { while (size_) pop_back(); }

    friend bool operator==(const segmented_vector& a, const segmented_vector& b)
    {
        if (a.size_ != b.size_) return false;
        for (size_type i = 0; i < a.size_; ++i) if (!(a[i] == b[i])) return false;
        return true;
    }
    friend bool operator!=(const segmented_vector& a, const segmented_vector& b) { return !(a == b); }
};

}
