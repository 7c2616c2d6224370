// Stand-in for slavenf/sfl-library's small_vector: a std::vector that reserves N.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>

namespace sfl
{
template <class T, std::size_t N, class Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator>
{
public:
    using std::vector<T, Allocator>::vector;
    small_vector() { this->reserve(N); }
};
}
