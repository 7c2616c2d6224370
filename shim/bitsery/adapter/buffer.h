#pragma once
#include "../bitsery.h"

namespace bitsery
{
template <class Buffer>
class OutputBufferAdapter
{
    Buffer* b_;
    std::size_t n_ = 0;
public:
    OutputBufferAdapter(Buffer& b) : b_(&b) {}
    void writeBytes(const unsigned char* d, std::size_t n)
    {
        if (b_->size() < n_ + n) b_->resize(n_ + n);
        for (std::size_t i = 0; i < n; ++i) (*b_)[n_ + i] = static_cast<typename Buffer::value_type>(d[i]);
        n_ += n;
    }
    void flush() {}
    std::size_t writtenBytesCount() const { return n_; }
};
template <class Buffer>
class InputBufferAdapter
{
    typename Buffer::iterator p_;
    std::size_t n_;
    ReaderError err_ = ReaderError::NoError;
public:
    InputBufferAdapter(typename Buffer::iterator p, std::size_t n) : p_(p), n_(n) {}
    void readBytes(unsigned char* d, std::size_t n)
    {
        if (n > n_ || err_ != ReaderError::NoError) { if (n) *d = 0; error(ReaderError::DataOverflow); return; }
        for (std::size_t i = 0; i < n; ++i) d[i] = static_cast<unsigned char>(*p_++);
        n_ -= n;
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && n_ == 0; }
};
}
