#pragma once
#include "../bitsery.h"
#include <istream>
#include <ostream>

namespace bitsery
{
class OutputStreamAdapter
{
    std::ostream* os_;
    std::size_t n_ = 0;
public:
    OutputStreamAdapter(std::ostream& os) : os_(&os) {}
    void writeBytes(const unsigned char* d, std::size_t n) { os_->rdbuf()->sputn(reinterpret_cast<const char*>(d), static_cast<std::streamsize>(n)); n_ += n; }
    void flush() { os_->flush(); }
    std::size_t writtenBytesCount() const { return n_; }
};

class InputStreamAdapter
{
    std::istream* is_;
    ReaderError err_ = ReaderError::NoError;
public:
    InputStreamAdapter(std::istream& is) : is_(&is) {}
    void readBytes(unsigned char* d, std::size_t n)
    {
        auto got = static_cast<std::size_t>(is_->rdbuf()->sgetn(reinterpret_cast<char*>(d), static_cast<std::streamsize>(n)));
        if (got != n || err_ != ReaderError::NoError) {
            if (n) *d = 0;
            error(is_->bad() ? ReaderError::ReadingError : ReaderError::DataOverflow);
        }
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const
    {
        return err_ == ReaderError::NoError && is_->rdbuf()->sgetc() == std::char_traits<char>::eof();
    }
};
using OutputBufferedStreamAdapter = OutputStreamAdapter;
}
