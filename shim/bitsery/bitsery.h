// Stand-in for fraillt/bitsery 5.2 (not installed here, see DESIGN.md): the subset
// of the serializer interface that simfil uses, with bitsery's wire format
// (little-endian fixed-size values, 1/2/4-byte size prefixes) and its error
// model (first error sticks; a failed read yields a value whose first byte is zero
// and touches nothing else; no exceptions).
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace bitsery
{

enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };
struct DefaultConfig {};

namespace traits
{
template <class T, bool Resizable, bool Contiguous>
struct StdContainer
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static std::size_t size(const T& c) { return c.size(); }
    static void resize(T& c, std::size_t n) { c.resize(n); }
};
template <class T>
struct ContainerTraits
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = true;
    static constexpr bool isContiguous = false;
    static std::size_t size(const T& c) { return c.size(); }
    static void resize(T& c, std::size_t n) { c.resize(n); }
};
template <class T>
struct TextTraits
{
    using TValue = typename T::value_type;
    static constexpr bool addNUL = false;
    static std::size_t length(const T& s) { return s.size(); }
};
template <class Ext, class T>
struct ExtensionTraits { using TValue = void; };
}

class Access
{
public:
    template <class S, class T>
    static auto serialize(S& s, T& v) -> decltype(v.serialize(s)) { return v.serialize(s); }
    template <class T> static T create() { return T{}; }
};

namespace details
{
template <class S, class T, class = void>
struct HasMember : std::false_type {};
template <class S, class T>
struct HasMember<S, T, std::void_t<decltype(Access::serialize(std::declval<S&>(), std::declval<T&>()))>> : std::true_type {};

template <class S, class T>
void serializeObject(S& s, T& v)
{
    if constexpr (HasMember<S, T>::value)
        Access::serialize(s, v);
    else
        serialize(s, v);
}
}

template <class Adapter, class Context = void>
class Serializer
{
    Adapter adapter_;
    template <std::size_t B, class T> void value(const T& v)
    {
        static_assert(sizeof(T) == B);
        unsigned char buf[B];
        std::memcpy(buf, &v, B); // host is little endian
        adapter_.writeBytes(buf, B);
    }
    void writeSize(std::size_t size)
    {
        auto byte = [&](std::size_t b) { unsigned char c = static_cast<unsigned char>(b); adapter_.writeBytes(&c, 1); };
        if (size < 0x80u) { byte(size); return; }
        if (size < 0x4000u) { byte((size >> 8) | 0x80u); byte(size); return; }
        assert(size < 0x40000000u);
        byte((size >> 24) | 0xC0u);
        byte(size >> 16);
        std::uint16_t low = static_cast<std::uint16_t>(size);
        value<2>(low);
    }
public:
    template <class... A>
    explicit Serializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }

    template <class T> void value1b(const T& v) { value<1>(v); }
    template <class T> void value2b(const T& v) { value<2>(v); }
    template <class T> void value4b(const T& v) { value<4>(v); }
    template <class T> void value8b(const T& v) { value<8>(v); }
    template <class T> void boolValue(const T& v) { unsigned char c = v ? 1 : 0; adapter_.writeBytes(&c, 1); }
    template <class T> void object(const T& v) { details::serializeObject(*this, const_cast<T&>(v)); }
    template <class T, class F> void object(const T& v, F&& f) { f(*this, const_cast<T&>(v)); }

    template <class T> void text1b(const T& s, std::size_t maxSize)
    {
        auto n = traits::TextTraits<T>::length(s);
        assert(n <= maxSize);
        (void)maxSize;
        writeSize(n);
        if (n) adapter_.writeBytes(reinterpret_cast<const unsigned char*>(s.data()), n);
    }
    template <class T> void text1b(const T& s) { text1b(s, std::numeric_limits<std::size_t>::max()); }

    template <class T> void container(const T& c, std::size_t maxSize)
    {
        auto n = traits::ContainerTraits<T>::size(c);
        assert(n <= maxSize);
        (void)maxSize;
        writeSize(n);
        for (auto& e : const_cast<T&>(c)) object(e);
    }
    template <class T, class F> void container(const T& c, std::size_t maxSize, F&& f)
    {
        auto n = traits::ContainerTraits<T>::size(c);
        assert(n <= maxSize);
        (void)maxSize;
        writeSize(n);
        for (auto& e : const_cast<T&>(c)) f(*this, e);
    }
#define SIMFIL_SHIM_CONT(B) \
    template <class T> void container##B##b(const T& c, std::size_t maxSize) \
    { container(c, maxSize, [](auto& s, auto& v) { s.value##B##b(v); }); }
    SIMFIL_SHIM_CONT(1) SIMFIL_SHIM_CONT(2) SIMFIL_SHIM_CONT(4) SIMFIL_SHIM_CONT(8)
#undef SIMFIL_SHIM_CONT

    template <class T, class Ext> void ext(const T& v, const Ext& e)
    {
        e.serialize(*this, v, [](Serializer& s, auto& x) { s.object(x); });
    }
    template <class T, class Ext, class F> void ext(const T& v, const Ext& e, F&& f) { e.serialize(*this, v, std::forward<F>(f)); }
#define SIMFIL_SHIM_EXT(B) \
    template <class T, class Ext> void ext##B##b(const T& v, const Ext& e) \
    { e.serialize(*this, v, [](Serializer& s, auto& x) { s.value##B##b(x); }); }
    SIMFIL_SHIM_EXT(1) SIMFIL_SHIM_EXT(2) SIMFIL_SHIM_EXT(4) SIMFIL_SHIM_EXT(8)
#undef SIMFIL_SHIM_EXT
};

template <class Adapter, class Context = void>
class Deserializer
{
    Adapter adapter_;
    template <std::size_t B, class T> void value(T& v)
    {
        static_assert(sizeof(T) == B);
        adapter_.readBytes(reinterpret_cast<unsigned char*>(&v), B);
    }
    void readSize(std::size_t& size, std::size_t maxSize)
    {
        std::uint8_t hb{};
        value<1>(hb);
        if (hb < 0x80u) size = hb;
        else {
            std::uint8_t lb{};
            value<1>(lb);
            if (hb & 0x40u) {
                std::uint16_t lw{};
                value<2>(lw);
                size = (((hb & 0x3Fu) << 8 | lb) << 16) | lw;
            } else
                size = (hb & 0x7Fu) << 8 | lb;
        }
        if (size > maxSize) {
            adapter_.error(ReaderError::InvalidData);
            size = 0;
        }
    }
public:
    template <class... A>
    explicit Deserializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }

    template <class T> void value1b(T& v) { value<1>(v); }
    template <class T> void value2b(T& v) { value<2>(v); }
    template <class T> void value4b(T& v) { value<4>(v); }
    template <class T> void value8b(T& v) { value<8>(v); }
    template <class T> void boolValue(T& v) { unsigned char c = 0; adapter_.readBytes(&c, 1); v = c == 1; }
    template <class T> void object(T& v) { details::serializeObject(*this, v); }
    template <class T, class F> void object(T& v, F&& f) { f(*this, v); }

    template <class T> void text1b(T& s, std::size_t maxSize)
    {
        std::size_t n = 0;
        readSize(n, maxSize);
        s.resize(n);
        if (n) adapter_.readBytes(reinterpret_cast<unsigned char*>(s.data()), n);
    }
    template <class T> void text1b(T& s) { text1b(s, std::numeric_limits<std::size_t>::max()); }
    template <class T> void container(T& c, std::size_t maxSize)
    {
        std::size_t n = 0;
        readSize(n, maxSize);
        traits::ContainerTraits<T>::resize(c, n);
        for (auto& e : c) object(e);
    }
    template <class T, class F> void container(T& c, std::size_t maxSize, F&& f)
    {
        std::size_t n = 0;
        readSize(n, maxSize);
        traits::ContainerTraits<T>::resize(c, n);
        for (auto& e : c) f(*this, e);
    }
#define SIMFIL_SHIM_CONT(B) \
    template <class T> void container##B##b(T& c, std::size_t maxSize) \
    { container(c, maxSize, [](auto& s, auto& v) { s.value##B##b(v); }); }
    SIMFIL_SHIM_CONT(1) SIMFIL_SHIM_CONT(2) SIMFIL_SHIM_CONT(4) SIMFIL_SHIM_CONT(8)
#undef SIMFIL_SHIM_CONT

    template <class T, class Ext> void ext(T& v, const Ext& e)
    {
        e.deserialize(*this, v, [](Deserializer& s, auto& x) { s.object(x); });
    }
    template <class T, class Ext, class F> void ext(T& v, const Ext& e, F&& f) { e.deserialize(*this, v, std::forward<F>(f)); }
#define SIMFIL_SHIM_EXT(B) \
    template <class T, class Ext> void ext##B##b(T& v, const Ext& e) \
    { e.deserialize(*this, v, [](Deserializer& s, auto& x) { s.value##B##b(x); }); }
    SIMFIL_SHIM_EXT(1) SIMFIL_SHIM_EXT(2) SIMFIL_SHIM_EXT(4) SIMFIL_SHIM_EXT(8)
#undef SIMFIL_SHIM_EXT
};

template <class OutputAdapter, class Buffer, class T>
std::size_t quickSerialization(Buffer& buffer, const T& v)
{
    Serializer<OutputAdapter> s(buffer);
    s.object(v);
    s.adapter().flush();
    return s.adapter().writtenBytesCount();
}
template <class InputAdapter, class T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& v)
{
    Deserializer<InputAdapter> d(std::move(adapter));
    d.object(v);
    return {d.adapter().error(), d.adapter().isCompletedSuccessfully()};
}

}
