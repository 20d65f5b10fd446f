// Stand-in for ser4cpp's big-endian integers; see DESIGN.md "Stand-ins".
#ifndef SER4CPP_BIGENDIAN_H
#define SER4CPP_BIGENDIAN_H

#include "ser4cpp/container/SequenceTypes.h"

#include <type_traits>

namespace ser4cpp
{

template <class T>
class BigEndianInteger
{
public:
    using type_t = T;
    static constexpr size_t size = sizeof(T);

    static bool write_to(wseq_t& dest, T value)
    {
        if(dest.length() < size) return false;
        write(dest, value);
        dest.advance(size);
        return true;
    }

    static bool read_from(rseq_t& input, T& out)
    {
        if(input.length() < size) return false;
        out = read(input);
        input.advance(size);
        return true;
    }

    static T read(const uint8_t* data)
    {
        using U = typename std::make_unsigned<T>::type;
        U result = 0;
        for(size_t i = 0; i < size; ++i)
        {
            result = static_cast<U>((static_cast<uint64_t>(result) << 8) | data[i]);
        }
        return static_cast<T>(result);
    }

    static void write(uint8_t* data, T value)
    {
        using U = typename std::make_unsigned<T>::type;
        const auto raw = static_cast<U>(value);
        for(size_t i = 0; i < size; ++i)
        {
            data[i] = static_cast<uint8_t>(raw >> (8 * (size - 1 - i)));
        }
    }
};

using UInt8 = BigEndianInteger<uint8_t>;
using UInt16 = BigEndianInteger<uint16_t>;
using UInt32 = BigEndianInteger<uint32_t>;
using UInt64 = BigEndianInteger<uint64_t>;
using Int16 = BigEndianInteger<int16_t>;
using Int32 = BigEndianInteger<int32_t>;
using Int64 = BigEndianInteger<int64_t>;

namespace big_endian
{
using UInt8 = ser4cpp::UInt8;
using UInt16 = ser4cpp::UInt16;
using UInt32 = ser4cpp::UInt32;
}

} // namespace ser4cpp

#endif
