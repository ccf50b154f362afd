#ifndef SHIM_SER4CPP_BIGENDIAN_H
#define SHIM_SER4CPP_BIGENDIAN_H
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
struct UInt8
{
    static bool read_from(rseq_t& input, uint8_t& out)
    {
        if(input.length() < 1) return false;
        out = static_cast<const uint8_t*>(input)[0];
        input.advance(1);
        return true;
    }
    static bool write_to(wseq_t& dest, uint8_t value) { return dest.put(value); }
};
struct UInt16
{
    static bool read_from(rseq_t& input, uint16_t& out)
    {
        if(input.length() < 2) return false;
        const uint8_t* p = input;
        out = static_cast<uint16_t>((static_cast<uint16_t>(p[0]) << 8) | p[1]);
        input.advance(2);
        return true;
    }
    static bool write_to(wseq_t& dest, uint16_t value)
    {
        if(dest.length() < 2) return false;
        dest.put(static_cast<uint8_t>(value >> 8));
        dest.put(static_cast<uint8_t>(value & 0xFF));
        return true;
    }
};
} // namespace ser4cpp
#endif
