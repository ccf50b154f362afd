#ifndef SHIM_SER4CPP_BUFFER_H
#define SHIM_SER4CPP_BUFFER_H
#include <memory>
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
class Buffer
{
public:
    Buffer() = default;
    explicit Buffer(size_t length) : m_data(new uint8_t[length]()), m_length(length) {}
    explicit Buffer(const rseq_t& input) : Buffer(input.length())
    {
        if(m_length != 0) std::memcpy(m_data.get(), static_cast<const uint8_t*>(input), m_length);
    }
    Buffer(const Buffer&) = delete;
    Buffer& operator=(const Buffer&) = delete;
    virtual ~Buffer() = default;
    size_t length() const { return m_length; }
    rseq_t as_rslice() const { return rseq_t(m_data.get(), m_length); }
    wseq_t as_wslice() { return wseq_t(m_data.get(), m_length); }
    const uint8_t* operator()() const { return m_data.get(); }
    uint8_t& operator[](size_t i) { return m_data[i]; }
    const uint8_t& operator[](size_t i) const { return m_data[i]; }
private:
    std::unique_ptr<uint8_t[]> m_data;
    size_t m_length = 0;
};
} // namespace ser4cpp
#endif
