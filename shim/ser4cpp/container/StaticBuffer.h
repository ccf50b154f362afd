#ifndef SHIM_SER4CPP_STATICBUFFER_H
#define SHIM_SER4CPP_STATICBUFFER_H
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
template <size_t LENGTH> class StaticBuffer
{
public:
    StaticBuffer() {}
    rseq_t as_seq() const { return rseq_t(m_data, LENGTH); }
    rseq_t as_seq(size_t max_size) const { return as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t(m_data, LENGTH); }
    wseq_t as_wseq(size_t max_size) { return as_wseq().take(max_size); }
private:
    uint8_t m_data[LENGTH] = {0};
};
} // namespace ser4cpp
#endif
