// Stand-in for the ser4cpp dependency, which is not available offline: the API /repo uses, nothing more.
#ifndef SHIM_SER4CPP_SEQUENCETYPES_H
#define SHIM_SER4CPP_SEQUENCETYPES_H
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ser4cpp
{
class rseq_t
{
public:
    static rseq_t empty() { return rseq_t(nullptr, 0); }
    rseq_t() = default;
    rseq_t(const uint8_t* buffer, size_t length) : m_buffer(buffer), m_length(length) {}
    size_t length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }
    void make_empty() { m_buffer = nullptr; m_length = 0; }
    rseq_t take(size_t count) const { return rseq_t(m_buffer, count < m_length ? count : m_length); }
    rseq_t skip(size_t count) const
    {
        auto num = count < m_length ? count : m_length;
        return rseq_t(m_buffer + num, m_length - num);
    }
    void advance(size_t count)
    {
        auto num = count < m_length ? count : m_length;
        m_buffer += num;
        m_length -= num;
    }
    operator const uint8_t*() const { return m_buffer; }
    bool equals(const rseq_t& rhs) const
    {
        return m_length == rhs.m_length && (m_length == 0 || std::memcmp(m_buffer, rhs.m_buffer, m_length) == 0);
    }
private:
    const uint8_t* m_buffer = nullptr;
    size_t m_length = 0;
};
class wseq_t
{
public:
    static wseq_t empty() { return wseq_t(); }
    wseq_t() = default;
    wseq_t(uint8_t* buffer, size_t length) : m_buffer(buffer), m_length(length) {}
    size_t length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }
    void make_empty() { m_buffer = nullptr; m_length = 0; }
    void set_all_to(uint8_t value) { std::memset(m_buffer, value, m_length); }
    bool put(uint8_t value)
    {
        if(m_length == 0) return false;
        *m_buffer = value;
        ++m_buffer; --m_length;
        return true;
    }
    size_t advance(size_t count)
    {
        auto num = count < m_length ? count : m_length;
        m_buffer += num;
        m_length -= num;
        return num;
    }
    wseq_t skip(size_t count) const
    {
        auto num = count < m_length ? count : m_length;
        return wseq_t(m_buffer + num, m_length - num);
    }
    wseq_t take(size_t count) const { return wseq_t(m_buffer, count < m_length ? count : m_length); }
    rseq_t readonly() const { return rseq_t(m_buffer, m_length); }
    rseq_t copy_from(const rseq_t& data)
    {
        if(data.length() > m_length) return rseq_t::empty();
        rseq_t result(m_buffer, data.length());
        if(data.length() != 0) std::memmove(m_buffer, static_cast<const uint8_t*>(data), data.length());
        advance(data.length());
        return result;
    }
    operator uint8_t*() { return m_buffer; }
    operator const uint8_t*() const { return m_buffer; }
private:
    uint8_t* m_buffer = nullptr;
    size_t m_length = 0;
};
} // namespace ser4cpp
#endif
