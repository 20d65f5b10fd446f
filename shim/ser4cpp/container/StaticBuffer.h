// Stand-in for ser4cpp::StaticBuffer; see DESIGN.md "Stand-ins".
#ifndef SER4CPP_STATICBUFFER_H
#define SER4CPP_STATICBUFFER_H

#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

template <size_t LENGTH>
class StaticBuffer
{
public:
    StaticBuffer() = default;

    rseq_t as_seq() const { return rseq_t(m_buffer, LENGTH); }
    rseq_t as_seq(size_t max_size) const { return as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t(m_buffer, LENGTH); }
    wseq_t as_wseq(size_t max_size) { return as_wseq().take(max_size); }

    const uint8_t* operator()() const { return m_buffer; }
    uint8_t* operator()() { return m_buffer; }
    const uint8_t& operator[](size_t index) const { return m_buffer[index]; }
    uint8_t& operator[](size_t index) { return m_buffer[index]; }

    size_t length() const { return LENGTH; }

private:
    uint8_t m_buffer[LENGTH] = {0};
};

} // namespace ser4cpp

#endif
