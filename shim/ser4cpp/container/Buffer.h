// Stand-in for ser4cpp::Buffer; see DESIGN.md "Stand-ins".
#ifndef SER4CPP_BUFFER_H
#define SER4CPP_BUFFER_H

#include "ser4cpp/container/SequenceTypes.h"

#include <algorithm>
#include <memory>

namespace ser4cpp
{

class Buffer final : public HasLength<size_t>
{
public:
    Buffer() : HasLength<size_t>(0) {}
    explicit Buffer(size_t length) : HasLength<size_t>(length), m_bytes(new uint8_t[length]()) {}
    explicit Buffer(const rseq_t& input) : HasLength<size_t>(input.length()), m_bytes(new uint8_t[input.length()])
    {
        if(input.length()) std::memcpy(m_bytes.get(), static_cast<uint8_t const*>(input), input.length());
    }
    Buffer(Buffer&& rhs) noexcept : HasLength<size_t>(rhs.m_length), m_bytes(std::move(rhs.m_bytes)) { rhs.m_length = 0; }
    Buffer& operator=(Buffer&& rhs) noexcept
    {
        m_bytes = std::move(rhs.m_bytes);
        m_length = rhs.m_length;
        rhs.m_length = 0;
        return *this;
    }
    Buffer(const Buffer&) = delete;
    Buffer& operator=(const Buffer&) = delete;

    rseq_t as_rslice() const { return rseq_t(m_bytes.get(), m_length); }
    rseq_t as_rseq() const { return as_rslice(); }
    wseq_t as_wslice() { return wseq_t(m_bytes.get(), m_length); }
    wseq_t as_wseq() { return as_wslice(); }
    wseq_t as_wslice(size_t max_size) { return wseq_t(m_bytes.get(), std::min(max_size, m_length)); }

    const uint8_t* operator()() const { return m_bytes.get(); }
    uint8_t* operator()() { return m_bytes.get(); }

private:
    std::unique_ptr<uint8_t[]> m_bytes;
};

} // namespace ser4cpp

#endif
