// Stand-in for ser4cpp's sequence views (github.com/automatak/ser4cpp), which is not
// installed here. Written from its documented API; see DESIGN.md "Stand-ins".
#ifndef SER4CPP_SEQUENCETYPES_H
#define SER4CPP_SEQUENCETYPES_H

#include <cstddef>
#include <cstdint>
#include <cstring>

namespace ser4cpp
{

template <class L>
class HasLength
{
public:
    inline L length() const { return m_length; }
    inline bool is_empty() const { return m_length == 0; }
    inline bool is_not_empty() const { return m_length != 0; }

protected:
    explicit HasLength(L length) : m_length(length) {}
    L m_length;
};

template <class L>
class RSeq : public HasLength<L>
{
public:
    static RSeq empty() { return RSeq(nullptr, 0); }

    RSeq() : HasLength<L>(0) {}
    RSeq(uint8_t const* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    void make_empty()
    {
        m_buffer = nullptr;
        this->m_length = 0;
    }

    template <class U>
    RSeq<U> widen() const { return RSeq<U>(m_buffer, this->m_length); }

    RSeq take(L count) const
    {
        return RSeq(m_buffer, (this->m_length < count) ? this->m_length : count);
    }

    RSeq skip(L count) const
    {
        const L num = (this->m_length < count) ? this->m_length : count;
        return RSeq(m_buffer + num, this->m_length - num);
    }

    void advance(L count)
    {
        const L num = (this->m_length < count) ? this->m_length : count;
        m_buffer += num;
        this->m_length -= num;
    }

    operator uint8_t const*() const { return m_buffer; }

    bool equals(const RSeq& rhs) const
    {
        if(this->m_length != rhs.m_length) return false;
        return this->m_length == 0 || std::memcmp(m_buffer, rhs.m_buffer, this->m_length) == 0;
    }

private:
    uint8_t const* m_buffer = nullptr;
};

template <class L>
class WSeq : public HasLength<L>
{
public:
    static WSeq empty() { return WSeq(nullptr, 0); }

    WSeq() : HasLength<L>(0) {}
    WSeq(uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    void set_all_to(uint8_t value)
    {
        if(this->m_length) std::memset(m_buffer, value, this->m_length);
    }

    void make_empty()
    {
        m_buffer = nullptr;
        this->m_length = 0;
    }

    L advance(L count)
    {
        const L num = (this->m_length < count) ? this->m_length : count;
        m_buffer += num;
        this->m_length -= num;
        return num;
    }

    WSeq skip(L count) const
    {
        const L num = (this->m_length < count) ? this->m_length : count;
        return WSeq(m_buffer + num, this->m_length - num);
    }

    WSeq take(L count) const
    {
        return WSeq(m_buffer, (this->m_length < count) ? this->m_length : count);
    }

    bool put(uint8_t value)
    {
        if(this->m_length == 0) return false;
        m_buffer[0] = value;
        advance(1);
        return true;
    }

    RSeq<L> readonly() const { return RSeq<L>(m_buffer, this->m_length); }

    // Copies the whole of src, or nothing when it does not fit.
    RSeq<L> copy_from(const RSeq<L>& src)
    {
        if(src.length() > this->m_length) return RSeq<L>::empty();
        const RSeq<L> result(m_buffer, src.length());
        if(src.length()) std::memcpy(m_buffer, static_cast<uint8_t const*>(src), src.length());
        advance(src.length());
        return result;
    }

    RSeq<L> move_from(const RSeq<L>& src)
    {
        if(src.length() > this->m_length) return RSeq<L>::empty();
        const RSeq<L> result(m_buffer, src.length());
        if(src.length()) std::memmove(m_buffer, static_cast<uint8_t const*>(src), src.length());
        advance(src.length());
        return result;
    }

    operator uint8_t*() { return m_buffer; }
    operator uint8_t const*() const { return m_buffer; }

private:
    uint8_t* m_buffer = nullptr;
};

using rseq_t = RSeq<size_t>;
using wseq_t = WSeq<size_t>;
using rseq32_t = RSeq<uint32_t>;
using wseq32_t = WSeq<uint32_t>;

} // namespace ser4cpp

#endif
