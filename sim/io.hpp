// A simulated storage device behind std::iostream: arbitrary chunking, errors at a chosen byte, a full device,
// truncation, no seeking, and faults reported by return value or by exception.
#pragma once
#include "sim.hpp"
#include <streambuf>
#include <vector>

namespace sim {

struct DevPlan {
    uint32_t chunk = 0;             // largest transfer per call to the device (0: unlimited)
    uint64_t write_fail_at = ~0ull; // byte offset at which writing starts to fail
    uint64_t writes_before_fail = ~0ull; // total bytes transferred (including rewrites) before failing
    uint64_t read_fail_at = ~0ull;  // byte offset at which reading fails
    bool by_exception = false;      // device errors throw from the stream buffer
    bool seekable = true;
    bool flush_fails = false;       // errors only show up when the data is flushed
    bool buffered = false;          // keeps data in a buffer until it is full or flushed
};

class Device : public std::streambuf {
    DevPlan m_p;
    std::vector<char>& m_data;
    size_t m_rpos = 0, m_wpos = 0;
    uint64_t m_written = 0;
    char m_rbuf[64];
    std::vector<char> m_pending;
    size_t m_pending_at = 0;
    bool m_failed = false;

    [[noreturn]] static void boom() { throw Injected{"device error"}; }
    bool put(const char* s, size_t n) // to the medium
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (m_wpos >= m_p.write_fail_at || m_written >= m_p.writes_before_fail)
            {
                m_failed = true;
                Pause p;
                count(m_p.write_fail_at != ~0ull ? "fault.device_full" : "fault.write_error");
                return false;
            }
            Pause p;
            if (m_wpos >= m_data.size())
                m_data.resize(m_wpos + 1);
            m_data[m_wpos++] = s[i];
            ++m_written;
        }
        return true;
    }
    bool drain()
    {
        if (m_pending.empty())
            return true;
        Pause p;
        std::vector<char> v;
        v.swap(m_pending);
        size_t keep = m_wpos;
        m_wpos = m_pending_at;
        bool ok = put(v.data(), v.size());
        (void)keep;
        return ok;
    }
    size_t wpos() const { return m_pending.empty() ? m_wpos : m_pending_at + m_pending.size(); }

protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (m_failed)
            return 0;
        if (m_p.buffered)
        {
            {
                Pause p;
                if (m_pending.empty())
                    m_pending_at = m_wpos;
                m_pending.insert(m_pending.end(), s, s + n);
            }
            if (m_pending.size() > 256 && !drain())
            {
                if (m_p.by_exception)
                    boom();
                return 0;
            }
            return n;
        }
        std::streamsize done = 0;
        while (done < n)
        {
            std::streamsize k = m_p.chunk ? std::min<std::streamsize>(n - done, 1 + (done * 7 + n) % m_p.chunk) : n - done;
            size_t before = m_wpos;
            if (!put(s + done, k))
            {
                if (m_p.by_exception)
                    boom();
                return done + (m_wpos - before);
            }
            done += k;
        }
        return done;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    int sync() override
    {
        if (m_failed || !drain() || m_p.flush_fails)
        {
            if (m_p.flush_fails)
            {
                Pause p;
                count("fault.flush_error");
            }
            return -1;
        }
        return 0;
    }
    int_type underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        size_t n = std::min(sizeof m_rbuf, m_data.size() - std::min(m_rpos, m_data.size()));
        if (m_p.chunk)
            n = std::min<size_t>(n, 1 + (m_rpos * 5 + 3) % m_p.chunk);
        if (m_p.read_fail_at != ~0ull)
        {
            if (m_rpos >= m_p.read_fail_at)
            {
                {
                    Pause p;
                    count("fault.read_error");
                }
                if (m_p.by_exception)
                    boom();
                return traits_type::eof();
            }
            n = std::min<size_t>(n, m_p.read_fail_at - m_rpos);
        }
        if (!n)
            return traits_type::eof();
        memcpy(m_rbuf, m_data.data() + m_rpos, n);
        m_rpos += n;
        setg(m_rbuf, m_rbuf, m_rbuf + n);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override
    {
        if (!m_p.seekable || m_failed)
            return pos_type(off_type(-1));
        if (which & std::ios_base::out)
        {
            if (!(off == 0 && dir == std::ios_base::cur)) // a real seek flushes
            {
                if (!drain())
                    return pos_type(off_type(-1));
                off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type)m_wpos : (off_type)m_data.size();
                if (base + off < 0)
                    return pos_type(off_type(-1));
                m_wpos = base + off;
            }
            return pos_type((off_type)wpos());
        }
        off_type cur = (off_type)m_rpos - (egptr() - gptr());
        off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? cur : (off_type)m_data.size();
        if (base + off < 0)
            return pos_type(off_type(-1));
        m_rpos = base + off;
        setg(m_rbuf, m_rbuf, m_rbuf);
        return pos_type((off_type)m_rpos);
    }
    pos_type seekpos(pos_type pos, std::ios_base::openmode which) override { return seekoff(off_type(pos), std::ios_base::beg, which); }

public:
    Device(std::vector<char>& data, const DevPlan& p) : m_p(p), m_data(data) {}
    bool device_failed() const { return m_failed; }
};

} // namespace sim
