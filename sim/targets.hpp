// Simulated stream buffers, C streams and allocators: what the library's own
// destinations write to.
#pragma once
#include "dest.hpp"
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/to_string.hpp>
#include <streambuf>
#include <cstdio>
#include <cerrno>
#include <unistd.h>

namespace sim {

// ------------------------------------------------------------ streambuf ---
template <class C>
class SimStreambuf final : public std::basic_streambuf<C> {
    using traits = std::char_traits<C>;
public:
    // how: 0 whole sputn calls, 1 character by character through overflow(),
    //      2 through a put area of a few characters
    enum { f_none, f_refuse, f_throw };
    SimStreambuf(int how, size_t area, int fault, size_t fault_at, bool transient)
        : how_(how), fault_(fault), at_(fault_at), transient_(transient)
    {
        if (how_ == 2) { area_.resize(area); this->setp(area_.data(), area_.data() + area); }
    }
    Text<C> taken() { InSim g; Text<C> t = got_; if (how_ == 2) t.insert(t.end(), this->pbase(), this->pptr()); return t; }
    int faults = 0;            // how often the fault fired
    uint64_t calls = 0;
    size_t calls_after_fault = 0;
    int throw_id = 0;
private:
    // takes one character or reports the fault
    bool take(C c)
    {
        if (fault_ != f_none && got_.size() >= at_ && !(transient_ && faults)) {
            ++faults;
            if (fault_ == f_throw) { SIM_COUNT("fault.streambuf_throws"); throw SimError{throw_id}; }
            SIM_COUNT("fault.streambuf_refuses");
            return false;
        }
        got_.push_back(c);
        return true;
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override
    {
        ++calls; if (faults) ++calls_after_fault;
        if (how_ != 0) return std::basic_streambuf<C>::xsputn(s, n);
        InSim g;
        std::streamsize k = 0;
        while (k < n && take(s[k])) ++k;
        return k;
    }
    typename traits::int_type overflow(typename traits::int_type ch) override
    {
        InSim g;
        if (how_ == 2) {                      // empty the put area
            size_t n = (size_t)(this->pptr() - this->pbase()), i = 0;
            const C* b = this->pbase();
            bool ok = true;
            auto settle = [&] {
                std::copy(b + i, b + n, area_.data());
                this->setp(area_.data(), area_.data() + area_.size());
                this->pbump((int)(n - i));
            };
            try { for (; i < n && ok; ++i) ok = take(b[i]); }
            catch (...) { settle(); throw; }
            if (!ok) --i;
            settle();
            if (!ok) return traits::eof();
            if (area_.empty()) { if (!take((C)ch)) return traits::eof(); return ch; }
            if (!traits::eq_int_type(ch, traits::eof())) { *this->pptr() = traits::to_char_type(ch); this->pbump(1); }
            return traits::not_eof(ch);
        }
        return take(traits::to_char_type(ch)) ? ch : traits::eof();
    }
    // Nothing the library promises depends on flushing the stream: a stream
    // that cannot be flushed has still received the characters.
    int sync() override { SIM_COUNT("fault.streambuf_sync_refused"); return -1; }
    int how_, fault_; size_t at_; bool transient_;
    Text<C> got_;
    std::vector<C> area_;
};

// ------------------------------------------------------------- C stream ---
struct SimFile {
    // bytes the device takes before it fails; -1: never
    int64_t fail_at = -1;
    bool transient = false;    // fails once, takes data again afterwards
    std::string got;
    uint64_t calls = 0; int faults = 0; uint64_t calls_after_fault = 0;
    size_t max_chunk = 0;      // 0: takes whatever is offered
    FILE* f = nullptr;
    char* vbuf = nullptr;

    static ssize_t on_write(void* c, const char* p, size_t n)
    {
        InSim g;
        auto* s = static_cast<SimFile*>(c);
        ++s->calls; if (s->faults) ++s->calls_after_fault;
        size_t k = n;
        if (s->fail_at >= 0 && !(s->transient && s->faults)) {
            size_t room = s->got.size() >= (size_t)s->fail_at ? 0 : (size_t)s->fail_at - s->got.size();
            if (k > room) { k = room; ++s->faults; SIM_COUNT("fault.file_write_fails"); errno = ENOSPC; }
        }
        s->got.append(p, k);
        return (ssize_t)k;                    // short count or 0: error
    }
    // mode: _IONBF, _IOLBF or _IOFBF with a buffer of `size` bytes
    bool open(int mode, size_t size)
    {
        InSim g;
        cookie_io_functions_t io{nullptr, on_write, nullptr, nullptr};
        f = fopencookie(this, "w", io);
        if (!f) return false;
        if (mode != _IONBF && size) vbuf = static_cast<char*>(malloc(size));
        setvbuf(f, vbuf, mode, mode == _IONBF ? 0 : size);
        return true;
    }
    int close() { InSim g; int x = f ? fclose(f) : 0; f = nullptr; free(vbuf); vbuf = nullptr; return x; }
    ~SimFile() { close(); }
};

} // namespace sim
