#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdarg>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <mc.hpp>
#include <fakest.hpp>

#include <sps_io.hpp>
#include <sps_log.hpp>

// Replaces the console logger: formats every message (so wrong arguments are
// still exercised under the sanitizer) and drops it.
class QuietLog : public sps::ILog {
 public:
    void printf(sps::LOG_LEVEL, const char* fmt, ...) override {
        char buf[4096];
        va_list ap; va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (mc::replaying) fprintf(stderr, "      log: %s", buf);
    }
};
inline void quiet() { static QuietLog q; sps::log = &q; }

// A reader that delivers a fixed byte string in segments chosen by the explorer,
// then an error. mode: how each read is cut.
class ScriptReader : public sps::IReaderWriter {
 public:
    std::string data;
    size_t at = 0;
    int end_error;
    // returns how many bytes (1..max) to hand out
    std::function<size_t(size_t max)> cut;
    // returns nonzero to fail this read with that error (data stays)
    std::function<int()> fault;
    std::string written;
    std::function<int(size_t)> wfault;
    int reads = 0;
    explicit ScriptReader(std::string d, int err = 9999) : data(std::move(d)), end_error(err) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override {
        size_t n = 0;
        while (n < size) {
            size_t k = 0;
            error_t r = read((char*) buf + n, size - n, k);
            if (r != SUCCESS) { if (nread) *nread = n; return r; }
            n += k;
        }
        if (nread) *nread = n;
        return SUCCESS;
    }
    error_t read(void* buf, size_t size, size_t& nread) override {
        mc::step();
        if (++reads > 200000) mc::fail("reader polled forever");
        if (fault) { int e = fault(); if (e) return e; }
        if (size == 0) return ERROR_IO_BUFFER_FULL;
        if (at >= data.size()) return end_error;
        size_t max = std::min(size, data.size() - at);
        size_t n = cut ? cut(max) : max;
        if (n < 1) n = 1;
        if (n > max) n = max;
        memcpy(buf, data.data() + at, n);
        at += n;
        nread = n;
        return SUCCESS;
    }
    error_t write(void* buf, size_t size) override {
        mc::step();
        if (wfault) { int e = wfault(size); if (e) return e; }
        written.append((char*) buf, size);
        return SUCCESS;
    }
};
typedef std::shared_ptr<ScriptReader> PScriptReader;

inline std::string be(uint64_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; --i) s += (char) (v >> (8 * i));
    return s;
}
#endif
