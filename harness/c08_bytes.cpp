// C08: buffered byte reader/writer against a reference stream, for every fragmentation and fault.
#include "common.hpp"
#include <sps_io_bytes.hpp>
using namespace sps;

static std::string stream(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char) (i * 37 + 11); return s; }

// All sequences of acquire(n) followed by consuming j <= n bytes, over small windows.
static void reader(int depth, int maxcap) {
    quiet();
    int cap = 2 + mc::choose(maxcap - 1, "window");
    bool rew = mc::flip("rewindable");
    int total = 12;
    std::string s = stream(total);
    auto r = std::make_shared<ScriptReader>(s, 777);
    int faults = 1;
    r->cut = [](size_t max) { return 1 + (size_t) mc::choose((int) std::min<size_t>(max, 3), "read returns") ; };
    r->fault = [&faults]() -> int { if (faults > 0 && mc::flip("transient read error")) { --faults; return 555; } return 0; };
    auto buf = std::make_shared<AVBuffer>(cap, rew);
    BytesReader rd(r, buf);
    size_t pos = 0;      // consumed
    for (int k = 0; k < depth; ++k) {
        int n = 1 + mc::choose(4, "acquire");
        size_t have = rd.size();
        size_t fed = r->at;
        MC_CHECK(have == fed - pos, "buffered %zu bytes, must be %zu", have, fed - pos);
        mc::step();
        error_t e = rd.acquire(n);
        mc::note("window %d%s pos %zu: acquire(%d) -> %d, buffered %zu", cap, rew ? " rewindable" : "", pos, n, e, rd.size());
        // bytes read from the source are never lost
        MC_CHECK(rd.size() == r->at - pos, "after acquire %zu bytes buffered, must be %zu", rd.size(), r->at - pos);
        MC_CHECK(rd.size() <= (size_t) cap, "more than the window buffered");
        MC_CHECK(!memcmp(rd.pos(), s.data() + pos, rd.size()), "buffered bytes are not the stream at offset %zu", pos);
        size_t room = rew ? cap : cap - pos;   // without rewind the window only moves forward
        if ((size_t) n <= have) MC_CHECK(e == SUCCESS && r->at == fed, "acquire(%d) with %zu buffered: %d", n, have, e);
        else if ((size_t) n > room) MC_CHECK(e != SUCCESS && r->at == fed, "acquire(%d) beyond the window: %d", n, e);
        else if (e == SUCCESS) MC_CHECK(rd.size() >= (size_t) n, "acquire(%d) succeeded with %zu", n, rd.size());
        else MC_CHECK(e == 555 || (e == 777 && r->at == s.size()), "acquire(%d) failed with %d", n, e);
        mc::validated();
        mc::state(((cap * 2 + rew) * 64 + pos) * 64 + rd.size() + e * 100003ULL);
        if (e != SUCCESS) { if (e == 555) continue; break; }
        mc::nontrivial();
        // consume
        auto ref = [&](int j) { uint32_t v = 0; for (int i = 0; i < j; ++i) v = v << 8 | (uint8_t) s[pos + i]; return v; };
        int op = mc::choose(3, "consume");
        if (op == 0) {
            uint32_t want = ref(n), got = n == 1 ? rd.read_int8() : n == 2 ? rd.read_int16() : n == 3 ? rd.read_int24() : rd.read_int32();
            MC_CHECK(got == want, "integer of %d bytes read as %x, must be %x", n, got, want);
            pos += n;
        } else if (op == 1) {
            uint8_t t[8] = {}; int j = 1 + mc::choose(n, "bytes");
            rd.read_bytes(t, j);
            MC_CHECK(!memcmp(t, s.data() + pos, j), "read_bytes differs");
            pos += j;
        } else { int j = mc::choose(n, "skip"); rd.skip_bytes(j); pos += j; }
    }
}
static void writer() {
    quiet();
    int cap = 1 + mc::choose(12, "capacity");
    std::vector<uint8_t> mem(cap, 0xee);
    auto w = BytesWriter::create_writer(mem.data(), cap);
    std::string want;
    for (int k = 0; k < 4; ++k) {
        static const uint32_t vals[] = {0, 0x01020304, 0xfffefdfc, 0x80008001};
        int op = mc::choose(6, "op");
        int need = op <= 3 ? op + 1 : 2;
        error_t e = w->acquire(need);
        bool fits = want.size() + need <= (size_t) cap;
        MC_CHECK((e == SUCCESS) == fits, "room for %d of %zu/%d: %d", need, want.size(), cap, e);
        if (!fits) break;
        mc::step();
        if (op <= 3) {
            uint32_t v = mc::pick(vals, "value"); if (op < 3) v &= (1u << (8 * (op + 1))) - 1;
            if (op == 0) w->write_int8(v); else if (op == 1) w->write_int16(v); else if (op == 2) w->write_int24(v); else w->write_int32(v);
            want += be(v, need);
        } else if (op == 4) { uint8_t b[2] = {0xaa, 0x55}; w->write_bytes(b, 2); want += "\xaa\x55"; }
        else { w->skip(2); want += "\xee\xee"; }
        MC_CHECK(!memcmp(mem.data(), want.data(), want.size()), "written %s, must be %s", mc::hex(mem.data(), want.size()).c_str(), mc::hex(want).c_str());
        mc::validated();
        mc::nontrivial();
    }
    mc::state(mc::hash_str(want, cap));
}
static void fixed() {   // reader over a fixed memory block: never beyond its end
    quiet();
    int n = mc::choose(9, "block");
    std::unique_ptr<uint8_t[]> mem(new uint8_t[n ? n : 1]);
    for (int i = 0; i < n; ++i) mem[i] = i * 5 + 1;
    auto r = BytesReader::create_reader(mem.get(), n);
    int pos = 0;
    for (int k = 0; k < 4; ++k) {
        int w = 1 + mc::choose(5, "want");
        error_t e = r->acquire(w);
        mc::step();
        MC_CHECK((e == SUCCESS) == (pos + w <= n), "acquire(%d) at %d of %d: %d", w, pos, n, e);
        MC_CHECK(r->size() == (size_t) (n - pos), "size %zu at %d of %d", r->size(), pos, n);
        if (e != SUCCESS) continue;
        mc::nontrivial(); mc::validated();
        for (int i = 0; i < w; ++i) { uint8_t b = r->read_int8(); MC_CHECK(b == (uint8_t) (pos * 5 + 1), "byte %d is %02x", pos, b); ++pos; }
    }
    mc::state(n * 100 + pos);
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C08", {
        {"reader", t ? "4 acquire/consume rounds, windows 2-6, reads of 1-3 bytes, one transient error anywhere"
                     : "3 acquire/consume rounds, windows 2-6, reads of 1-3 bytes, one transient error anywhere", [t] { reader(t ? 4 : 3, 6); }, 4},
        {"writer", "4 writes of every width into 1-12 byte buffers", writer},
        {"memory-block", "4 acquire/consume rounds on 0-8 byte blocks", fixed},
    });
}
