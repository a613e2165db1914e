// C09: bit fields written are read back, against a reference bit string.
#include "common.hpp"
#include <sps_io_bits.hpp>
using namespace sps;

static std::vector<bool> bits_of(const uint8_t* p, size_t n) { std::vector<bool> b; for (size_t i = 0; i < n * 8; ++i) b.push_back(p[i / 8] >> (7 - i % 8) & 1); return b; }

static uint64_t pattern(int w, int k, int& count) {
    // 0, all ones, walking one, walking zero, two alternations
    uint64_t full = w == 64 ? ~0ULL : (1ULL << w) - 1;
    count = 4 + 2 * w;
    if (k == 0) return 0;
    if (k == 1) return full;
    if (k == 2) return 0xaaaaaaaaaaaaaaaaULL & full;
    if (k == 3) return 0x5555555555555555ULL & full;
    k -= 4;
    if (k < w) return 1ULL << k;
    return full & ~(1ULL << (k - w));
}
// fields of every width after every misalignment, then a trailer
static void fields(int n, int maxw) {
    quiet();
    int off = mc::choose(8, "misalignment");
    std::vector<int> w; std::vector<uint64_t> v;
    if (off) { w.push_back(off); v.push_back(mc::flip("prefix ones") ? (1 << off) - 1 : 0); }
    for (int i = 0; i < n; ++i) {
        int x = 1 + mc::choose(maxw, "width"), cnt;
        pattern(x, 0, cnt);
        // the first field gets every pattern, later ones a few
        int k = i == 0 ? mc::choose(cnt, "value") : mc::choose(4, "value");
        w.push_back(x); v.push_back(pattern(x, k, cnt));
    }
    w.push_back(5); v.push_back(0x15);
    int total = 0; for (int x : w) total += x;
    if (total % 8) { w.push_back(8 - total % 8); v.push_back(0); total += 8 - total % 8; }
    size_t nb = total / 8;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[nb]);
    memset(mem.get(), 0xff, nb);       // old contents must not show through
    BitContext wr(mem.get(), nb);
    std::vector<bool> ref;
    for (size_t i = 0; i < w.size(); ++i) {
        mc::step();
        if (w[i] == 8 && mc::replaying) mc::note("write 8");
        wr.write_bits(v[i], w[i]);
        for (int b = w[i] - 1; b >= 0; --b) ref.push_back(v[i] >> b & 1);
    }
    MC_CHECK(bits_of(mem.get(), nb) == ref, "writing a %d-bit field (value %llx) after %d bits gives %s", w[off ? 1 : 0], (unsigned long long) v[off ? 1 : 0], off, mc::hex(mem.get(), nb).c_str());
    BitContext rd(mem.get(), nb);
    size_t used = 0;
    for (size_t i = 0; i < w.size(); ++i) {
        MC_CHECK(rd.size_bits() == total - used, "after %zu bits %zu are left, must be %zu", used, rd.size_bits(), total - used);
        MC_CHECK(rd.size() == (total - used) / 8, "byte size");
        MC_CHECK((rd.acquire_bits(total - used) == SUCCESS) && rd.acquire_bits(total - used + 1) != SUCCESS, "availability after %zu bits", used);
        uint32_t got = rd.read_bits(w[i]);
        mc::step();
        MC_CHECK(got == (uint32_t) v[i], "a %d-bit field at bit %zu reads %x, must be %llx", w[i], used, got, (unsigned long long) v[i]);
        used += w[i];
        mc::validated();
    }
    mc::nontrivial();
    mc::state(mc::hash_bytes(mem.get(), nb, off));
}
// fields wider than 32 bits (time bases, clocks): written in one piece, read in two
static void wide() {
    quiet();
    int off = mc::choose(8, "misalignment"), w = 33 + mc::choose(32, "width"), cnt; pattern(w, 0, cnt);
    uint64_t v = pattern(w, mc::choose(cnt, "value"), cnt), pre = mc::flip("prefix ones") ? (1 << off) - 1 : 0;
    size_t nb = (off + w + 5 + 7) / 8; int tail = nb * 8 - off - w;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[nb]);
    memset(mem.get(), 0xff, nb);
    BitContext wr(mem.get(), nb);
    std::vector<bool> ref;
    auto put = [&](uint64_t x, int n) { if (!n) return; wr.write_bits(x, n); for (int b = n - 1; b >= 0; --b) ref.push_back(x >> b & 1); mc::step(); };
    put(pre, off); put(v, w); put(0x15, tail);
    MC_CHECK(bits_of(mem.get(), nb) == ref, "writing a %d-bit field (value %llx) after %d bits gives %s", w, (unsigned long long) v, off, mc::hex(mem.get(), nb).c_str());
    int cut = 1 + mc::choose(32, "cut"); if (w - cut > 32) return;
    BitContext rd(mem.get(), nb);
    if (off) MC_CHECK(rd.read_bits(off) == pre, "prefix");
    uint64_t hi = rd.read_bits(cut), lo = rd.read_bits(w - cut);
    MC_CHECK((hi << (w - cut) | lo) == v && rd.read_bits(tail) == 0x15u, "a %d-bit field at bit %d reads %llx, must be %llx", w, off, (unsigned long long) (hi << (w - cut) | lo), (unsigned long long) v);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_bytes(mem.get(), nb, off));
}
static void bytes() {   // whole-byte operations, skips, positions
    quiet();
    const int N = 12;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[N]);
    for (int i = 0; i < N; ++i) mem[i] = i * 29 + 3;
    BitContext rd(mem.get(), N);
    int pos = 0;     // in bits
    auto ref = [&](int n) { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 1 | (mem[(pos + i) / 8] >> (7 - (pos + i) % 8) & 1); return x; };
    for (int k = 0; k < 4; ++k) {
        int op = mc::choose(8, "op");
        int left = N * 8 - pos;
        mc::step();
        if (op <= 3) {
            int n = 8 * (op + 1); if (n > left) continue;
            uint32_t want = ref(n), got = op == 0 ? rd.read_int8() : op == 1 ? rd.read_int16() : op == 2 ? rd.read_int24() : rd.read_int32();
            MC_CHECK(got == want, "%d-bit integer at bit %d reads %x, must be %x", n, pos, got, want);
            pos += n;
        } else if (op == 4) {
            int n = 1 + mc::choose(7, "bits"); if (n > left) continue;
            uint32_t want = ref(n), got = rd.read_bits(n);
            MC_CHECK(got == want, "%d bits at bit %d read %x, must be %x", n, pos, got, want);
            pos += n;
        } else if (op == 5) {
            int n = 1 + mc::choose(3, "skip"); if (n * 8 > left) continue;
            rd.skip_read_bytes(n); pos += n * 8;
        } else if (op == 6) {
            if (pos % 8) continue;
            int n = 1 + mc::choose(3, "bytes"); if (n * 8 > left) continue;
            uint8_t t[4]; rd.read_bytes(t, n);
            MC_CHECK(!memcmp(t, mem.get() + pos / 8, n), "bytes at %d differ", pos / 8);
            pos += n * 8;
        } else {
            MC_CHECK(rd.pos() == mem.get() + pos / 8, "position is byte %ld, must be %d", (long) (rd.pos() - mem.get()), pos / 8);
        }
        MC_CHECK(rd.size_bits() == (size_t) (N * 8 - pos), "bits left %zu, must be %d", rd.size_bits(), N * 8 - pos);
        mc::validated(); mc::nontrivial();
    }
    mc::state(pos);
}
static void writes() {  // integers, bits, byte runs and gaps, over old contents
    quiet();
    const int N = 24;
    uint8_t old = mc::flip("old contents ones") ? 0xff : 0x5a;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[N]); memset(mem.get(), old, N);
    std::vector<int> ref(N * 8, -1);             // -1 untouched
    BitContext wr(mem.get(), N); int pos = 0;
    auto put = [&](uint64_t v, int n) { for (int b = n - 1; b >= 0; --b) ref[pos++] = v >> b & 1; };
    for (int k = 0; k < (mc::tier ? 5 : 4); ++k) {
        int op = mc::choose(7, "op"); mc::step();
        static const uint32_t vals[] = {0x81c37e5a, 0xffffffff, 0x00000000, 0x7f0180fe};
        uint32_t v = op < 5 ? mc::pick(vals, "value") : 0;
        switch (op) {
            case 0: wr.write_int8(v); put(v & 0xff, 8); break;
            case 1: wr.write_int16(v); put(v & 0xffff, 16); break;
            case 2: wr.write_int24(v); put(v & 0xffffff, 24); break;
            case 3: wr.write_int32(v); put(v, 32); break;
            case 4: { int n = 1 + mc::choose(7, "bits"); wr.write_bits(v, n); put(v & ((1u << n) - 1), n); break; }
            case 5: { if (pos % 8) break; uint8_t t[3] = {0x12, 0xff, 0x00}; int n = mc::choose(4, "bytes"); wr.write_bytes(t, n); for (int i = 0; i < n; ++i) put(t[i], 8); break; }
            default: { if (pos % 8) break; int n = mc::choose(3, "gap"); wr.skip_write_bytes(n); pos += 8 * n; break; }
        }
    }
    int last = (pos + 7) / 8;                    // the last byte begun is completed with zeros
    for (int i = 0; i < N * 8; ++i) {
        int got = mem[i / 8] >> (7 - i % 8) & 1, want = ref[i] >= 0 ? ref[i] : i / 8 < last && i >= pos ? 0 : old >> (7 - i % 8) & 1;
        MC_CHECK(got == want, "after %d bits written, bit %d is %d, must be %d", pos, i, got, want);
    }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_bytes(mem.get(), N, pos));
}
static void past_end() {   // reading beyond the end: no memory outside the block is touched, nothing is reported available
    quiet();
    int n = mc::choose(4, "block");
    std::unique_ptr<uint8_t[]> mem(new uint8_t[n]);
    for (int i = 0; i < n; ++i) mem[i] = 0xa5;
    BitContext rd(mem.get(), n);
    for (int k = 0; k < 3; ++k) {
        switch (mc::choose(3, "op")) {
            case 0: rd.read_bits(1 + mc::choose(17, "bits")); break;
            case 1: { int w = 1 + mc::choose(4, "bytes"); if (w == 1) rd.read_int8(); else if (w == 2) rd.read_int16(); else if (w == 3) rd.read_int24(); else rd.read_int32(); break; }
            default: rd.skip_read_bytes(mc::choose(6, "skip")); break;
        }
        mc::step();
        MC_CHECK(rd.size() <= (size_t) n, "%zu bytes left of a %d byte block", rd.size(), n);
        MC_CHECK(rd.acquire(n + 1) != SUCCESS, "more than the block is available");
    }
    mc::nontrivial(); mc::validated();
    mc::state(n * 1000 + rd.size_bits());
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C09", {
        {"two-fields", "all 8 misalignments x widths 1-32 x 0/ones/walking/alternating values, then every second width", [] { fields(2, 32); }, 3},
        {"three-fields", t ? "three fields, widths 1-17" : "three fields, widths 1-9", [t] { fields(3, t ? 17 : 9); }, 4},
        {"wide", "widths 33-64 after all 8 misalignments, 0/ones/walking/alternating values, read back in every pair of pieces", wide, 3},
        {"byte-operations", "all 4-step mixes of integer, bit, byte and skip reads", bytes},
        {"writes", "all mixes of 4 (thorough: 5) integer, bit, byte-run and gap writes over old contents", writes, 3},
        {"past-end", "all 3-step reads and skips over 0-3 byte blocks", past_end},
    });
}
