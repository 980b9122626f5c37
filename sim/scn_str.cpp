// Scenario "str": bits through streams whose buffers misbehave.  (C10 C11)
// pipe=0: every client reads bits from its own faulty source.
// pipe=1: clients 2k (writer) and 2k+1 (reader) share a bounded pipe.
#include "core.hpp"
#include "str.hpp"
#include <algorithm>
#include <exception>
#include <memory>

namespace sim {
static const OpInfo OPS[] = {{"feed"}, {"fault"}, {"read"}, {"mask"}, {"skipws"}, {"clear"}, {"flags"},
    {"send"}, {"raw"}, {"sep"}, {"width"}, {"flush"}, {"stop"}, {"recv"}};
enum { S_FEED, S_FAULT, S_READ, S_MASK, S_SKIPWS, S_CLEAR, S_FLAGS, S_SEND, S_RAW, S_SEP, S_WIDTH, S_FLUSH, S_STOP, S_RECV, S_NUM };
static const char* const ARGN[NARGS] = {"c", "n", "k", "mode", "bit", "v", "u1", "u2", "u3", "u4"};
enum { a_c, a_n, a_k, a_mode, a_bit, a_v };
struct BufFault { int kind; };

static inline int64_t md(int64_t v, int64_t m) { if (m <= 0) return 0; v %= m; return v < 0 ? v + m : v; }

// ------------------------------------------------------------- faulty source
template <class Ch> struct Source : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; using I = typename T::int_type;
    using SB = std::basic_streambuf<Ch>; using SB::gptr; using SB::egptr;
    std::vector<Ch> chars; std::vector<std::pair<size_t, int>> faults; // position, 1 throw / 2 end of file
    int chunk = 0;      // 0: no get area, every character is asked for
    int pb = 0;         // putting back: 0 accept, 1 refuse, 2 throw
    size_t direct = 0, base = 0; std::vector<Ch> win;
    size_t pos() const { return chunk ? base + (size_t)(this->gptr() - win.data()) - 1 : direct; }
    bool pending(size_t p, int& kind, bool pop) {
        for (size_t i = 0; i < faults.size(); i++) if (faults[i].first == p) { kind = faults[i].second; if (pop) faults.erase(faults.begin() + (ptrdiff_t)i); return true; }
        return false;
    }
    void start() { win.assign((size_t)chunk + 1, Ch()); base = 0; if (chunk) this->setg(win.data() + 1, win.data() + 1, win.data() + 1); }
    I underflow() override {
        Quiet q; sched_point(*tl);
        size_t p = pos(); int k;
        if (chunk && this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (pending(p, k, true)) { if (k == 1) { probe("fault.source_threw"); throw BufFault{1}; } probe("fault.transient_eof"); return T::eof(); }
        if (p >= chars.size()) { probe("fault.end_of_source"); return T::eof(); }
        if (!chunk) return T::to_int_type(chars[p]);
        size_t n = std::min((size_t)chunk, chars.size() - p);
        for (auto& f : faults) if (f.first > p) n = std::min(n, f.first - p);
        if (p > 0) win[0] = chars[p - 1];
        std::copy(chars.begin() + (ptrdiff_t)p, chars.begin() + (ptrdiff_t)(p + n), win.begin() + 1);
        base = p;
        // putting back beyond the window goes through pbackfail
        this->setg(win.data() + (pb == 0 && p > 0 ? 0 : 1), win.data() + 1, win.data() + 1 + n);
        return T::to_int_type(win[1]);
    }
    I uflow() override {
        I c = underflow();
        if (T::eq_int_type(c, T::eof())) return c;
        if (chunk) this->gbump(1); else direct++;
        return c;
    }
    I pbackfail(I c) override {
        Quiet q; sched_point(*tl);
        if (pb == 1) { probe("fault.putback_refused"); return T::eof(); }
        if (pb == 2) { probe("fault.putback_threw"); throw BufFault{2}; }
        size_t p = pos();
        if (!p) return T::eof();
        if (!T::eq_int_type(c, T::eof())) chars[p - 1] = T::to_char_type(c);
        if (chunk) { if (this->gptr() == win.data()) return T::eof(); this->gbump(-1); *this->gptr() = chars[p - 1]; } else direct--;
        probe("reach.putback_through_pbackfail");
        return T::to_int_type(chars[p - 1]);
    }
};

// -------------------------------------------------------------- bounded pipe
template <class Ch> struct Pipe {
    std::vector<Ch> q; size_t head = 0; size_t cap = 1; bool closed = false; int64_t fail_after = -1; int fail_kind = 0; int64_t taken = 0;
    size_t size() const { return q.size() - head; }
};
template <class Ch> struct Sink : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; using I = typename T::int_type;
    using SB = std::basic_streambuf<Ch>; using SB::gptr; using SB::egptr;
    Pipe<Ch>* p = nullptr; std::vector<Ch> area;
    void start(int n) { area.assign((size_t)n, Ch()); if (n) this->setp(area.data(), area.data() + n); }
    bool push(Ch c) {
        sched_point(*tl);
        if (p->fail_after >= 0 && p->taken >= p->fail_after) { probe("fault.write_failed"); if (p->fail_kind) throw BufFault{3}; return false; }
        struct W { Pipe<Ch>* p; } w{p};
        if (p->size() >= p->cap) { probe("reach.writer_blocked"); block_until(*tl, [](void* v) { auto* x = ((W*)v)->p; return x->size() < x->cap; }, &w); }
        p->q.push_back(c); p->taken++; notify_all();
        return true;
    }
    bool drain() {
        Ch* b = this->pbase(); Ch* e = this->pptr();
        while (b < e) { Ch c = *b; if (!push(c)) break; b++; }
        ptrdiff_t left = e - b; std::copy(b, e, area.data()); this->setp(area.data(), area.data() + area.size()); this->pbump((int)left);
        return left == 0;
    }
    I overflow(I c) override {
        Quiet q;
        if (!area.empty()) {
            if (this->pptr() == this->epptr() && !drain()) return T::eof();
            if (!T::eq_int_type(c, T::eof())) { *this->pptr() = T::to_char_type(c); this->pbump(1); }
            return T::not_eof(c);
        }
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        return push(T::to_char_type(c)) ? c : T::eof();
    }
    int sync() override { Quiet q; if (area.empty()) return 0; return drain() ? 0 : -1; }
};
template <class Ch> struct Tap : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; using I = typename T::int_type;
    using SB = std::basic_streambuf<Ch>; using SB::gptr; using SB::egptr;
    Pipe<Ch>* p = nullptr; size_t chunk = 1; Ch win[66]; int64_t fault_every = 0, calls = 0; int fault_kind = 0;
    bool faulted = false;
    void start() { this->setg(win + 1, win + 1, win + 1); }
    I underflow() override {
        Quiet q; sched_point(*tl);
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (fault_every > 0 && ++calls % fault_every == 0) { faulted = true; if (fault_kind) { probe("fault.transient_eof"); return T::eof(); } probe("fault.source_threw"); throw BufFault{4}; }
        if (!p->size() && !p->closed) { probe("reach.reader_blocked"); block_until(*tl, [](void* v) { auto* x = (Pipe<Ch>*)v; return x->size() || x->closed; }, p); }
        if (!p->size()) return T::eof();
        win[0] = this->gptr() > this->eback() ? this->gptr()[-1] : Ch();
        size_t n = std::min({chunk, p->size(), (size_t)64});
        for (size_t i = 0; i < n; i++) win[1 + i] = p->q[p->head + i];
        p->head += n; notify_all();
        this->setg(win, win + 1, win + 1 + n);
        return T::to_int_type(win[1]);
    }
};

struct Client10 {
    Source<char> sb; Source<wchar_t> wsb; std::unique_ptr<std::istream> is; std::unique_ptr<std::wistream> wis;
};
struct Link { // one pipe
    Pipe<char> p; Pipe<wchar_t> wp; Sink<char> sk; Sink<wchar_t> wsk; Tap<char> tp; Tap<wchar_t> wtp;
    std::unique_ptr<std::ostream> os; std::unique_ptr<std::wostream> wos; std::unique_ptr<std::istream> is; std::unique_ptr<std::wistream> wis;
    std::vector<int> sent, got; bool stopped = false, writer_done = false; bool reported = false; int64_t wbit = 0, rbit = 0; int buffered = 0;
    int maybe = -1; // a bit whose padding, not itself, could not be written
};
struct G { int wt, ws; int64_t D; bool pipe, wide; int64_t words[MAXC], base[MAXC]; uint8_t* mem; std::vector<uint8_t> model; int64_t total; };
static G g;
static std::unique_ptr<Client10> cl10[MAXC];
static std::unique_ptr<Link> link[MAXC / 2];

static void setup(const Plan& p) {
    g.wt = (int)(p.get("wt") & 3); g.ws = 1 << g.wt; g.D = 8 * g.ws; g.pipe = p.get("pipe") & 1; g.wide = p.get("wide") & 1;
    static const char* nm[MAXC] = {"sw0", "sw1", "sw2", "sw3"};
    int64_t pos = 0;
    for (int i = 0; i < R.nclients; i++) { int64_t w = md(p.get(nm[i], 2), 64); if (!w) w = 1; g.words[i] = w; g.base[i] = pos * g.D; pos += w; }
    g.total = pos * g.D; g.mem = alloc_array((size_t)(pos * g.ws), 0);
    uint64_t seed = (uint64_t)p.get("pseed", 1);
    for (int64_t i = 0; i < pos * g.ws; i++) g.mem[i] = (uint8_t)mix64(seed + (uint64_t)i);
    g.model.resize((size_t)g.total); load_bits(g.mem, 0, g.model.data(), g.total);
    for (int i = 0; i < MAXC; i++) cl10[i].reset();
    for (auto& l : link) l.reset();
    int chunk = (int)md(p.get("chunk"), 33), pb = (int)md(p.get("pb"), 3);
    if (!g.pipe) {
        for (int i = 0; i < R.nclients; i++) {
            auto c = std::make_unique<Client10>();
            c->sb.chunk = c->wsb.chunk = chunk; c->sb.pb = c->wsb.pb = pb; c->sb.start(); c->wsb.start();
            c->is = std::make_unique<std::istream>(&c->sb); c->wis = std::make_unique<std::wistream>(&c->wsb);
            cl10[i] = std::move(c);
        }
    } else {
        for (int i = 0; 2 * i + 1 < R.nclients; i++) {
            auto l = std::make_unique<Link>();
            l->p.cap = l->wp.cap = (size_t)(1 + md(p.get("cap") - 1, 64)); l->p.fail_after = l->wp.fail_after = p.get("wfail", -1); l->p.fail_kind = l->wp.fail_kind = (int)(p.get("wthrow") & 1);
            l->buffered = (int)md(p.get("wbuf"), 33);
            l->sk.p = &l->p; l->wsk.p = &l->wp; l->sk.start(l->buffered); l->wsk.start(l->buffered);
            l->tp.p = &l->p; l->wtp.p = &l->wp; l->tp.chunk = l->wtp.chunk = (size_t)(chunk < 1 ? 1 : chunk);
            l->tp.fault_every = l->wtp.fault_every = p.get("rfault") == 1 ? 2 : p.get("rfault"); l->tp.fault_kind = l->wtp.fault_kind = (int)(p.get("rkind") & 1);
            l->tp.start(); l->wtp.start();
            l->os = std::make_unique<std::ostream>(&l->sk); l->wos = std::make_unique<std::wostream>(&l->wsk);
            l->is = std::make_unique<std::istream>(&l->tp); l->wis = std::make_unique<std::wistream>(&l->wtp);
            link[i] = std::move(l);
        }
    }
}
static inline int rdbit(int64_t b) { return (g.mem[b >> 3] >> (b & 7)) & 1; }
static void grant_word(Client& c, int64_t bit, bool w) { grant(c, g.mem + bit / g.D * g.ws, (size_t)g.ws, w); }
static void flags(std::ios_base& s, int64_t v) {
    using B = std::ios_base;
    s.setf(v & 1 ? B::boolalpha : B::fmtflags(0), B::boolalpha); s.setf(v & 2 ? B::showbase : B::fmtflags(0), B::showbase);
    s.setf(v & 4 ? B::hex : v & 8 ? B::oct : B::dec, B::basefield); s.setf(v & 16 ? B::showpos : B::fmtflags(0), B::showpos);
    s.setf(v & 32 ? B::left : v & 64 ? B::internal : B::right, B::adjustfield);
}
static std::ios_base::iostate maskbits(int64_t m) {
    std::ios_base::iostate s = std::ios_base::goodbit;
    if (m & 1) s |= std::ios_base::failbit;
    if (m & 2) s |= std::ios_base::badbit;
    if (m & 4) s |= std::ios_base::eofbit;
    return s;
}
template <class S> static void setmask(S& s, int64_t m) { try { s.exceptions(maskbits(m)); } catch (...) {} }
static bool blank(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

// ------------------------------------------------------------- C10 execution
template <class Ch, class S, class B> static void one_read(int cl, const Op& op, S& is, B& sb) {
    Client& c = C[cl];
    using T = std::char_traits<Ch>;
    StrArgs a; a.wide = g.wide; a.is = cl10[cl]->is.get(); a.wis = cl10[cl]->wis.get(); a.mode = (int)md(op.a[a_mode], 3); a.base = g.mem;
    a.bit = g.base[cl] + md(op.a[a_bit], g.words[cl] * g.D); a.val = (int)(op.a[a_v] & 1);
    // what a reader is entitled to
    enum { PRE, BITV, WRONG, END, THROW } exp; size_t p = sb.pos(), q = p; int v = 0; int old = a.mode == 0 ? a.val : rdbit(a.bit);
    bool skip = (is.flags() & std::ios_base::skipws) != 0; Ch wrong = Ch();
    if (!is.good()) exp = PRE;
    else for (;;) {
        int k; size_t vis = q;
        if (sb.pending(vis, k, false) && !(sb.chunk && sb.gptr() < sb.egptr() && q < p + (size_t)(sb.egptr() - sb.gptr()))) { exp = k == 1 ? THROW : END; break; }
        if (q >= sb.chars.size()) { exp = END; break; }
        Ch ch = sb.chars[q];
        if (skip && T::to_int_type(ch) >= 0 && (long)ch <= 127 && (long)ch >= 0 && blank((int)ch)) { q++; continue; }
        if (ch == Ch('0') || ch == Ch('1')) { exp = BITV; v = ch == Ch('1'); } else { exp = WRONG; wrong = ch; }
        break;
    }
    op_begin(c, "read", 10);
    if (a.mode) grant_word(c, a.bit, true);
    hash_val((uint64_t)exp * 7 + (uint64_t)v);
    bool threw = false;
    c.in_op = true;
    try { lib_read_bit(g.wt, a); } catch (...) { c.in_op = false; threw = true; }
    op_end(c);
    auto st = is.rdstate(); size_t np = sb.pos(); int now = a.mode == 0 ? a.val : rdbit(a.bit);
    hash_val((uint64_t)(int)st * 4 + (uint64_t)threw * 2 + (uint64_t)now); hash_val(np);
    static const char* en[] = {"stream already failed", "bit character", "wrong character", "end of stream", "throwing buffer"};
    static const char* pr[] = {"reach.read_on_failed_stream", "reach.read_bit", "reach.read_wrong_character", "reach.read_end", "reach.read_throw"};
    probe(pr[exp]); if (threw) probe("reach.exception_to_caller");
    auto bad = [&](const char* cls, const char* what) {
        check_fail(10, cls, "%s: %s (state %d, mask %d, position %zu of %zu, expected from %zu, target %d was %d, mode %d, wide %d)", en[exp], what, (int)st, (int)is.exceptions(), np, sb.chars.size(), q, now, old, a.mode, (int)g.wide);
    };
    bool masked = (st & is.exceptions()) != 0;
    if (masked && !threw) bad("exception-lost", "the state calls for an exception but none reached the caller");
    if (!masked && threw) bad("exception-unasked", "an exception reached a caller who did not ask for it");
    if (exp == BITV) {
        if (st != std::ios_base::goodbit) bad("wrong-state", "the stream is not good after a bit was there to read");
        if (now != v) bad("wrong-value", "wrong bit stored");
        if (np != q + 1) bad("wrong-position", "not exactly the bit character was taken");
    } else {
        if (!is.fail()) bad("unreported", "no bit was read but the stream does not report failure");
        if (now != old) bad("target-changed", "the target changed although no bit was read");
        if (exp == PRE && np != p) bad("wrong-position", "a failed stream was read");
        if (exp == END && !is.eof()) bad("unreported", "end of stream not reported");
        if ((exp == END || exp == THROW) && np != q) bad("wrong-position", "a character was lost");
        if (exp == THROW && !is.bad()) bad("unreported", "the buffer's failure was not reported as a bad stream");
        if (exp == WRONG) {
            bool may_lose = sb.pb != 0;
            if (np != q && !(may_lose && np == q + 1)) bad("wrong-position", "the wrong character is not available for the next reader");
            if (q < sb.chars.size() && sb.chars[q] != wrong) bad("wrong-position", "the wrong character was replaced by another");
            if (!may_lose && (is.bad() || is.eof())) bad("wrong-state", "a wrong character is not a broken or ended stream");
            if (sb.pb == 0 && sb.chunk && np == q && *sb.gptr() != wrong) bad("wrong-position", "the wrong character was replaced by another");
        }
    }
    if (a.mode && exp == BITV) g.model[(size_t)a.bit] = (uint8_t)v;
    int64_t d = diff_bits(g.mem, g.base[cl], g.model.data() + g.base[cl], g.words[cl] * g.D);
    if (d >= 0) {
        if (g.base[cl] + d != a.bit || !a.mode) bad("stray-bits", "a neighbour of the target changed");
        load_bits(g.mem, g.base[cl], g.model.data() + g.base[cl], g.words[cl] * g.D);
    }
}
template <class Ch, class S, class B> static void step10(int cl, const Op& op, S& is, B& sb) {
    switch (op.code) {
    case S_FEED: { int64_t n = std::max<int64_t>(1, md(op.a[a_n], 51)); for (int64_t i = 0; i < n; i++) sb.chars.push_back((Ch)op.a[a_c]); break; }
    case S_FAULT: sb.faults.emplace_back(sb.chars.size(), (op.a[a_k] & 1) ? 1 : 2); break;
    case S_READ: { int64_t n = std::max<int64_t>(1, md(op.a[a_n], 51)); for (int64_t i = 0; i < n; i++) { Op o = op; o.a[a_bit] += i; one_read<Ch>(cl, o, is, sb); } break; }
    case S_MASK: setmask(is, op.a[a_k]); break;
    case S_SKIPWS: if (op.a[a_k] & 1) is.setf(std::ios_base::skipws); else is.unsetf(std::ios_base::skipws); break;
    case S_CLEAR: is.clear(); break;
    case S_FLAGS: { bool sk = (is.flags() & std::ios_base::skipws) != 0; flags(is, op.a[a_k]); if (sk) is.setf(std::ios_base::skipws); break; }
    default: break;
    }
}
// ------------------------------------------------------------- C11 execution
template <class S> static void emit(int cl, Link& l, S& os, int token, const Op& op) {
    Client& c = C[cl];
    StrArgs a; a.wide = g.wide; a.os = l.os.get(); a.wos = l.wos.get(); a.base = g.mem;
    bool was_good = os.good(), threw = false, padded = os.width() > 1;
    if (token < 2) { // a bit: as value, reference or through an iterator
        a.mode = (int)md(op.a[a_mode], 3); a.bit = g.base[cl] + md(l.wbit++, g.words[cl] * g.D); a.val = token;
        op_begin(c, "send", 11);
        if (a.mode) grant_word(c, a.bit, false);
        c.in_op = true;
        try { lib_write_bit(g.wt, a); } catch (...) { c.in_op = false; threw = true; }
        op_end(c);
    } else { op_begin(c, "put", 11); try { os.put((typename S::char_type)token); } catch (...) { threw = true; } op_end(c); }
    if (threw) probe("reach.exception_to_caller");
    if (os.good()) { if (threw) check_fail(11, "exception-unasked", "an exception reached the writer from a good stream"); if (!(token >= 2 && blank(token))) l.sent.push_back(token); }
    else { if (was_good) probe("reach.write_failure_reported"); l.reported = true; if (was_good && padded) l.maybe = token; }
    hash_val((uint64_t)token * 2 + os.good());
}
template <class S> static void writer(int cl, Link& l, S& os, const Op& op) {
    if (l.stopped) return;
    switch (op.code) {
    case S_SEND: { int64_t n = std::max<int64_t>(1, md(op.a[a_n], 61)); int mode = (int)md(op.a[a_mode], 3);
        for (int64_t i = 0; i < n; i++) { int64_t b = g.base[cl] + md(l.wbit, g.words[cl] * g.D); int t = mode ? g.model[(size_t)b] : (int)((op.a[a_v] >> (i & 31)) & 1); emit(cl, l, os, t, op); }
        break; }
    case S_RAW: emit(cl, l, os, "x2-aZ"[md(op.a[a_c], 5)], op); break;
    case S_SEP: emit(cl, l, os, " \n\t"[md(op.a[a_c], 3)], op); break;
    case S_WIDTH: os.width((std::streamsize)md(op.a[a_k], 8)); break;
    case S_FLAGS: flags(os, op.a[a_k]); break;
    case S_MASK: setmask(os, op.a[a_k] & 3); break;
    case S_FLUSH: op_begin(C[cl], "flush", 11); try { os.flush(); } catch (...) {} op_end(C[cl]); break;
    case S_STOP: l.stopped = true; probe("fault.writer_stopped"); break;
    default: break;
    }
}
template <class Ch, class S, class B> static bool recv_one(int cl, Link& l, S& is, B& tp, Pipe<Ch>& pp, int mode) {
    // true: a token was received; false: the stream has ended
    Client& c = C[cl]; using T = std::char_traits<Ch>;
    for (int tries = 0; tries < 60; tries++) {
        StrArgs a; a.wide = g.wide; a.is = l.is.get(); a.wis = l.wis.get(); a.base = g.mem; a.mode = mode; a.val = 0;
        a.bit = g.base[cl] + md(l.rbit, g.words[cl] * g.D); int old = rdbit(a.bit); if (!mode) a.val = (int)(l.rbit & 1), old = a.val;
        tp.faulted = false;
        op_begin(c, "recv", 11); if (mode) grant_word(c, a.bit, true);
        c.in_op = true;
        try { lib_read_bit(g.wt, a); } catch (...) { c.in_op = false; probe("reach.exception_to_caller"); }
        op_end(c);
        int now = mode ? rdbit(a.bit) : a.val;
        hash_val((uint64_t)(int)is.rdstate() * 2 + (uint64_t)now);
        if (!is.fail()) { if (l.got.size() > 100000) check_fail(11, "duplicated", "reader receives without end"); l.got.push_back(now); if (mode) { g.model[(size_t)a.bit] = (uint8_t)now; } l.rbit++; return true; }
        if (now != old) check_fail(11, "target-changed", "a failed extraction changed the target");
        if (tp.faulted) { is.clear(); probe("reach.reader_recovered"); continue; }
        if (is.eof()) {
            if (!(pp.closed && pp.size() == 0 && tp.gptr() == tp.egptr())) check_fail(11, "early-end", "end of stream reported before the writer finished");
            return false;
        }
        // a wrong character must be there for the next reader
        typename T::int_type ch;
        { struct Y { bool o; Client& c; ~Y() { c.in_op = o; } } y{c.in_op, c}; c.in_op = false; int k = 0; do { try { ch = tp.sbumpc(); break; } catch (...) { ch = T::eof(); } } while (++k < 3); }
        is.clear();
        if (T::eq_int_type(ch, T::eof())) { if (tp.faulted) continue; check_fail(11, "lost", "a character that is no bit vanished from the stream"); return false; }
        l.got.push_back((int)T::to_char_type(ch)); probe("reach.junk_character");
        return true;
    }
    check_fail(11, "no-progress", "reader makes no progress");
    return false;
}
static void step(const Plan& p, int cl, const Op& op) {
    if (!g.pipe) { if (g.wide) step10<wchar_t>(cl, op, *cl10[cl]->wis, cl10[cl]->wsb); else step10<char>(cl, op, *cl10[cl]->is, cl10[cl]->sb); return; }
    if ((cl | 1) >= R.nclients) return;
    Link& l = *link[cl / 2]; (void)p;
    if (!(cl & 1)) { if (g.wide) writer(cl, l, *l.wos, op); else writer(cl, l, *l.os, op); return; }
    switch (op.code) {
    case S_RECV: { int64_t n = std::max<int64_t>(1, md(op.a[a_n], 61)); int mode = (int)md(op.a[a_mode], 3);
        for (int64_t i = 0; i < n; i++) if (!(g.wide ? recv_one<wchar_t>(cl, l, *l.wis, l.wtp, l.wp, mode) : recv_one<char>(cl, l, *l.is, l.tp, l.p, mode))) break;
        break; }
    case S_MASK: if (g.wide) setmask(*l.wis, op.a[a_k]); else setmask(*l.is, op.a[a_k]); break;
    default: break;
    }
}
static void client_end(const Plan&, int cl) {
    if (!g.pipe || (cl | 1) >= R.nclients) return;
    Link& l = *link[cl / 2]; Client& c = C[cl];
    if (!(cl & 1)) {
        op_begin(c, "flush", 11);
        try { if (g.wide) l.wos->flush(); else l.os->flush(); } catch (...) {}
        op_end(c);
        if (!(g.wide ? l.wos->good() : l.os->good())) l.reported = true;
        (g.wide ? l.wp.closed : l.p.closed) = true; l.writer_done = true; notify_all();
    } else {
        for (;;) if (!(g.wide ? recv_one<wchar_t>(cl, l, *l.wis, l.wtp, l.wp, 1) : recv_one<char>(cl, l, *l.is, l.tp, l.p, 1))) break;
        if (!(g.wide ? l.wis->eof() : l.is->eof())) check_fail(11, "no-end", "the reader saw no end of stream");
    }
}
static void finish(const Plan&) {
    if (g.pipe) for (auto& lp : link) if (lp) {
        Link& l = *lp; size_t n = std::min(l.sent.size(), l.got.size());
        if (l.maybe >= 0 && l.got.size() == l.sent.size() + 1) { l.sent.push_back(l.maybe); n++; }
        for (size_t i = 0; i < n; i++) if (l.sent[i] != l.got[i]) check_fail(11, "reordered", "token %zu arrived as %d, sent as %d", i, l.got[i], l.sent[i]);
        if (l.got.size() > l.sent.size()) check_fail(11, "duplicated", "%zu tokens sent, %zu received", l.sent.size(), l.got.size());
        if (l.got.size() < l.sent.size() && (!l.reported || !l.buffered)) check_fail(11, "lost", "%zu tokens accepted from the writer, only %zu received, and the writer's stream %s", l.sent.size(), l.got.size(), l.reported ? "had reported only the others" : "reports nothing");
        if (l.reported && l.got.size() < l.sent.size()) probe("reach.prefix_only");
        hash_val(l.got.size());
    }
    int64_t d = diff_bits(g.mem, 0, g.model.data(), g.total);
    if (d >= 0) check_fail(R.prop, "stray-bits", "after all clients finished bit %lld is %d, expected %d", (long long)d, rdbit(d), g.model[(size_t)d]);
    for (int i = 0; i < MAXC; i++) cl10[i].reset();
    for (auto& l : link) l.reset();
}

// ---------------------------------------------------------------- generator
static int64_t pick_char(Rng& r, bool wide) {
    static const int odd[] = {'2', '/', 'x', 'O', 'l', '-', 0, 127, 'a', 'Z', '+', '.'};
    switch (r.below(8)) {
    case 0: case 1: return '0';
    case 2: case 3: return '1';
    case 4: return " \t\n\r\v\f"[r.below(6)];
    case 5: return odd[r.below(12)];
    default:
        if (wide) { static const int w[] = {0x130, 0x131, 0x10030, 0x10031, 0xff10, 0xff11, 0x7fffffff, 0x2028, 0x100}; return w[r.below(9)]; }
        return r.chance(1, 2) ? -1 : (int64_t)(signed char)r.below(256);
    }
}
static void gen(Plan& p, Rng& r, int prop, int tier) {
    (void)tier;
    int wt = (int)r.below(4), nc; bool wide = r.chance(1, 2);
    p.set("wt", wt); p.set("wide", wide); p.set("pseed", (int64_t)r.below(1 << 30));
    static const char* nm[MAXC] = {"sw0", "sw1", "sw2", "sw3"};
    if (prop == 10) {
        nc = 1 + (int)r.below(3); p.set("clients", nc); p.set("pipe", 0);
        p.set("chunk", r.chance(1, 3) ? 0 : r.chance(1, 3) ? 1 : 1 + (int64_t)r.below(12)); p.set("pb", r.chance(1, 2) ? 0 : (int64_t)r.below(3));
        for (int c = 0; c < nc; c++) {
            p.set(nm[c], 1 + (int64_t)r.below(3));
            int n = 3 + (int)r.below(14); bool faults = r.chance(1, 2), masks = r.chance(1, 2);
            auto add = [&](int code) -> Op& { Op o; o.client = c; o.code = code; p.ops.push_back(o); return p.ops.back(); };
            if (r.chance(1, 4)) add(S_SKIPWS).a[a_k] = 0;
            if (masks && r.chance(1, 2)) add(S_MASK).a[a_k] = (int64_t)r.below(8);
            for (int i = 0; i < n; i++) {
                switch (r.below(10)) {
                case 0: case 1: case 2: case 3: { int k = 1 + (int)r.below(6); for (int j = 0; j < k; j++) { Op& o = add(S_FEED); o.a[a_c] = pick_char(r, wide); if (r.chance(1, 5)) o.a[a_n] = 1 + (int64_t)r.below(4); } break; }
                case 6: if (faults) add(S_FAULT).a[a_k] = (int64_t)r.below(2); break;
                case 4: add(S_CLEAR); break;
                case 5: if (masks) add(S_MASK).a[a_k] = (int64_t)r.below(8); else if (r.chance(1, 3)) add(S_SKIPWS).a[a_k] = (int64_t)r.below(2); else add(S_FLAGS).a[a_k] = (int64_t)r.below(128); break;
                default: { if (r.chance(2, 3)) add(S_CLEAR); Op& o = add(S_READ); o.a[a_mode] = (int64_t)r.below(3); o.a[a_bit] = (int64_t)r.below(200); o.a[a_v] = (int64_t)r.below(2); if (r.chance(1, 4)) o.a[a_n] = 1 + (int64_t)r.below(4); if (r.chance(1, 3)) add(S_CLEAR); break; }
                }
            }
        }
        return;
    }
    int pipes = r.chance(1, 3) ? 2 : 1; nc = 2 * pipes;
    p.set("clients", nc); p.set("pipe", 1); p.set("cap", r.chance(1, 3) ? 1 : 1 + (int64_t)r.below(12)); p.set("chunk", r.chance(1, 2) ? 1 : 1 + (int64_t)r.below(20));
    if (r.chance(1, 3)) p.set("wbuf", 1 + (int64_t)r.below(9));
    if (r.chance(2, 5)) { p.set("wfail", (int64_t)r.below(r.chance(1, 3) ? 6 : 40)); p.set("wthrow", (int64_t)r.below(2)); }
    if (r.chance(1, 4)) { p.set("rfault", 2 + (int64_t)r.below(6)); p.set("rkind", (int64_t)r.below(2)); }
    bool masks = r.chance(1, 3), junk = r.chance(1, 3), fmt = r.chance(1, 2);
    for (int c = 0; c < nc; c++) {
        p.set(nm[c], 1 + (int64_t)r.below(4));
        auto add = [&](int code) -> Op& { Op o; o.client = c; o.code = code; p.ops.push_back(o); return p.ops.back(); };
        if (masks && r.chance(1, 2)) add(S_MASK).a[a_k] = (int64_t)r.below(8);
        int n = 1 + (int)r.below(6);
        if (c & 1) { for (int i = 0; i < n; i++) { Op& o = add(S_RECV); o.a[a_n] = 1 + (int64_t)r.below(12); o.a[a_mode] = (int64_t)r.below(3); } continue; }
        for (int i = 0; i < n; i++) {
            if (fmt && r.chance(1, 3)) add(S_WIDTH).a[a_k] = (int64_t)r.below(6);
            if (fmt && r.chance(1, 4)) add(S_FLAGS).a[a_k] = (int64_t)r.below(128);
            { Op& o = add(S_SEND); o.a[a_n] = 1 + (int64_t)r.below(14); o.a[a_mode] = (int64_t)r.below(3); o.a[a_v] = (int64_t)(r.next() >> 33); }
            if (r.chance(1, 4)) add(S_SEP).a[a_c] = (int64_t)r.below(3);
            if (junk && r.chance(1, 3)) add(S_RAW).a[a_c] = (int64_t)r.below(5);
            if (r.chance(1, 4)) add(S_FLUSH);
            if (r.chance(1, 25)) add(S_STOP);
        }
    }
}
Scenario the_scenario = {"str", OPS, (int)(sizeof OPS / sizeof *OPS), ARGN, gen, setup, step, client_end, finish};
} // namespace sim
