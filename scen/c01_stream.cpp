// C01: reading configuration text from a stream the simulator controls byte by byte.
#include "param_util.h"
#include <streambuf>
using namespace pm;

namespace {
// Delivers `text` in seeded chunks; may fail (exception from the buffer, i.e. the stream goes bad)
// after a given number of bytes.
struct SimBuf : std::streambuf {
    std::string text, buf;
    size_t pos = 0;
    long fail_at;
    Rng r;
    bool chunked;
    size_t delivered = 0;
    SimBuf(const std::string& t, long chunkseed, long fail) : text(t), fail_at(fail), r((u64)chunkseed), chunked(chunkseed >= 0) {}
    int underflow() override {
        HostScope h;
        if (gptr() && gptr() < egptr()) return (unsigned char)*gptr();
        if (fail_at >= 0 && pos >= (size_t)fail_at) {
            if (t_op) ++t_op->fired[F_st_throw];
            throw InjectedError();
        }
        if (pos >= text.size()) return traits_type::eof();
        size_t n = text.size() - pos;
        if (chunked) {
            static const size_t lim[] = {1, 2, 3, 7, 64, 1000, 1999, 2000, 4096};
            size_t k = 1 + r.below(lim[r.below(9)]);
            if (k < n) { n = k; if (t_op) ++t_op->fired[F_st_chunk]; }
        }
        if (fail_at >= 0 && pos + n > (size_t)fail_at) n = (size_t)fail_at - pos;
        if (n == 0) { if (t_op) ++t_op->fired[F_st_throw]; throw InjectedError(); }
        buf = text.substr(pos, n);
        pos += n;
        delivered = pos;
        setg(&buf[0], &buf[0], &buf[0] + buf.size());
        return (unsigned char)buf[0];
    }
};

void exec(const Plan& p) {
    rofl::ParamMap pmap;
    Model m;
    std::set<std::string> names;
    for (auto& l : p.lines) {
        CallResult c;
        if (l.op == "set") { pmap.setParamString(l.str(0), l.str(1)); m[l.str(0)] = l.str(1); names.insert(l.str(0)); continue; }
        if (l.op == "clear") { pmap.clear(); m.clear(); continue; }
        if (l.op != "read") continue;
        std::string text = l.str(0);
        long fail = l.has(F_st_throw) ? l.fv(F_st_throw) % ((long)text.size() + 1) : -1;
        SimBuf sb(text, l.has(F_st_chunk) ? l.fv(F_st_chunk) : -1, fail);
        std::istream in(&sb);
        int pre = (int)l.i(1);
        if (pre == 1) in.setstate(std::ios::failbit);             // e.g. a file that could not be opened
        if (pre == 2) in.exceptions(std::ios::badbit);            // caller wants exceptions
        bool ret = false;
        call(c, l, [&] { ret = pmap.read(in); });
        bool failed = (fail >= 0 && c.fired(F_st_throw) > 0) || pre == 1;
        if (!c.ok() && !(pre == 2 && c.fired(F_st_throw))) check_excuse(c, l, "read");
        if (!c.ok() && !c.fired(F_st_throw)) violate("read-threw", "reading threw although the stream delivered everything");
        if (failed && c.ok() && ret) violate("read-claims-success", Str() << "the stream failed after " << fail << " of " << text.size() << " bytes but the read reported success");
        if (!failed && c.ok() && !ret) violate("read-claims-failure", "the whole text was delivered but the read reported failure");
        // what must have been applied
        std::string got = pre == 1 ? "" : failed ? text.substr(0, (size_t)fail) : text;
        bool complete;
        std::vector<std::string> ls = split_lines(got, complete);
        Model w = m, alt;
        bool haveAlt = false;
        for (size_t i = 0; i < ls.size(); ++i) {
            bool torn = failed && !complete && i + 1 == ls.size();
            std::string k, v;
            if (!parse_line(ls[i], k, v)) continue;
            names.insert(k);
            if (torn) { alt = w; alt[k] = v; haveAlt = true; }
            else w[k] = v;
        }
        { bool cc; for (auto& x : split_lines(text, cc)) { std::string k, v; if (parse_line(x, k, v)) names.insert(k); } }
        if (haveAlt) { size_t n; if (view(pmap, names, &n) == alt && n == alt.size()) w = alt; }
        expect(pmap, w, names, Str() << "after reading " << got.size() << " bytes (" << ls.size() << " lines)", "stream-content");
        m = w;
        note(Str() << "read ret=" << ret << " out=" << c.out << " bytes=" << sb.delivered << " " << show(m));
        if (failed) probe("stream-failed");
    }
}

std::string word(Rng& r, int maxlen) {
    static const std::string al = "abcXYZ019_-./~[],:=+*#\"\\'\xC3\xA9";
    static const std::string rare = std::string("\0\x01\x1A\x1B\x7F\x80\xFF;%$!@{}<>|&()?^`", 23);
    int n = (int)r.range(1, maxlen);
    std::string s;
    if (r.chance(3)) { static const std::vector<std::string> W = {"//", "--", ";x", "%s", "$HOME", "true", "0x1F", "1e400", "-1", "\xEF\xBB\xBFk", "\"a", "a\"", "''", "k=v", "##", "a#b", "[1,2]"}; return r.pick(W); }
    bool odd = r.chance(8);
    for (int i = 0; i < n; ++i) s += odd && r.chance(25) ? rare[r.below(rare.size())] : al[r.below(al.size())];
    return s;
}
std::string longword(Rng& r) {
    static const long L[] = {1990, 1997, 1998, 1999, 2000, 2001, 2005, 4000, 9000};
    return std::string((size_t)(L[r.below(9)] + r.range(-2, 2)), (char)('a' + r.below(26)));
}
size_t edge(Rng& r) {          // lengths around the sizes buffers tend to have
    size_t b = r.chance(80) ? (size_t)1 << r.range(4, 13) : r.chance(50) ? (size_t)r.range(1, 40) * 100 : (size_t)1 << r.range(14, 17);
    long d = r.range(-3, 3);
    return b + (size_t)d;
}
std::string fit(std::string s, Rng& r, size_t n) {   // stretch a "key value" line to n bytes, somewhere
    if (s.size() >= n) return s;
    size_t add = n - s.size(), at = r.below(s.size() + 1);
    char c = r.chance(70) ? (char)('a' + r.below(26)) : r.chance(50) ? ' ' : '\t';
    return s.substr(0, at) + std::string(add, c) + s.substr(at);
}
std::string ws(Rng& r) {
    static const std::vector<std::string> W = {" ", " ", " ", "  ", "\t", " \t ", "\v", "\f", "     "};
    return r.pick(W);
}
void gen(Rng& r, Plan& p) {
    std::vector<std::string> keys;
    for (int i = 0; i < 6; ++i) keys.push_back(i < 4 ? std::string(1, (char)('a' + i)) : word(r, 6));
    int n = (int)r.range(1, 4);
    int hasLong = r.chance(35);
    if (r.chance(60)) for (int i = 0; i < 3; ++i) p.add("set").s(r.pick(keys)).s(word(r, 8));
    for (int q = 0; q < n; ++q) {
        std::string t;
        int lines = (int)r.range(0, 9);
        bool many = r.chance(2);
        if (many) lines = (int)r.range(50, 600);
        bool huge = many && r.chance(8);          // thousands of different names
        if (huge) lines = (int)r.range(2100, 2600);
        int edgy = r.chance(12) ? 30 : 0;
        for (int i = 0; i < lines; ++i) {
            std::string s;
            int k = (int)r.below(100);
            if (k < 55) s = r.pick(keys) + ws(r) + word(r, 10);
            else if (k < 62) s = ws(r) + r.pick(keys) + ws(r) + word(r, 5) + ws(r) + word(r, 5);
            else if (k < 70) s = "#" + r.pick(keys) + ws(r) + word(r, 5);
            else if (k < 75) s = "# " + r.pick(keys) + " " + word(r, 4);
            else if (k < 80) s = "";
            else if (k < 84) s = ws(r);
            else if (k < 90) s = r.pick(keys);
            else if (k < 93) s = r.pick(keys) + " " + word(r, 4) + " # note";
            else if (!hasLong) s = r.pick(keys) + ws(r) + word(r, 30);
            else if (k < 95) s = r.pick(keys) + " " + longword(r);
            else if (k < 96) s = longword(r) + " x";
            else if (k < 97) s = "#" + longword(r);
            else if (k < 98) s = std::string((size_t)r.range(1990, 2010), ' ') + r.pick(keys) + " v";
            else s = r.pick(keys) + std::string((size_t)r.range(1990, 2010), ' ') + "w";
            if (edgy && s.size() && (r.chance(edgy) || i + 1 == lines)) s = fit(s, r, edge(r));
            if (many && r.chance(60)) s = "k" + std::to_string(r.below(500)) + " " + word(r, 4);
            if (huge) s = "k" + std::to_string(i) + " " + word(r, 3);
            if (r.chance(8)) s += "\r";
            t += s;
            if (i + 1 < lines || r.chance(60)) t += "\n";
        }
        int pre = (int)r.below(100);
        Line& l = p.add("read").s(t).a(pre < 4 ? 1 : pre < 14 ? 2 : 0);
        if (r.chance(75)) l.f(F_st_chunk, r.range(0, 1000000));
        if (r.chance(45)) l.f(F_st_throw, r.range(0, (long)t.size()));
        if (r.chance(5)) p.add("clear");
    }
}
SIM_SCENARIO(stream, 1, gen, exec)
}
