// Independent oracle for the scanning operations (C01, C02)
#include "h.hpp"
using pigo::FileReader;
typedef const std::string& SR;
typedef size_t Z;
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool fpc(char c) { return dg(c) || c=='e'||c=='E'||c=='-'||c=='+'||c=='.'; }
static bool cm(char c) { return c == '%' || c == '#'; }
static Z o_eol(SR s, Z p) { Z q = s.find('\n', p); return q == std::string::npos ? s.size() : q; }
static Z o_skip(SR s, Z p) {  // after the comment lines starting at p
    while (p < s.size() && cm(s[p])) { p = o_eol(s, p); if (p < s.size()) ++p; }
    return p;
}
static Z o_nonint(SR s, Z p) { while (p < s.size() && dg(s[p])) ++p; return p; }
template<class F> static Z o_first(SR s, Z p, F stop) { // next char satisfying stop, outside comments
    for (;;) {
        if (p >= s.size()) return s.size();
        if (cm(s[p])) { p = o_skip(s, p); continue; }
        if (stop(s[p])) return p;
        ++p;
    }
}
static Z o_first_int(SR s, Z p) { return o_first(s, p, dg); }
static Z o_next_int(SR s, Z p) { return o_first_int(s, o_nonint(s, p)); }
static Z o_next_signed(SR s, Z p) {
    if (p < s.size() && (s[p]=='+'||s[p]=='-')) ++p;
    return o_first(s, o_nonint(s, p), [](char c) { return dg(c)||c=='+'||c=='-'; });
}
static Z o_next_nl(SR s, Z p) {
    bool at = p < s.size() && dg(s[p]);
    p = o_nonint(s, p);
    if (p < s.size() && s[p] == '\n') { if (at) return p; p = o_skip(s, p+1); }
    while (p < s.size() && !dg(s[p]) && s[p] != '\n') {
        if (cm(s[p])) return o_eol(s, p);
        ++p;
    }
    return p;
}
static Z o_fp(SR s, Z p) { while (p < s.size() && !fpc(s[p])) ++p; return p; }
static Z o_nonfp(SR s, Z p) { while (p < s.size() && fpc(s[p])) ++p; return p; }
static Z o_spaces(SR s, Z p, Z& end) { // separators between the numbers of this line
    Z e = o_eol(s, p); end = e;
    Z ce = p; while (ce < e && !cm(s[ce])) ++ce;   // the part before a comment
    long seps = 0; Z i = p; bool commented = ce < e;
    (void)commented;
    for (;;) {
        while (i < ce && !dg(s[i])) ++i;
        if (i >= ce) break;
        while (i < ce && fpc(s[i])) ++i;
        if (i >= ce) break;
        Z j = i;
        while (j < ce && (s[j]==' '||s[j]=='\t'||s[j]=='\r')) ++j;
        if (j >= ce) break;
        ++seps; i = j;
    }
    return seps;
}
template<class T> static T o_val(SR s, Z a, Z b) { unsigned long long v = 0; while (a < b) v = v*10 + (s[a++]-'0'); return (T)v; }
static const char* OPS[] = {"skip_comments","move_to_non_int","move_to_non_fp","move_to_fp","move_to_first_int","move_to_next_int",
    "move_to_next_signed_int","count_spaces_to_eol","move_to_next_int_or_nl","move_to_eol","move_to","read_int","read_sign",
    "at_end_of_line","peek","at_nl_or_eol","at_zero","at_str","read_fp","plus","pluseq","smaller_end","good_size"};
enum { NOPS = sizeof(OPS)/sizeof(*OPS) };

static std::string rtext(Rng& r) {
    static const std::string A = "0123456789", B = " \t\r\n\n%#+-.eE,xX%#:09/";
    std::string s; long n = r.in(0, 24);
    int bias = r.in(0, 4);
    for (long i = 0; i < n; ++i) {
        if (bias == 4) s += (char)r.in(0, 255);
        else if (r.chance(15*bias+10)) s += B[r.in(0, B.size()-1)];
        else s += A[r.in(0, 9)];
    }
    return s;
}
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fixed = {"", "%", "#", "%a", "%\n", "%\n%", "%\n#\n1", "1", "12", "1 2\n3", "\n", "\n\n", " ", "-", "-5", "+5", "a%b\n7",
        "1%2\n3", "%1\n2", "0", "00", "01", "0 ", "10", "1e5 2", "1.5\t2.5 3\n", "1 2 3 ", "1 2 3 \n", "1 2 3 # c\n4", "1 2 3# c", "1\r\n2\r\n", "\r", "\n%\n1", "\n%x\n%y\n7\n",
        "18446744073709551615", "99999999999999999999999", "5\n", "5\n6", "\n5", "x\ny", "x%\n", "-%1\n2", "1%\n-2", "%%\n\n1", "\nx%1\n2", "1x2", "e", ".", "1e", "1e-", "--1", "1.2.3", "1e2e3e1",
        "a%", "a#\n%", " \r\n", " \t\n", "0%", "9/", ":9", "\x80\xff" "1", "1 2 %3 4\n5", "1 %", "1 2 %", "%\n\n", "1 2\r\n"};
    Z nf = fixed.size();
    c.op = OPS[idx % NOPS];
    long k = idx / NOPS;
    std::string s = (Z)k < nf ? fixed[k] : rtext(r);
    if (c.op == "read_fp" && k == (long)nf) { c.data = "1" + std::string(200000, 'e'); c.p = {1, 0, 0, 200001, 0, 1}; return true; }   // a long run of exponents
    c.data = s;
    // position, narrowed end, character / count
    c.p = {1, 0, (Z)k < nf ? -1 : r.in(0, s.size()), r.chance(70) ? (long long)s.size() : r.in(0, s.size()), r.in(0, 30), r.in(0, 1<<20)};
    return true;
}
static void one(const Case& c, Z pos, Z end) {
    std::string full = c.data.substr(0, end);
    if (pos > full.size()) return;
    Buf b(full);
    FileReader r {b.p + pos, b.p + b.n};
    const std::string& op = c.op;
    SR s = full;
    Z exp = pos; long long ret = 0, eret = 0; bool hasret = false;
    std::string S = "";
    if (op == "skip_comments") { r.skip_comments(); exp = o_skip(s, pos); }
    else if (op == "move_to_non_int") { r.move_to_non_int(); exp = o_nonint(s, pos); }
    else if (op == "move_to_non_fp") { r.move_to_non_fp(); exp = o_nonfp(s, pos); }
    else if (op == "move_to_fp") { r.move_to_fp(); exp = o_fp(s, pos); }
    else if (op == "move_to_first_int") { r.move_to_first_int(); exp = o_first_int(s, pos); }
    else if (op == "move_to_next_int") { r.move_to_next_int(); exp = o_next_int(s, pos); }
    else if (op == "move_to_next_signed_int") { r.move_to_next_signed_int(); exp = o_next_signed(s, pos); }
    else if (op == "count_spaces_to_eol") { ret = r.count_spaces_to_eol(); eret = o_spaces(s, pos, exp); hasret = true; }
    else if (op == "move_to_next_int_or_nl") { r.move_to_next_int_or_nl(); exp = o_next_nl(s, pos); }
    else if (op == "move_to_eol") { r.move_to_eol(); exp = o_eol(s, pos); }
    else if (op == "move_to") {
        static const char cs[] = "0 \n%#-5x\xff";
        char ch = cs[c.a(5) % 9];
        r.move_to(ch);
        exp = pos; if (exp < s.size() && s[exp] == ch) ++exp;
        while (exp < s.size() && s[exp] != ch) ++exp;
    }
    else if (op == "read_int") {
        Z a = pos; while (a < s.size() && !dg(s[a])) ++a; Z e = o_nonint(s, a); exp = e; hasret = true;
        switch (c.a(5) % 8) {
            case 0: ret = r.read_int<uint8_t>(); eret = o_val<uint8_t>(s, a, e); break;
            case 1: ret = r.read_int<uint16_t>(); eret = o_val<uint16_t>(s, a, e); break;
            case 2: ret = r.read_int<uint32_t>(); eret = o_val<uint32_t>(s, a, e); break;
            case 3: ret = (long long)r.read_int<uint64_t>(); eret = (long long)o_val<uint64_t>(s, a, e); break;
            case 4: ret = r.read_int<int8_t>(); eret = o_val<int8_t>(s, a, e); break;
            case 5: ret = r.read_int<int16_t>(); eret = o_val<int16_t>(s, a, e); break;
            case 6: ret = r.read_int<int32_t>(); eret = o_val<int32_t>(s, a, e); break;
            default: ret = r.read_int<int64_t>(); eret = o_val<int64_t>(s, a, e); break;
        }
    }
    else if (op == "read_sign") {
        hasret = true; eret = pos < s.size() && s[pos] == '-' ? -1 : 1;
        switch (c.a(5) % 3) { case 0: ret = r.read_sign<int>(); break; case 1: ret = r.read_sign<int64_t>(); break; default: ret = r.read_sign<int8_t>(); }
    }
    else if (op == "at_end_of_line") {
        hasret = true; ret = r.at_end_of_line(); Z e = o_eol(s, pos); eret = 1;
        for (Z i = pos; i < e; ++i) if (s[i] != ' ' && s[i] != '\r') eret = 0;
    }
    else if (op == "peek") { hasret = true; ret = r.peek(); eret = pos < s.size() ? s[pos] : 0; }
    else if (op == "at_nl_or_eol") { hasret = true; ret = r.at_nl_or_eol(); eret = pos >= s.size() || s[pos]=='\n' || cm(s[pos]); }
    else if (op == "at_zero") { hasret = true; ret = r.at_zero(); eret = pos < s.size() && s[pos]=='0' && !(pos+1 < s.size() && dg(s[pos+1])); }
    else if (op == "at_str") {
        hasret = true; Rng q(c.a(5)); std::string t = s.substr(pos, q.in(0, 6));
        if (q.chance(30) && t.size()) t[q.in(0, t.size()-1)] ^= 1;
        if (q.chance(20)) t += (char)q.in(32, 60);
        ret = r.at_str(t); eret = s.compare(pos, t.size(), t) == 0 && pos + t.size() <= s.size();
    }
    else if (op == "read_fp") {
        if (c.a(5) & 1) r.read_fp<float>(); else r.read_fp<double>();
        Z q = (Z)(r.d - b.p);
        Z a = o_fp(s, pos);
        CHECK(q >= a, "read_fp stops at %zu, before the number that starts at %zu", q, a);
        exp = q;
    }
    else if (op == "plus") {
        Z k = c.a(4); FileReader n = r + k; CHECK((Z)(n.d - b.p) == std::min(pos+k, s.size()), "operator+ moved to %zu", (Z)(n.d - b.p));
        CHECK(n.size() == s.size()-std::min(pos+k, s.size()), "operator+ changed the end");
    }
    else if (op == "pluseq") { Z k = c.a(4); r += k; exp = std::min(pos+k, s.size()); }
    else if (op == "smaller_end") {
        FileReader o = r; Z k = c.a(4); if (pos + k > c.data.size()) k = 0; o.d = b.p + std::min(pos + k, s.size());
        r.smaller_end(o); CHECK(r.size() == (Z)(o.d - b.p) - pos, "smaller_end leaves a size of %zu", r.size());
    }
    else if (op == "good_size") {
        hasret = true; ret = r.good(); eret = pos < s.size(); CHECK(r.size() == s.size()-pos, "size() is %zu", r.size());
    }
    Z got = (Z)(r.d - b.p);
    CHECK(b.same(), "%s modifies the text", op.c_str());
    CHECK(r.d >= b.p && got <= s.size(), "%s leaves the buffer: at %zd of %zu (from %zu)", op.c_str(), (ssize_t)(r.d-b.p), s.size(), pos);
    CHECK(got >= pos, "%s moves backwards from %zu to %zu", op.c_str(), pos, got);
#ifndef CONFINED_ONLY
    CHECK(got == exp, "%s from %zu stops at %zu, not at %zu", op.c_str(), pos, got, exp);
    if (hasret) CHECK(ret == eret, "%s at %zu returns %lld, not %lld", op.c_str(), pos, ret, eret);
#else
    (void)exp; (void)ret; (void)eret; (void)hasret;
#endif
}
void exec(const Case& c) {
    if (c.a(2) >= 0) { one(c, c.a(2), c.a(3)); return; }
    for (Z p = 0; p <= c.data.size(); ++p) for (Z e = p; e <= c.data.size(); ++e) one(c, p, e);
}
