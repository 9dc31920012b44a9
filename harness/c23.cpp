#include "h.hpp"
using namespace pigo;
bool gen(long idx, Rng& r, Case& c) {
    if (idx < 12) { c.op = "open"; c.p = {1, 0, idx}; return true; }
    c.op = "seq"; c.p = {pick_threads(r), 0};
    long n = r.in(1, 25);
    for (long i = 0; i < n; ++i) { c.p.push_back(r.in(0, 11)); c.p.push_back(r.in(0, 2)); c.p.push_back(r.in(0, 2)); c.p.push_back(r.chance(70) ? r.in(0, 24) : r.in(0, 70)); }
    return true;
}
struct M { bool own = false; bool wr = false; std::string s; size_t pos = 0; int id = 0; };
static void check(File* f, const M& m, int i) {
    if (!m.own) return;
    CHECK(f->size() == m.s.size(), "file %d has size %zu, its file has %zu bytes", i, f->size(), m.s.size());
    CHECK(f->left() == m.s.size()-m.pos, "file %d has %zu bytes left, expected %zu", i, f->left(), m.s.size()-m.pos);
    FileReader r = f->reader();
    CHECK(r.d == f->fp() && r.size() == m.s.size()-m.pos, "the reader of file %d is not the rest of the file", i);
    CHECK(memcmp(f->fp()-m.pos, m.s.data(), m.s.size()) == 0, "the mapped bytes of file %d differ", i);
}
void exec(const Case& c) {
    g_unmap_err = 0;
    size_t base = g_maps.size();
    if (c.op == "open") {
        std::string fn = fpath("o.bin"); put(fn, "hello");
        switch (c.a(2)) {
            case 0: CHECK(throws_error([&]{ File f {fn, READ, 3}; }), "READ with a size is accepted"); CHECK(get(fn) == "hello", "the file changed"); break;
            case 1: CHECK(throws_error([&]{ File f {fn, WRITE, 0}; }), "WRITE without a size is accepted"); break;
            case 2: CHECK(throws_error([&]{ File f {fpath("nosuch"), READ}; }), "a missing file is opened"); break;
            case 3: CHECK(throws_error([&]{ File f {fpath("nosuch/x"), WRITE, 4}; }), "an unwritable file is opened"); break;
            case 4: { ROFile f {fn}; CHECK(f.size() == 5 && f.left() == 5, "size %zu", f.size()); CHECK(throws_error([&]{ f.seek(5); }), "seek to the end"); CHECK(throws_error([&]{ f.seek(6); }), "seek past the end"); f.seek(4); CHECK(f.left() == 1, "seek(4)"); break; }
            case 5: { for (size_t n : {1, 2, 4095, 4096, 4097, 10000}) { { WFile f {fn, n}; CHECK(f.size() == n && f.left() == n, "size %zu for %zu", f.size(), n); } CHECK(get(fn).size() == n, "the created file has another size than %zu", n); } break; }
            case 6: { { WFile f {fn, 3}; f.write('a'); f.write('b'); f.write('c'); CHECK(throws_error([&]{ f.write('d'); }), "write beyond the end"); } CHECK(get(fn) == "abc", "contents"); break; }
            case 7: { ROFile f {fn}; f.read<uint32_t>(); CHECK(throws_error([&]{ f.read<uint16_t>(); }), "read beyond the end"); CHECK(f.read<char>() == 'o', "last byte"); break; }
            case 8: { ROFile f {fn}; f.read("hel"); CHECK(throws_error([&]{ f.read("lox"); }), "read of a longer string"); f.read("lo"); CHECK(f.left() == 0, "left"); f.read(""); break; }
            case 9: { { WFile f {fn, 4}; std::string s = "wxyz"; CHECK(throws_error([&]{ f.write(std::string("abcde")); }), "string beyond the end"); f.write(s); } CHECK(get(fn) == "wxyz", "string contents"); break; }
            case 10: { ROFile f {fn}; char b[8]; CHECK(throws_error([&]{ f.parallel_read(b, 6); }), "block read beyond the end"); CHECK(throws_error([&]{ f.parallel_read(b, (size_t)-1); }), "huge block read"); f.parallel_read(b, 5); CHECK(!memcmp(b, "hello", 5), "block"); break; }
            case 11: { WFile f {fn, 5}; char b[8] = "abcdefg"; CHECK(throws_error([&]{ f.parallel_write(b, 6); }), "block write beyond the end"); f.parallel_write(b, 5); break; }
        }
        CHECK(g_maps.size() == base && g_unmap_err == 0, "mappings are not released exactly once");
        return;
    }
    File* f[3] = {0,0,0}; M m[3]; int ids = 0;
    auto expect_throw = [&](bool should, bool did, const char* what, int i) { CHECK(should == did, "%s on file %d %s", what, i, did ? "was refused" : "was accepted beyond the end"); };
    for (size_t k = 2; k+3 < c.p.size(); k += 4) {
        int op = c.p[k], i = c.p[k+1], j = c.p[k+2]; size_t n = c.p[k+3];
        if (!f[i] || (op == 0 && !m[i].own)) {
            delete f[i]; f[i] = 0; m[i] = M();
            m[i].own = true; m[i].id = ids++; std::string fn = fpath(("s" + std::to_string(i)).c_str()) + (m[i].id % 2 ? "x" : "y") + std::to_string(m[i].id % 5) ;
            unlink(fn.c_str());
            if (op % 2) { m[i].s = std::string(n+1, 0); m[i].wr = true; f[i] = new File(fn, WRITE, n+1); memset((char*)f[i]->fp(), 0, n+1); }
            else { for (size_t q = 0; q < n+1; ++q) m[i].s += (char)('a'+(q+m[i].id)%26); put(fn, m[i].s); f[i] = new File(fn, READ); }
            check(f[i], m[i], i); continue;
        }
        if (!m[i].own) { if (op == 3) { delete f[i]; f[i] = 0; } if (op < 4 || op > 5) continue; }
        M& a = m[i]; size_t left = a.own ? a.s.size()-a.pos : 0;
        switch (op) {
            case 0: case 1: { bool t = throws_error([&]{ f[i]->seek(n); }); expect_throw(n >= a.s.size(), t, "seek", i); if (!t) a.pos = n; break; }
            case 2: { uint32_t v = 0; bool t = throws_error([&]{ v = f[i]->read<uint32_t>(); }); expect_throw(left < 4, t, "read", i); if (!t) { CHECK(!memcmp(&v, &a.s[a.pos], 4), "read another value"); a.pos += 4; } break; }
            case 3: delete f[i]; f[i] = 0; a = M(); break;
            case 4: case 5: // move assign / construct
                if (i == j) { if (op == 4) { *f[i] = std::move(*f[i]); } break; }
                if (op == 4 && f[j]) { *f[j] = std::move(*f[i]); m[j] = a; a = M(); }
                else { delete f[j]; f[j] = new File(std::move(*f[i])); m[j] = a; a = M(); }
                break;
            case 6: if (a.wr) { uint16_t v = (uint16_t)(n*257); bool t = throws_error([&]{ f[i]->write(v); }); expect_throw(left < 2, t, "write", i); if (!t) { memcpy(&a.s[a.pos], &v, 2); a.pos += 2; } } break;
            case 7: { std::string b(n, 1); bool t = throws_error([&]{ f[i]->parallel_read(&b[0], n); }); expect_throw(left < n, t, "parallel_read", i); if (!t) { CHECK(b == a.s.substr(a.pos, n), "block differs"); a.pos += n; } break; }
            case 8: if (a.wr) { std::string b(n, (char)n); bool t = throws_error([&]{ f[i]->parallel_write(&b[0], n); }); expect_throw(left < n, t, "parallel_write", i); if (!t) { a.s.replace(a.pos, n, b); a.pos += n; } } break;
            case 9: { std::string w = a.s.substr(a.pos, n); bool bad = n % 3 == 0; if (bad) w += "?"; bool ex = a.s.compare(a.pos, w.size(), w) != 0; bool t = throws_error([&]{ f[i]->read(w); }); CHECK(ex == t, "string read %s", t ? "refused" : "accepted"); if (!t) a.pos += w.size(); break; }
            case 10: { FileType t = AUTO; bool th = throws_error([&]{ t = f[i]->guess_file_type(); }); CHECK(!th && t == EDGE_LIST, "the name of file %d was lost", i); break; }
            default: break;
        }
        size_t owners = 0;
        for (int q = 0; q < 3; ++q) { if (f[q]) check(f[q], m[q], q); owners += f[q] && m[q].own; }
        CHECK(g_maps.size() == base + owners, "%zu mappings for %zu owners", g_maps.size()-base, owners);
        CHECK(g_unmap_err == 0, "a mapping was released twice or with a wrong size");
    }
    for (int q = 0; q < 3; ++q) delete f[q];
    CHECK(g_maps.size() == base && g_unmap_err == 0, "mappings are not released exactly once");
}
