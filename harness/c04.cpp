#include "el.hpp"
static const unsigned long long MX[] = {0xfffffffeULL, 0xfffffffffffffffeULL, 0xfffffffeULL, 254, 0x7ffffffe, 65534};
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fx = {"1 2\n", "1 2", "0 0\n", "5 3\n3 5\n", "%c\n1 2\n", "1 2\n%c", "1 2\n%c\n3 4", "\n\n1 2\n\n3 4\n\n", "10 20\r\n30 40\r\n", "# x\n# 1 2\n7 8\n#9 9\n1 1", "1 2 3 4\n5 6 7 8", "1,2\n3,4", "1\t2\n3\t4\n", "  1 2\n 3 4", "1 2 %5 6\n3 4", "%", "#\n", "%\n\n", "1 2\n#", "0 1\n1 2\n2 3\n3 4\n4 5\n5 6\n6 7\n7 0\n"};
    int ty = idx % 6; long k = idx / 6;
    c.op = "load"; 
    if (k < (long)fx.size()*8) { c.data = fx[k/8]; c.p = {k%8+1, 0, ty}; return true; }
    bool big = r.chance(1);
    El e = mk_el(r, MX[ty], 0, big ? r.in(1000, 30000) : r.in(1, r.chance(50) ? 4 : 30), big);
    if (e.text.empty()) return false;
    c.data = e.text; c.p = {pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty};
    return true;
}
void exec(const Case& c) {
    std::string fn = fpath("g.el"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: check_el<uint32_t,uint32_t,uint32_t*,false,false,false>(fn, c.data); break;
        case 1: check_el<uint64_t,uint64_t,std::vector<uint64_t>,false,false,false>(fn, c.data); break;
        case 2: check_el<uint32_t,uint64_t,std::shared_ptr<uint32_t>,false,false,false>(fn, c.data, AUTO); break;
        case 3: check_el<uint8_t,uint32_t,uint8_t*,false,false,false>(fn, c.data); break;
        case 4: check_el<int,int,int*,false,false,false>(fn, c.data); break;
        case 5: check_el<uint16_t,uint32_t,std::vector<uint16_t>,false,false,false>(fn, c.data); break;
    }
}
