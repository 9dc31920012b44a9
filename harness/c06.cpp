#include "el.hpp"
static const unsigned long long MX[] = {0xfffffffeULL,0xfffffffeULL,0xfffffffeULL,0xfffffffeULL,0xfffffffeULL,0xfffffffeULL,0xfffffffeULL,0xfffffffffffffffeULL,0xfffffffeULL,65534};
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fx = {"1 2\n", "2 1", "3 3\n", "5 3\n3 5\n4 4\n", "1 1\n1 1\n2 1\n1 2", "%c\n2 1\n7 7", "0 0", "9 1\n1 9\n", "1 2\n2 1\n3 3\n4 0\n0 4\n5 5\n"};
    int ty = idx % 10; long k = idx / 10; c.op = "load";
    if (k < (long)fx.size()*6) { c.data = fx[k/6]; c.p = {k%6+1, 0, ty}; return true; }
    bool big = r.chance(1);
    El e = mk_el(r, r.chance(70) ? 6 : MX[ty], ty == 8 ? 1 : 0, big ? r.in(1000, 20000) : r.in(1, r.chance(50) ? 4 : 30), big);
    if (e.text.empty()) return false;
    c.data = e.text; c.p = {pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty};
    return true;
}
typedef uint32_t u;
void exec(const Case& c) {
    std::string fn = fpath("g.el"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: check_el<u,u,u*,true,false,false>(fn, c.data); break;
        case 1: check_el<u,u,u*,false,true,false>(fn, c.data); break;
        case 2: check_el<u,u,u*,true,true,false>(fn, c.data); break;
        case 3: check_el<u,u,u*,false,false,true>(fn, c.data); break;
        case 4: check_el<u,u,u*,true,false,true>(fn, c.data); break;
        case 5: check_el<u,u,u*,false,true,true>(fn, c.data); break;
        case 6: check_el<u,u,u*,true,true,true>(fn, c.data); break;
        case 7: check_el<uint64_t,uint64_t,std::vector<uint64_t>,true,false,true>(fn, c.data); break;
        case 8: check_el<u,u,u*,true,false,true,true,int,int*>(fn, c.data); break;
        case 9: check_el<uint16_t,u,std::shared_ptr<uint16_t>,true,true,false>(fn, c.data); break;
    }
}
