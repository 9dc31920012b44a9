#include "el.hpp"
static const int WKIND[] = {3,3,1,1,2,1,3,1,1,3};
static const unsigned long long M4 = 0xfffffffeULL, M8 = 0xfffffffffffffffeULL, MX[] = {M4,M4,M4,M4,M4,M4,M8,M4,M4,M4};
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fx = {"1 2 5\n", "1 2 -5", "2 1 -7\n1 2 3", "3 3 9\n1 2 4\n", "1 2 1\n2 1 2\n3 3 3\n", "1 2\n3 4 5\n", "1 2 5\n3 4\n5 6 7", "1 2 10 11\n3 4 -20 1", "1 2 7 %9\n3 4 8", "1 2\t-3\r\n4 5 6\r\n", "5 1 2\n4 1 3\n1 4 9\n", "0 0 1\n0 1 2\n1 1 3\n1 0 4\n"};
    int ty = idx % 10; long k = idx / 10; c.op = "load";
    if (k < (long)fx.size()*6) { c.data = fx[k/6]; if (WKIND[ty] == 2) for (auto& ch : c.data) if (ch == '-') ch = ' '; c.p = {k%6+1, 0, ty}; return true; }
    bool big = r.chance(1);
    El e = mk_el(r, r.chance(70) ? 6 : MX[ty], WKIND[ty], big ? r.in(1000, 20000) : r.in(1, r.chance(50) ? 4 : 30), big);
    if (e.text.empty()) return false;
    c.data = e.text; c.p = {pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty};
    return true;
}
typedef uint32_t u;
void exec(const Case& c) {
    std::string fn = fpath("g.el"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: check_el<u,u,u*,false,false,false,true,float,float*>(fn, c.data); break;
        case 1: check_el<u,u,u*,false,true,true,true,double,std::vector<double>>(fn, c.data); break;
        case 2: check_el<u,u,u*,false,false,false,true,int,int*>(fn, c.data); break;
        case 3: check_el<u,u,u*,true,false,false,true,int,int*>(fn, c.data); break;
        case 4: check_el<u,u,u*,false,false,true,true,unsigned,unsigned*>(fn, c.data); break;
        case 5: check_el<u,u,u*,false,true,false,true,int,int*>(fn, c.data); break;
        case 6: check_el<uint64_t,uint64_t,std::vector<uint64_t>,true,false,true,true,double,std::vector<double>>(fn, c.data); break;
        case 7: check_el<u,u,u*,true,true,true,true,int64_t,std::shared_ptr<int64_t>>(fn, c.data); break;
        case 8: check_el<u,u,u*,false,false,true,true,int8_t,int8_t*>(fn, c.data); break;
        case 9: check_el<u,u,u*,true,true,false,true,float,float*>(fn, c.data); break;
    }
}
