#!/usr/bin/env python3
"""Generates the planted bugs under seeded/ and tries them in a scratch copy.

  bugs.py gen            write seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}
  bugs.py try [id...]    in a scratch copy: applies, builds, tests, demo, check

No check reads seeded/ or this file."""
import os, sys, subprocess, json, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/pigo'
PRE = r'''
#include "pigo.hpp"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <set>
#include <map>
#include <algorithm>
#include <iostream>
using namespace pigo;
static void put(const std::string& fn, const std::string& s) { std::ofstream o(fn, std::ios::binary); o << s; }
static std::string get(const std::string& fn) { std::ifstream i(fn, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
int main() {
'''
SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -g -fopenmp %(flags)s -Iinclude "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" || exit 2
export OMP_NUM_THREADS=%(threads)d OMP_DYNAMIC=false %(env)s
%(run)s
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, threads=4, flags='', env='', reps=1):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                     threads=threads, flags=flags, env=env, reps=reps))


I = INC + '/impl/pigo.impl.hpp'
C = INC + '/impl/coo.impl.hpp'
R = INC + '/impl/csr.impl.hpp'
T = INC + '/impl/tensor.impl.hpp'
G = INC + '/impl/graph.impl.hpp'
P = 'include/pigo.hpp'
CH = INC + '/coo.hpp'
TH = INC + '/tensor.hpp'
GH = INC + '/graph.hpp'
RH = INC + '/csr.hpp'
ASAN = '-fsanitize=address'

bug('b02', 'C01', [(I, "void FileReader::move_to_non_int() {\n        while (d < end &&", "void FileReader::move_to_non_int() {\n        while (d <= end &&")],
    'a reader whose range is narrowed so that a digit follows its end',
    'move_to_non_int reads the byte at the end and leaves the position past the end',
    r'''char* p = new char[3]; p[0]='1'; p[1]='2'; p[2]='3'; FileReader r(p, p+3); r.move_to_non_int();
    CHECK(r.d == p+3); std::string s = "12345"; FileReader q(s.data(), s.data()+2); q.move_to_non_int(); CHECK(q.d == s.data()+2);
    delete [] p; return 0; }''', flags=ASAN)
bug('b03', 'C03', [(I, "            obj /= 10;\n            ++res;\n        } while (obj != 0);", "            obj /= 10;\n            ++res;\n        } while (obj > 0);")],
    'a negative value of at least two digits in a signed integer type',
    'write_size of a negative value counts one digit only',
    r'''CHECK(write_size((int)-5) == 2); CHECK(write_size((int)-57) == 3); CHECK(write_size((long)-123456) == 7); return 0; }''')
bug('b09', 'C10', [(C, '        if (O_size != sizeof(O)) throw Error("Invalid COO template parameters to match binary");\n', '        (void)O_size;\n')],
    'a binary COO loaded with the same label type and a wider ordinal type',
    'the ordinal size is not checked, so a mismatched file is misread instead of refused',
    r'''put("a.el", "1 2\n3 4\n5 6\n"); COO<uint32_t,uint32_t> c("a.el", EDGE_LIST); c.save("a.bin");
    bool bad = false; try { COO<uint32_t,uint16_t> d("a.bin", PIGO_COO_BIN); bad = true; } catch (Error&) {} CHECK(!bad); return 0; }''')
bug('b10', 'C13', [(R, "                #pragma omp atomic\n                ++all_degs[deg_inc];", "                ++all_degs[deg_inc];")],
    'several threads counting entries of the same row at the same time',
    'row degrees are counted with a data race, so counts are lost',
    r'''for (int rep = 0; rep < 20; ++rep) { size_t m = 200000; COO<uint32_t,uint32_t,uint32_t*> c(3, 3, 3, m); for (size_t i = 0; i < m; ++i) { c.x()[i] = i%2; c.y()[i] = 2; }
    CSR<uint32_t,uint32_t,uint32_t*,uint32_t*> r(c); CHECK(r.offsets()[0] == 0); CHECK(r.offsets()[1] == m/2); CHECK(r.offsets()[2] == m); CHECK(r.offsets()[3] == m); c.free(); r.free(); } return 0; }''', threads=8)
bug('b14', 'C20', [(I, "            if (thread_id == num_threads-1)\n                my_data = v_size-my_data*(num_threads-1);\n\n            size_t start_pos = (thread_id*(v_size/num_threads));\n\n            // Memcpy the region\n            char* o_in", "            if (thread_id == num_threads-1 && my_data > 0)\n                my_data = v_size-my_data*(num_threads-1);\n\n            size_t start_pos = (thread_id*(v_size/num_threads));\n\n            // Memcpy the region\n            char* o_in")],
    'a block read of fewer bytes than there are threads',
    'small blocks are not copied at all',
    r'''char src[5] = {1,2,3,4,5}, dst[5] = {0,0,0,0,0}; FilePos p = src; parallel_read(p, dst, 5); CHECK(p == src+5); for (int i = 0; i < 5; ++i) CHECK(dst[i] == i+1); return 0; }''', threads=8)
bug('b15', 'C21', [(I, "            size_t tid_end_i = ((tid+1)*tsize)/num_threads;\n            FileReader r = *this;\n            FileReader rs = r + tid_start_i;\n            FileReader re = r + tid_end_i;\n\n            // Next, move to the 'real' starting point\n            re.move_to(c);\n            if (tid != 0)\n                rs.move_to(c);\n            rs.smaller_end(re);\n\n            FileReader rs_p1 = rs;\n\n            // Now, for pass 1",
                       "            size_t tid_end_i = (tid+1)*(tsize/num_threads);\n            FileReader r = *this;\n            FileReader rs = r + tid_start_i;\n            FileReader re = r + tid_end_i;\n\n            // Next, move to the 'real' starting point\n            re.move_to(c);\n            if (tid != 0)\n                rs.move_to(c);\n            rs.smaller_end(re);\n\n            FileReader rs_p1 = rs;\n\n            // Now, for pass 1"),
                   (I, "            size_t tid_end_i = ((tid+1)*tsize)/num_threads;\n            FileReader r = *this;\n            FileReader rs = r + tid_start_i;\n            FileReader re = r + tid_end_i;\n\n            // Next, move to the 'real' starting point\n            re.move_to(c);\n            if (tid != 0)\n                rs.move_to(c);\n            rs.smaller_end(re);\n\n            FileReader rs_p1 = rs;\n\n            // Now, for pass 2",
                       "            size_t tid_end_i = (tid+1)*(tsize/num_threads);\n            FileReader r = *this;\n            FileReader rs = r + tid_start_i;\n            FileReader re = r + tid_end_i;\n\n            // Next, move to the 'real' starting point\n            re.move_to(c);\n            if (tid != 0)\n                rs.move_to(c);\n            rs.smaller_end(re);\n\n            FileReader rs_p1 = rs;\n\n            // Now, for pass 2")],
    'two sites: a range whose size is not a multiple of the thread count, with several occurrences near its end',
    'occurrences in the tail of the range are lost',
    r'''std::string s(23, 'a'); for (int i = 15; i < 23; ++i) s[i] = 'x'; FileReader r(s.data(), s.data()+s.size());
    auto t = r.find_offsets<Tensor<uint32_t,uint32_t,std::vector<uint32_t>,float,float*,false>>('x'); auto& v = t.c();
    CHECK(v.size() == 8); for (unsigned i = 0; i < 8; ++i) CHECK(v[i] == 15+i); return 0; }''', threads=8)
bug('b16', 'C14', [(R.replace('csr', 'coo'), "                    if (detail::if_true_<wgt>())\n                        detail::set_value_(w_, coo_cur, *cur_weight);\n                    ++coo_cur;", "                    if (detail::if_true_<wgt>() && new_x != new_y)\n                        detail::set_value_(w_, coo_cur, *cur_weight);\n                    ++coo_cur;")],
    'a weighted symmetric COO built from a CSR that has a self-loop',
    'the second copy of a self-loop has no weight',
    r'''COO<int,int,int*,false,false,false,true,int,int*> c(4,4,4,3); int x[]={1,2,3},y[]={3,2,0},w[]={7,5,8}; for (int i=0;i<3;++i){c.x()[i]=x[i];c.y()[i]=y[i];c.w()[i]=w[i];}
    CSR<int,int,int*,int*,true,int,int*> r(c); COO<int,int,int*,true,false,false,true,int,int*> d(r); CHECK(d.m()==6); for (int i=0;i<6;++i) { int e = d.x()[i]+d.y()[i]==4 && d.x()[i]!=2 ? 7 : d.x()[i]==2 ? 5 : 8; CHECK(d.w()[i]==e); } return 0; }''', env='MALLOC_PERTURB_=165')
bug('b17', 'C23', [(I, "            if (data_)\n                munmap(data_, size_);\n            data_ = o.data_;", "            data_ = o.data_;")],
    'move-assigning onto a File that already has a mapping',
    'the mapping previously owned is never released',
    r'''put("a", "hello"); put("b", "world"); { ROFile f("a"); ROFile g("b"); f = std::move(g); } std::string m = get("/proc/self/maps"); char buf[4096]; CHECK(realpath("a", buf)); CHECK(m.find(buf) == std::string::npos); return 0; }''')
bug('b18', 'C26', [(I, "        if (fn_.size() >= ext_mtx.size() &&\n                fn_.compare(fn_.size() - ext_mtx.size(), ext_mtx.size(), ext_mtx) == 0)", "        if (fn_.size() >= ext_mtx.size() &&\n                fn_.find(ext_mtx) != std::string::npos)")],
    'a file name that contains .mtx but does not end in it',
    'such a file is taken for a Matrix Market file',
    r'''put("a.mtx.el", "1 2\n"); ROFile f("a.mtx.el"); CHECK(f.guess_file_type() == EDGE_LIST); return 0; }''')
bug('b20', 'C12', [(T, '            if (W_size != sizeof(W)) throw Error("Invalid Tensor template parameters to match binary");', '            if (W_size > sizeof(W)) throw Error("Invalid Tensor template parameters to match binary");')],
    'a binary weighted tensor loaded with a wider weight type and enough data to satisfy the size check',
    'the weight size mismatch is not refused',
    r'''put("a.el", "1 2 3 4 5 6 1.5\n4 5 6 7 8 9 2.5\n"); Tensor<uint32_t,uint32_t,uint32_t*,float,float*,true> t("a.el", EDGE_LIST); CHECK(t.order()==6); t.save("a.bin");
    { std::ofstream o("a.bin", std::ios::binary|std::ios::app); o << std::string(64, 'x'); }
    bool bad = false; try { Tensor<uint32_t,uint32_t,uint32_t*,double,double*,true> u("a.bin", PIGO_TENSOR_BIN); bad = true; } catch (Error&) {} CHECK(!bad); return 0; }''')
bug('b22', 'C18', [(CH, "                    free();\n                    n_ = other.n_;", "                    if (m_ != other.m_) free();\n                    n_ = other.n_;")],
    'assigning a COO over one with the same number of entries',
    'the storage previously held is leaked',
    r'''COO<> a(3,3,3,1000), b(3,3,3,1000); for (int i=0;i<1000;++i){a.x()[i]=i;a.y()[i]=i;b.x()[i]=b.y()[i]=1;} uint32_t* volatile old = b.x(); (void)old; b = a; CHECK(b.x()[7]==7); old = nullptr; a.free(); b.free(); return 0; }''', flags=ASAN, env='ASAN_OPTIONS=detect_leaks=1')
bug('b23', 'C24', [(P, "                it.resize(nmemb);", "                if (it.size() < nmemb) it.resize(nmemb);")],
    'allocating fewer elements in a vector that already holds more',
    'allocating room for k elements does not give room for exactly k elements',
    r'''std::vector<int> v(10); detail::allocate_mem_(v, 4); CHECK(v.size() == 4); return 0; }''')
bug('b25', 'C22', [(T, "for (O idx = 0; idx < order_; ++idx) {\n                    L v = line.read_int<L>();", "for (O idx = 0; idx < order_ && line.good(); ++idx) {\n                    L v = line.read_int<L>();")],
    'a line with fewer coordinates than the first',
    'missing coordinates are left uninitialised instead of 0',
    r'''put("a.el", "1 2 3\n4\n5 6 7\n"); Tensor<uint32_t,uint32_t,uint32_t*,float,float*,false> t("a.el", EDGE_LIST); CHECK(t.m()==3); uint32_t e[]={1,2,3,4,0,0,5,6,7}; for (int i=0;i<9;++i) CHECK(t.c()[i]==e[i]); return 0; }''', env='MALLOC_PERTURB_=165')
bug('b06', 'C05', [(C, "if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;\n                ++coord_pos;", "if (if_true_<sym>() && !if_true_<ut>() && (unsigned)x != (unsigned)y) ++coord_pos;\n                ++coord_pos;")],
    'a symmetric load with 64-bit labels of an entry whose labels agree in their low 32 bits',
    'the counting pass allocates fewer entries than the second pass writes',
    r'''put("a.el", "1 4294967297\n3 4\n"); COO<uint64_t,uint64_t,uint64_t*,true,false,false> c("a.el", EDGE_LIST); CHECK(c.m() == 4); return 0; }''')
bug('b07', 'C08', [(C, "            if (nnz != m_) {", "            if (nnz > m_) {")],
    'a Matrix Market header that declares fewer non-zeros than the file has',
    'the contradiction between header and file is accepted',
    r'''put("a.mtx", "%%MatrixMarket matrix coordinate pattern general\n9 12 2\n1 2\n3 4\n5 6\n"); bool bad = false; try { COO<> c("a.mtx", MATRIX_MARKET); bad = true; } catch (Error&) {} CHECK(!bad); return 0; }''')
bug('b08', 'C06', [(C, "if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);", "if (if_true_<sym>() && if_true_<ut>() && (int)x > (int)y) std::swap(x, y);")],
    'a symmetric triangle-only load of a label of at least 2^31',
    'entries with a label above 2^31 are stored in the wrong triangle',
    r'''put("a.el", "1 2\n4 3\n3000000000 5\n6 3000000001\n"); COO<uint32_t,uint32_t,uint32_t*,true,true,false> c("a.el", EDGE_LIST); CHECK(c.m()==4); for (int i=0;i<4;++i) CHECK(c.x()[i] <= c.y()[i]); return 0; }''')
bug('b13', 'C17', [(R, "for (size_t thread = 1; thread < num_threads; ++thread) {\n            if (max_labels[thread] > col_max)", "for (size_t thread = 2; thread < num_threads; ++thread) {\n            if (max_labels[thread] > col_max)")],
    'the largest neighbour lies in the part of the second thread',
    'the column count misses the labels seen by one thread',
    r'''std::string s = "16 16\n"; for (int i = 0; i < 16; ++i) s += i == 5 ? "99\n" : i == 1 ? "10\n" : "11\n"; put("a.graph", s);
    CSR<> c("a.graph", GRAPH); CHECK(c.ncols() == 100); return 0; }''')
bug('b19', 'C27', [(T, "        for (size_t tid = 0; tid < num_threads; ++tid) {\n            for (O idx = 0; idx < order_; ++idx)\n                if", "        for (size_t tid = 0; tid < num_threads; ++tid) {\n            for (O idx = 0; idx < order_ && maxes[tid][idx] > 0; ++idx)\n                if")],
    'a thread that sees only zeros in a dimension before one with larger labels',
    'later dimensions of a thread are ignored once one of its maxima is 0',
    r'''put("a.el", "1 0 3\n4 0 6\n"); Tensor<uint32_t,uint32_t,uint32_t*,float,float*,false> t("a.el", EDGE_LIST); auto v = t.max_labels(); CHECK(v.size()==3); CHECK(v[0]==4); CHECK(v[1]==0); CHECK(v[2]==6); return 0; }''')
bug('b24', 'C09', [(C, "                auto y = detail::get_value_<S, L>(y_, e);\n                my_size += write_size(y);", "                int y = detail::get_value_<S, L>(y_, e);\n                my_size += write_size(y);")],
    'a column label of at least 2^31',
    'the predicted size of a line differs from what is written',
    r'''COO<uint32_t,uint32_t> c(4,4,4,3); for (unsigned i=0;i<3;++i){c.x()[i]=i;c.y()[i]=3000000000u+i;} c.write("o"); CHECK(get("o") == "0 3000000000\n1 3000000001\n2 3000000002\n"); return 0; }''')
bug('b27', 'C20', [(I, "            size_t start_pos = (thread_id*(v_size/num_threads));\n\n            // Memcpy the region\n            char* o_out", "            int start_pos = (thread_id*(int)(v_size/num_threads));\n\n            // Memcpy the region\n            char* o_out")],
    'a block write of more than 2 GiB',
    'start positions are computed in int and overflow for large blocks',
    r'''size_t n = (size_t)11 << 28; char* v = (char*)mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); CHECK(v != MAP_FAILED);
    v[n-1] = 7; char* w = (char*)mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); CHECK(w != MAP_FAILED); FilePos q = w; parallel_write(q, v, n); CHECK(w[n-1] == 7); return 0; }''', threads=8)
bug('b28', 'C19', [('include/pigo/matrix.hpp', "                auto coo_copy = coo;\n                coo_copy.transpose();\n", "                auto& coo_copy = coo;\n                coo_copy.transpose();\n"),
                   ('include/pigo/matrix.hpp', "                        > { coo_copy };\n                coo_copy.free();\n", "                        > { coo_copy };\n"),
                   ('include/pigo/matrix.hpp', "                        > { coo };\n            }\n\n        public:", "                        > { coo.m() > 1 ? coo.transpose() : coo };\n            }\n\n        public:")],
    'several sites: a matrix built from a COO with a single off-diagonal entry',
    'the row side and the source of a single-entry matrix end up transposed',
    r'''COO<> c(4,4,4,1); c.x()[0]=1; c.y()[0]=2; Matrix<> m(c); CHECK(c.x()[0]==1); CHECK(c.y()[0]==2); CHECK(m.csr().offsets()[2]-m.csr().offsets()[1]==1); CHECK(m.csc().offsets()[3]-m.csc().offsets()[2]==1); return 0; }''')


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make_copy():
    d = tempfile.mkdtemp(prefix='bug', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def edit(d, b):
    for f, a, n in b['edits']:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(a) != 1:
            raise SystemExit('%s: %d matches of %r in %s' % (b['id'], s.count(a), a[:60], f))
        open(p, 'w').write(s.replace(a, n))


def gen(only=None):
    d = make_copy()
    try:
        for b in BUGS:
            if only and b['id'] not in only: continue
            if b['edits'][0][1] == 'XXX': continue
            out = os.path.join(HERE, 'seeded', b['id'])
            os.makedirs(out, exist_ok=True)
            subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
            edit(d, b)
            diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
            # only original lines may be changed
            for f in {e[0] for e in b['edits']}:
                bl = subprocess.check_output(['git', '-C', d, 'blame', '-s', 'HEAD', '--', f], text=True).splitlines()
                h = subprocess.check_output(['git', '-C', d, 'diff', '-U0', '--', f], text=True).splitlines()
                for l in h:
                    if l.startswith('@@'):
                        a = l.split()[1][1:].split(',')
                        st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        for k in range(st, st + n):
                            if not bl[k-1].startswith('^'):
                                print(b['id'], 'touches a fixed line', f, k)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.cpp', 'w').write(PRE + b['demo'] + '\n')
            runl = 'timeout 120 ./demo'
            if b['reps'] > 1: runl = 'for i in $(seq %d); do timeout 60 ./demo || exit 1; done' % b['reps']
            sh = SH % dict(flags=b['flags'], threads=b['threads'], env=b['env'], run=runl)
            open(out + '/demo.sh', 'w').write(sh)
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def tests(d, out):
    """build and test the copy the way /opt/vp does, with paths rewritten"""
    bs = open('/opt/vp/build.sh').read().replace('/repo', d)
    ts = open('/opt/vp/test.sh').read().replace('/repo', d).replace('/opt/vp/build.sh', d + '/.b.sh')
    open(d + '/.b.sh', 'w').write(bs); open(d + '/.t.sh', 'w').write(ts)
    shutil.rmtree(d + '/_build', ignore_errors=True)
    r = run(['bash', d + '/.b.sh'])
    if r.returncode: return None, r.stdout[-2000:]
    r = run(['bash', d + '/.t.sh', out])
    return out, r.stdout[-500:]


def trial(ids, check=True, dotests=True):
    for b in BUGS:
        if ids and b['id'] not in ids: continue
        if b['edits'][0][1] == 'XXX': continue
        s = os.path.join(HERE, 'seeded', b['id'])
        d = make_copy()
        try:
            msg = []
            r0 = run(['bash', s + '/demo.sh'], cwd=d)
            subprocess.check_call(['git', '-C', d, 'apply', s + '/patch.diff'])
            r1 = run(['bash', s + '/demo.sh'], cwd=d)
            msg.append('demo %d/%d' % (r0.returncode, r1.returncode))
            if r0.returncode: msg.append(r0.stdout[-400:])
            if r1.returncode in (0, 2): msg.append('DEMO?' + r1.stdout[-400:])
            if dotests:
                o, txt = tests(d, d + '/.out.json')
                if o is None: msg.append('BUILD FAILED ' + txt)
                else:
                    base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open(o))
                    def passed(x):
                        if isinstance(x, dict):
                            for k in ('stable', 'passed'):
                                if k in x: return set(map(str, x[k] if not isinstance(x[k], dict) else [t for t, v in x[k].items() if v in (True, 'pass', 'passed')]))
                        return set()
                    miss = passed(base) - passed(got)
                    msg.append('tests %d%s' % (len(passed(got)), (' MISSING %s' % sorted(miss)[:3]) if miss else ''))
            if check:
                env = dict(os.environ, PIGO_REPO=d, PIGO_INC=d + '/include', VERIF_SEED='1', VERIF_TIER='quick')
                r = run(['python3-vt', HERE + '/check.py', b['prop']], env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                msg.append('check rc=%d %s' % (r.returncode, v[:2]))
                if r.returncode not in (0, 1): msg.append(r.stdout[-600:])
            print(b['id'], b['prop'], *msg, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'gen': gen(set(sys.argv[2:]))
    elif sys.argv[1] == 'try': trial(set(sys.argv[2:]))
    elif sys.argv[1] == 'test': trial(set(sys.argv[2:]), check=False)
    elif sys.argv[1] == 'check': trial(set(sys.argv[2:]), dotests=False)
