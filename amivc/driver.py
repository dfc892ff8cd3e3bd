"""Generated C++ driver: runs single library functions of the current source tree on concrete arguments.

The driver is generated from the function table of the front end, compiled together with /repo/src on every run and
talked to over pipes.  Objects are built in poisoned memory so that unset members do not accidentally hold zero.
"""
import os, subprocess, glob, selectors, time, signal, shutil, tempfile, resource, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import terms as tm
from .terms import STRUCTS

HEAD = r'''
#include <iostream>
#include <fstream>
#include <sstream>
#include <complex>
#include <vector>
#include <string>
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <numeric>
#include <functional>
#include <random>
#include <chrono>
#include <iomanip>
#include <new>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <type_traits>
#include <typeinfo>
#include <unistd.h>
%(boost)s
#define private public
#define protected public
#include "ami_base.hpp"
#undef private
#undef protected

#ifndef FILL
#define FILL 0xA5
#endif
static FILE *OUT;
struct In { char tok[512]; const char *next(){ if(scanf("%%511s",tok)!=1) exit(0); return tok; } } in;
template<class T> typename std::enable_if<std::is_enum<T>::value>::type rd(T &x){ x=(T)strtol(in.next(),0,10); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type rd(T &x){ x=(T)strtoll(in.next(),0,10); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type rd(T &x){ x=strtod(in.next(),0); }
template<class T> void rd(std::complex<T> &x){ T a,b; rd(a); rd(b); x=std::complex<T>(a,b); }
template<class A,class B> void rd(std::pair<A,B> &p){ rd(p.first); rd(p.second); }
%(fwd)s
template<class T> void rd(std::vector<T> &v){ size_t n; rd(n); v.clear(); for(size_t i=0;i<n;i++){ T x{}; rd(x); v.push_back(x);} }
template<class T> typename std::enable_if<std::is_enum<T>::value>::type wr(const T &x){ fprintf(OUT,"%%ld ",(long)x); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type wr(const T &x){ fprintf(OUT,"%%lld ",(long long)x); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type wr(const T &x){ fprintf(OUT,"%%.17g ",(double)x); }
%(mpw)s
template<class T> void wr(const std::complex<T> &x){ wr(x.real()); wr(x.imag()); }
template<class A,class B> void wr(const std::pair<A,B> &p){ wr(p.first); wr(p.second); }
%(fwdw)s
template<class T> void wr(const std::vector<T> &v){ fprintf(OUT,"%%zu ",v.size()); for(size_t i=0;i<v.size();i++){ T x=v[i]; wr(x);} }
'''


def rw(name, fields):
    q = 'AmiBase::' + name
    a = 'void rd(%s &x){ %s }\n' % (q, ' '.join('rd(x.%s);' % f for f in fields))
    b = 'void wr(const %s &x){ %s }\n' % (q, ' '.join('wr(x.%s);' % f for f in fields))
    return a, b


def source(prog, funcs, ctors=()):
    structs = [n for n in STRUCTS if n in prog.records and n != 'AmiBase']
    fields = [f for f, _ in STRUCTS['AmiBase']]
    boost = ''
    if 'BOOST_MP' in prog.defs:
        boost = '#include <boost/multiprecision/float128.hpp>'
    s = HEAD % {'boost': boost, 'mpw': 'void wr(const boost::multiprecision::float128 &x){ wr(x.convert_to<double>()); }' if boost else '',
                'fwd': ''.join('void rd(AmiBase::%s &x);\n' % n for n in structs),
                'fwdw': ''.join('void wr(const AmiBase::%s &x);\n' % n for n in structs)}
    for n in structs:
        a, b = rw(n, [f for f, _ in STRUCTS[n]])
        s += a + b
    s += 'static void rds(AmiBase &o){ %s }\n' % ' '.join('rd(o.%s);' % f for f in fields)
    s += 'static void wrs(AmiBase &o){ %s }\n' % ' '.join('wr(o.%s);' % f for f in fields)
    s += '''
template<class T> struct Box { alignas(T) char mem[sizeof(T)]; T *p; Box(){ memset(mem,FILL,sizeof mem); p=new(mem) T(); } ~Box(){ p->~T(); } };
static Box<AmiBase> *obj=nullptr;
#define FRESH() AmiBase *O; { int keep; rd(keep); if(!keep||!obj){ delete obj; obj=new Box<AmiBase>(); } O=obj->p; int st; rd(st); if(st) rds(*O); }
'''
    cases = ''
    for i, (label, f) in enumerate(funcs):
        c = '  case %d: { FRESH();\n' % i
        names = []
        for j, q in enumerate(f.params):
            ty = q['type'].get('desugaredQualType') or q['type']['qualType']
            ty = ty.replace('const ', '').rstrip('& ').strip()
            c += '    typename std::decay<%s>::type a%d{}; rd(a%d);\n' % (fix(ty), j, j)
            names.append('a%d' % j)
        void = f.type.split('(')[0].strip() == 'void'
        call = 'O->%s(%s)' % (f.name, ', '.join(names))
        c += '    try {\n'
        c += '      %s;\n' % call if void else '      auto r=%s;\n' % call
        c += '      fprintf(OUT,"OK ");' + ('' if void else ' wr(r);')
        for a in names:
            c += ' wr(%s);' % a
        c += ' wrs(*O); fprintf(OUT,"\\n");\n'
        c += '    } catch(std::exception &e) { fprintf(OUT,"EXC %s\\n",typeid(e).name()); }\n    } break;\n'
        cases += c
    k = len(funcs)
    for i, (label, rec, params, names) in enumerate(ctors):
        c = '  case %d: {\n' % (k + i)
        for j, ty in enumerate(params):
            c += '    typename std::decay<%s>::type a%d{}; rd(a%d);\n' % (fix(ty), j, j)
        c += '    alignas(AmiBase::%s) static char mem[sizeof(AmiBase::%s)]; memset(mem,FILL,sizeof mem);\n' % (rec, rec)
        c += '    AmiBase::%s *p=new(mem) AmiBase::%s(%s);\n' % (rec, rec, ','.join('a%d' % j for j in range(len(params))))
        c += '    fprintf(OUT,"OK "); wr(*p); fprintf(OUT,"\\n"); p->~%s(); } break;\n' % rec
        cases += c
    s += 'int main(){ OUT=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3;\n'
    s += '  for(;;){ int op=atoi(in.next()); switch(op){\n' + cases + '  default: return 4; }\n  fflush(OUT); } }\n'
    return s


def fix(ty):
    import re
    ty = ty.replace('const ', '')
    for n in STRUCTS:
        if n in ('AmiBase',) or '<' in n:
            continue
        ty = re.sub(r'(?<![\w:])(?:struct )?%s\b' % re.escape(n), 'AmiBase::' + n, ty)
    ty = re.sub(r'(?<![\w:])(?=(g_prod_t|R_t|P_t|S_t|Ri_t|Pi_t|Si_t|pole_array_t|sign_t|g_prod_array_t|SorF_t|ami_spec|terms|epsilon_t|alpha_t|energy_t|frequency_t|ref_t|ref_v_t|R_ref_t|ref_eval_t|Pi_t)\b)', 'AmiBase::', ty)
    return ty


class Build:
    def __init__(self, prog, src, funcs, ctors=(), flags=('-O1',), workdir=None, tag='d'):
        self.dir = workdir
        self.funcs = funcs
        self.index = {l: i for i, (l, _) in enumerate(funcs)}
        for i, c in enumerate(ctors):
            self.index[c[0]] = len(funcs) + i
        self.exe = os.path.join(workdir, 'driver_' + tag)
        self.prog = prog
        drv = os.path.join(workdir, 'driver_%s.cpp' % tag)
        with open(drv, 'w') as f:
            f.write(source(prog, funcs, ctors))
        self.error = None
        self.cpps, self.flags, self.tag = None, flags, tag
        self.src, self.drv = src, drv

    def compile(self):
        prog, src, drv, flags, tag, workdir = self.prog, self.src, self.drv, self.flags, self.tag, self.dir
        defs = ['-D' + d for d in prog.defs]
        cpps = sorted(glob.glob(src + '/*.cpp')) + [drv]
        objs = []
        base = ['g++', '-std=gnu++17' if 'BOOST_MP' in prog.defs else '-std=c++14', '-w', '-I' + src, '-D_GLIBCXX_ASSERTIONS'] + list(flags) + defs

        def one(c):
            o = os.path.join(workdir, tag + '_' + os.path.basename(c) + '.o')
            p = subprocess.run(base + ['-c', c, '-o', o], capture_output=True, text=True)
            return c, o, p
        with ThreadPoolExecutor(8) as ex:
            for c, o, p in ex.map(one, cpps):
                if p.returncode:
                    self.error = '%s: %s' % (c, p.stderr[-1500:])
                objs.append(o)
        if not self.error:
            p = subprocess.run(base + objs + ['-o', self.exe] + (['-lquadmath'] if 'BOOST_MP' in prog.defs else []), capture_output=True, text=True)
            if p.returncode:
                self.error = p.stderr[-1500:]
        for o in objs:
            try:
                os.unlink(o)
            except OSError:
                pass
        return self.error


def ser(v, s, out):
    if s == 'Int':
        out.append(str(int(v)))
    elif s == 'Bool':
        out.append('1' if v else '0')
    elif s == 'Real':
        out.append(repr(float(v)))
    elif s == 'Cx':
        v = complex(v)
        out.append(repr(v.real))
        out.append(repr(v.imag))
    elif s[0] == 'Vec':
        out.append(str(len(v)))
        for x in v:
            ser(x, s[1], out)
    elif s[0] == 'St':
        for (f, fs), x in zip(STRUCTS[s[1]], v):
            ser(x, fs, out)
    else:
        raise ValueError(s)


def des(it, s):
    if s == 'Int':
        return int(next(it))
    if s == 'Bool':
        return next(it) != '0'
    if s == 'Real':
        return float(next(it))
    if s == 'Cx':
        a = float(next(it))
        return complex(a, float(next(it)))
    if s[0] == 'Vec':
        return tuple([des(it, s[1]) for _ in range(int(next(it)))])
    if s[0] == 'St':
        return tuple([des(it, fs) for f, fs in STRUCTS[s[1]]])
    raise ValueError(s)


class Crash(Exception):
    pass


class Driver:
    def __init__(self, build, timeout=20):
        self.b = build
        self.timeout = timeout
        self.p = None

    def start(self):
        def lim():
            if 'asan' not in self.b.exe:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
        self.err = open(self.b.exe + '.err', 'wb+')
        self.p = subprocess.Popen([self.b.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, preexec_fn=lim, env=env,
                                  cwd=self.b.dir)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.p.stdout, selectors.EVENT_READ)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def call(self, label, args, sorts, retsort, outsorts, state=None, keep=False):
        """-> (ret, outs, state) ; raises Crash"""
        if self.p is None:
            self.start()
        o = [str(self.b.index[label])]
        o.append('1' if keep else '0')
        o.append('0' if state is None else '1')
        if state is not None:
            for (f, s), v in zip(STRUCTS['AmiBase'], state):
                ser(v, s, o)
        for v, s in zip(args, sorts):
            ser(v, s, o)
        self.last = ' '.join(o)
        line = self.roundtrip(self.last)
        if line.startswith('EXC'):
            raise Crash('exception ' + line[4:].strip())
        it = iter(line.split()[1:])
        r = des(it, retsort) if retsort is not None else None
        outs = [des(it, s) for s in outsorts]
        st = tuple(des(it, s) for f, s in STRUCTS['AmiBase'])
        return r, outs, st

    def construct(self, label, args, sorts, rec):
        if self.p is None:
            self.start()
        o = [str(self.b.index[label])]
        for v, s in zip(args, sorts):
            ser(v, s, o)
        self.last = ' '.join(o)
        line = self.roundtrip(self.last)
        it = iter(line.split()[1:])
        return des(it, ('St', rec))

    def roundtrip(self, text):
        import threading
        try:
            self.p.stdin.write((text + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf = []
        end = time.time() + self.timeout
        while True:
            ev = self.sel.select(max(0, end - time.time()))
            if not ev:
                self.close()
                raise Crash('no answer within %d s' % self.timeout)
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                rc = self.p.wait()
                self.p = None
                self.err.seek(0)
                e = self.err.read().decode(errors='replace')
                e = '\n'.join([l for l in e.splitlines() if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'assertion' in l or 'terminate' in l][:3])
                raise Crash('ended with status %d %s' % (rc, e[:600]))
            buf.append(d)
            if d.endswith(b'\n'):
                return b''.join(buf).decode()
