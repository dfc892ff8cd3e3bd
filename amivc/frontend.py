"""clang AST (JSON) of /repo/src/*.cpp -> function table, struct table, type parser."""
import json, subprocess, glob, os, re, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import terms as tm

CLANG = os.environ.get('AMIVC_CLANG', 'clang++-18')


class Unsupported(Exception):
    pass


_qm = []


def quadmath():
    """gcc's quadmath.h on its own (clang does not look there)"""
    if not _qm:
        import tempfile, atexit, shutil
        d = tempfile.mkdtemp(prefix='amivc_qm')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        p = subprocess.run(['g++', '-print-file-name=include/quadmath.h'], capture_output=True, text=True)
        os.symlink(p.stdout.strip(), os.path.join(d, 'quadmath.h'))
        _qm.append(d)
    return _qm[0]


def dump(src, cpp, filt, defs=()):
    std = ['-std=gnu++17', '-I' + quadmath()] if 'BOOST_MP' in defs else ['-std=c++14']
    cmd = [CLANG] + std + ['-I' + src, '-fsyntax-only', '-w'] + ['-D' + d for d in defs] + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, cpp]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0 and not p.stdout.strip():
        raise Unsupported('clang failed on %s: %s' % (cpp, p.stderr[-600:]))
    s = p.stdout
    dec = json.JSONDecoder()
    i, docs = 0, []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


class Func:
    def __init__(self, name, mangled, node, tu, cls):
        self.name = name
        self.mangled = mangled
        self.node = node
        self.tu = tu
        self.cls = cls
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c['kind'] == 'CompoundStmt'), None)
        self.type = node.get('type', {}).get('qualType', '')


class TU:
    def __init__(self, cpp):
        self.cpp = cpp
        self.ids = {}        # id -> node (functions, fields, ctors)
        self.owner = {}      # id -> record name



def number_lines(doc):
    """clang prints the line of a location only where it changes"""
    cur = [None]
    stack = [doc]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'offset' in x and 'tokLen' in x:
                if 'line' in x:
                    cur[0] = x['line']
                else:
                    x['line'] = cur[0]
            stack.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        else:
            stack.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


class Program:
    def __init__(self, src='/repo/src', defs=()):
        self.src = src
        self.defs = tuple(defs)
        self.tus = []
        self.funcs = {}      # mangled -> Func (with body)
        self.by_name = {}    # name -> [Func]
        self.typedefs = {}
        self.records = {}    # name -> {'fields': [(name, typestr, init node)], 'ctors': [nodes]}
        self.enums = {}
        self.helpers = {}
        self.log = []
        files = sorted(glob.glob(src + '/*.cpp'))
        if 'BOOST_MP' in self.defs:
            quadmath()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda f: dump(src, f, 'AmiBase', defs), files))
        for f, docs in zip(files, res):
            self.add_tu(f, docs)
        self.define_structs()

    def add_tu(self, cpp, docs):
        for d in docs:
            number_lines(d)
        tu = TU(cpp)
        self.tus.append(tu)
        for d in docs:
            self.scan(d, tu, None)

    def scan(self, n, tu, cls):
        k = n.get('kind')
        if k == 'CXXRecordDecl' and n.get('completeDefinition'):
            name = n.get('name')
            rec = {'fields': [], 'ctors': [], 'tu': tu}
            if name and name not in self.records:
                self.records[name] = rec
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    init = next((x for x in c.get('inner', []) if not x.get('kind', '').endswith('Comment')), None) if c.get('hasInClassInitializer') else None
                    rec['fields'].append((c['name'], ctype(c), init))
                    tu.ids[c['id']] = c
                elif ck == 'CXXConstructorDecl':
                    rec['ctors'].append(c)
                    tu.ids[c['id']] = c
                    tu.owner[c['id']] = name
                    if any(x['kind'] == 'CompoundStmt' for x in c.get('inner', [])):
                        f = Func(name, c.get('mangledName') or name, c, tu, name)
                        self.funcs.setdefault(f.mangled, f)
                else:
                    self.scan(c, tu, name)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs.setdefault(n['name'], n['type'].get('desugaredQualType', n['type']['qualType']) if False else n['type']['qualType'])
            return
        if k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    e = find_const(c)
                    if e is not None:
                        v = e
                    self.enums[c['name']] = v
                    tu.ids[c['id']] = c
                    v += 1
            return
        if k in ('FunctionTemplateDecl',):
            for c in n.get('inner', []):
                if c.get('kind') in ('CXXMethodDecl', 'FunctionDecl'):
                    self.scan(c, tu, cls)
            return
        if k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
            tu.ids[n['id']] = n
            f = Func(n.get('name'), n.get('mangledName') or n.get('name'), n, tu, cls or 'AmiBase' if k != 'FunctionDecl' else None)
            if f.body is not None:
                if f.mangled not in self.funcs:
                    self.funcs[f.mangled] = f
                    self.by_name.setdefault(f.name, []).append(f)
            return
        if k in ('LinkageSpecDecl', 'NamespaceDecl'):
            for c in n.get('inner', []):
                self.scan(c, tu, cls)

    # ------------------------------------------------------------ types
    def define_structs(self):
        # order matters: pole_struct/g_struct before term
        done = set()

        def define(name):
            if name in done or name not in self.records:
                return
            done.add(name)
            fs = []
            for f, ty, _ in self.records[name]['fields']:
                try:
                    s = self.sort(ty)
                except Unsupported:
                    continue
                fs.append((f, s))
            tm.STRUCTS[name] = fs
        for name in list(self.records):
            if name != 'AmiBase':
                define(name)
        fs = []
        for f, ty, _ in self.records['AmiBase']['fields']:
            try:
                fs.append((f, self.sort(ty)))
            except Unsupported:
                self.log.append('AmiBase field %s of unsupported type %s ignored' % (f, ty))
        tm.STRUCTS['AmiBase'] = fs

    def sort(self, ty):
        ty = clean(ty)
        c = _sorts.get((id(self), ty))
        if c is None:
            c = self._sort(ty)
            _sorts[(id(self), ty)] = c
        return c

    def _sort(self, ty):
        if ty in ('int', 'unsigned int', 'unsigned long', 'long', 'unsigned', 'size_t', 'std::size_t', 'short', 'char', 'unsigned char',
                  'long long', 'unsigned long long', 'ptrdiff_t', 'difference_type', 'size_type', 'int64_t', 'uint64_t', 'int32_t'):
            return 'Int'
        if ty == 'bool':
            return 'Bool'
        if ty in ('double', 'float', 'long double', '__float128'):
            return 'Real'
        if ty in ('boost::multiprecision::float128', 'float128') or ty.startswith('boost::multiprecision::number<') :
            return 'Real'
        if ty == 'void':
            return 'Unit'
        m = re.match(r'(?:std::)?complex<(.*)>$', ty)
        if m:
            return 'Cx'
        m = re.match(r'(?:std::)?vector<(.*)>$', ty)
        if m:
            a = split_targs(m.group(1))
            return tm.vec(self.sort(a[0]))
        m = re.match(r'(?:std::)?initializer_list<(.*)>$', ty)
        if m:
            return tm.vec(self.sort(m.group(1)))
        m = re.match(r'(?:std::)?pair<(.*)>$', ty)
        if m:
            a = split_targs(m.group(1))
            return tm.pair_sort(self.sort(a[0]), self.sort(a[1]))
        m = re.match(r'(?:std::)?remove_reference<(.*)>::type$', ty)
        if m:
            return self.sort(m.group(1))
        m = re.match(r'__gnu_cxx::__alloc_traits<std::allocator<(.*)>.*>::value_type$', ty)
        if m:
            return self.sort(split_targs(m.group(1))[0])
        m = re.match(r'(?:std::)?vector<(.*)>::(size_type|difference_type)$', ty)
        if m:
            return 'Int'
        short = ty.split('::')[-1] if '<' not in ty else ty
        if short in self.records and short != 'AmiBase':
            return ('St', short)
        if short in self.typedefs:
            return self.sort(self.typedefs[short])
        if ty.startswith('enum ') or short in ('stat_type', 'graph_type', 'int_type', 'disp_type', 'ext_type') or '(unnamed enum' in ty or 'anonymous enum' in ty:
            return 'Int'
        if short in ('size_type', 'difference_type'):
            return 'Int'
        raise Unsupported('type ' + ty)

    # ------------------------------------------------------------ lookup
    def resolve(self, ref, tu):
        """ref: referencedDecl / id -> Func with body or None"""
        rid = ref['id'] if isinstance(ref, dict) else ref
        n = tu.ids.get(rid)
        if n is not None:
            m = n.get('mangledName') or n.get('name')
            return self.funcs.get(m), n
        return None, None

    def constant(self, name, tu):
        """the declaration of a constant with an initialiser (not a local one), or None"""
        key = ('const', tu.cpp, name)
        if key not in self.helpers:
            self.helpers[key] = None
            try:
                docs = dump(self.src, tu.cpp, name, self.defs)
            except Unsupported:
                docs = []

            def rec(n):
                if n.get('kind') == 'VarDecl' and n.get('name') == name and n.get('init') and \
                        (n.get('constexpr') or re.match(r'const\b|.*\bconst$', n['type']['qualType'])):
                    self.helpers[key] = n
                elif n.get('kind') in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl'):
                    for c in n.get('inner', []):
                        rec(c)
            for d in docs:
                rec(d)
        return self.helpers[key]

    def helper(self, name, typ, tu):
        key = (tu.cpp, name)
        if key not in self.helpers:
            self.helpers[key] = []
            try:
                docs = dump(self.src, tu.cpp, name, self.defs)
            except Unsupported:
                docs = []
            h = TU(tu.cpp)
            out = []

            def rec(n):
                if n.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    h.ids[n['id']] = n
                    f = Func(n.get('name'), n.get('mangledName') or n.get('name'), n, h, None)
                    if f.body is not None and f.name == name:
                        out.append(f)
                elif n.get('kind') in ('FunctionTemplateDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
                    for c in n.get('inner', []):
                        rec(c)
            for d in docs:
                rec(d)
            self.helpers[key] = out
        fs = self.helpers[key]
        for f in fs:
            if f.type == typ:
                return f
        return fs[0] if len(fs) == 1 else None


_sorts = {}


def clean(ty):
    ty = ty.strip()
    ty = re.sub(r'\b(const|volatile|struct|class|typename)\b\s*', '', ty)
    ty = ty.replace('AmiBase::', '').replace('std::__cxx11::', 'std::')
    ty = re.sub(r'\s*(&&|&)\s*$', '', ty.strip()).strip()
    ty = ty.replace('__cxx11::', '')
    return ty.strip()


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def ctype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def find_const(n):
    if n.get('kind') in ('IntegerLiteral',):
        return int(n['value'])
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        return int(n['value'])
    for c in n.get('inner', []):
        r = find_const(c)
        if r is not None:
            return r
    return None
