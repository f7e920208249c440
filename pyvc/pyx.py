"""Mechanical extraction of Python text from Cython source.

Dropped: cimport lines, ctypedef lines, type annotations of arguments and locals (recorded in
`types`, which drives C integer / array-access semantics in the engine), inline/cpdef/cdef
keywords, and casts `<T>e`, which become calls `__cast_T(e)`.
Everything else is kept character for character, on the same line numbers.
"""
import re

INTS = {'int', 'Py_ssize_t', 'long', 'unsigned int', 'size_t', 'bint'}
TYPE = r'(?:const\s+)?(?:np\.ndarray\[[^\]]*\]|np\.\w+|[A-Za-z_]\w*(?:\s+int)?(?:\[[^\]]*\])?)'
KNOWN = r'(?:double|int|long|float|complex|Py_ssize_t|DTYPE_t|bint|size_t|np\.ndarray|np\.double_t|np\.int_t|object|unsigned int)'


def typeinfo(t):
    t = re.sub(r"\s+\[", "[", t.strip())
    const = t.startswith('const ')
    t = re.sub(r'^const\s+', '', t)
    if t in INTS:
        return {'c': 'int'}
    m = re.match(r'np\.ndarray\[\s*(\w+)[^\]]*?(?:ndim\s*=\s*(\d+))?\s*\]$', t)
    if m:
        nd = int(m.group(2) or 1)
        return {'array': True, 'nd': nd, 'c': 'complex' if 'complex' in m.group(1) else 'double', 'ndarray': True}
    m = re.match(r'(\w+)\[([^\]]*)\]$', t)
    if m:
        dims = m.group(2).split(',')
        return {'array': True, 'nd': len(dims), 'c': 'complex' if m.group(1) == 'complex' else 'double',
                'const': const, 'layout': m.group(2).replace(' ', '')}
    if t in ('double', 'float', 'DTYPE_t', 'np.double_t'):
        return {'c': 'double'}
    if t == 'complex':
        return {'c': 'complex'}
    return None


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


ARG = re.compile(r'^\s*((?:const\s+)?(?:np\.ndarray\[[^\]]*\]|%s(?:\s*\[[^\]]*\])?))\s+(\w+)\s*(=.*)?$' % KNOWN)


def strip_arg(a):
    m = ARG.match(a)
    if m:
        return (m.group(2) + (m.group(3) or '')), m.group(2), typeinfo(m.group(1))
    return a, None, None


def casts(line):
    """<T>expr -> __cast_T(expr) for expr = name, call or parenthesised"""
    while True:
        m = re.search(r'<\s*(Py_ssize_t|int|double|long|DTYPE_t)\s*>\s*', line)
        if not m:
            return line
        i = m.end()
        j = i
        while j < len(line) and (line[j].isalnum() or line[j] in '_.'):
            j += 1
        if j < len(line) and line[j] in '([':
            depth = 0
            while j < len(line):
                if line[j] in '([':
                    depth += 1
                elif line[j] in ')]':
                    depth -= 1
                    if depth == 0:
                        j += 1
                        break
                j += 1
        line = line[:m.start()] + '__cast_%s(%s)' % (m.group(1), line[i:j]) + line[j:]


def extract(src):
    lines = src.split('\n')
    out = []
    types = {}
    dropped = {'cimport lines': 0, 'type declarations': 0, 'casts': 0, 'typed arguments': 0}
    cur = None
    cur_indent = -1
    i = 0
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        ind = len(ln) - len(ln.lstrip())
        pad = ln[:ind]
        if s and not s.startswith('#') and cur is not None and ind <= cur_indent and not s.startswith((')', '"""')):
            cur = None
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or re.match(r'from\s+\S+\s+cimport\b', s):
            m = re.match(r'from\s+(\S+)\s+cimport\s+(.*)$', s)
            dropped['cimport lines'] += 1
            if m and m.group(1).startswith('libc'):
                out.append(pad + 'from %s import %s' % (m.group(1), m.group(2)))
            elif m and m.group(1) == '.':
                out.append(pad + 'from . import %s' % m.group(2))
            else:
                out.append(pad + 'pass')
            i += 1
            continue
        if s.startswith('ctypedef'):
            out.append(pad + 'pass')
            i += 1
            continue
        m = re.match(r'(cdef|cpdef)\s+(inline\s+)?(?:(%s)\s+)?(\w+)\s*\((.*)$' % TYPE, s)
        d = re.match(r'def\s+(\w+)\s*\((.*)$', s)
        if (m and (m.group(1) == 'cpdef' or '):' in s or s.endswith(',') or s.endswith('(')) and '=' not in s.split('(')[0]) or d:
            # function header, possibly over several lines
            name = m.group(4) if m else d.group(1)
            hdr = s
            k = i
            while not re.search(r'\)\s*(?:nogil|noexcept|except[^:]*)?\s*:\s*(#.*)?$|\)\s*:.*$', hdr) and k + 1 < len(lines):
                k += 1
                hdr += ' ' + lines[k].strip()
            p = hdr.index('(')
            depth = 0
            for q in range(p, len(hdr)):
                if hdr[q] == '(':
                    depth += 1
                elif hdr[q] == ')':
                    depth -= 1
                    if depth == 0:
                        break
            args = split_args(hdr[p + 1:q])
            tail = hdr[q + 1:]
            tail = tail[tail.index(':'):]
            t = {}
            names = []
            for a in args:
                a2, n, ti = strip_arg(a)
                names.append(a2.strip())
                if n and ti:
                    t[n] = ti
                    dropped['typed arguments'] += 1
            out.append(pad + 'def %s(%s)%s' % (name, ', '.join(names), casts(tail)))
            out.extend([''] * (k - i))
            cur, cur_indent = name, ind
            types[name] = t
            i = k + 1
            continue
        m = re.match(r'cdef\s+((?:const\s+)?(?:np\.ndarray\[[^\]]*\]|%s(?:\[[^\]]*\])?))\s+(.*)$' % KNOWN, s)
        if m:
            ti = typeinfo(m.group(1))
            dropped['type declarations'] += 1
            stmts = []
            decl = re.sub(r'\s#.*$', '', m.group(2))
            for a in split_args(decl):
                a = a.strip()
                mm = re.match(r'(\w+)\s*(?:=\s*(.*))?$', a, re.S)
                if not mm:
                    stmts.append('raise NotImplementedError("extraction: %s")' % a.replace('"', "'"))
                    continue
                if cur is not None and ti:
                    types[cur][mm.group(1)] = ti
                if mm.group(2) is not None:
                    stmts.append('%s = %s' % (mm.group(1), casts(mm.group(2))))
            out.append(pad + ('; '.join(stmts) if stmts else 'pass'))
            i += 1
            continue
        if '<' in ln:
            n0 = ln
            ln = casts(ln)
            if ln != n0:
                dropped['casts'] += 1
        out.append(ln)
        i += 1
    return '\n'.join(out), types, dropped
