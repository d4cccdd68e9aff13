"""Assumed contracts of std::string, the stream classes and the standard exceptions."""
from models import *
from models import _defs
import text as T

# ---------------------------------------------------------------- strings
# a std::string object is one model cell at its address; its value is a Text
def str_cell(ex, st, p, line):
    o = ex.obj(st, p, line, 'string access')
    if o is None: return None
    if o.mode != 'S':
        raise Unsupported('string inside an array element')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[0], Rec) or c[0].kind != 'str':
        if c is not None and isinstance(c[0], Undef): raise Unsupported('string left over from an earlier iteration')
        ex.fail(st, 'use of a string that is not alive', 'memory', line); return None
    return c[0]
def put_str(ex, st, p, text, line):
    o = ex.obj(st, p, line, 'string write')
    if o is None: return False
    if o.mode != 'S': raise Unsupported('string inside an array element')
    o = st.w(p.obj); ex.clear(o, p.off, 32); o.cells[p.off] = (Rec('str', text=Text(T.norm(text))), 32); return True
def lit_text(ex, st, p):
    s = ex.cstr(st, p)
    if s is not None: return (T.lit(s),)
    if isinstance(p, Rec) and p.kind == 'cstr': return p.text.a
    if isinstance(p, Ptr) and p.obj is not None:
        o = st.objs.get(p.obj)
        if o is not None and -2000 in o.cells: return o.cells[-2000][0].text.a
    raise Unsupported('text of an unknown character pointer')
S_ = 'std::basic_string::'
def son(*n): return on(*[S_ + x for x in n])
@son('basic_string')
def s_ctor(ex, st, a, c):
    d = c.dem; m = re.search(r'>::basic_string(<[^(]*>)?\(', d); q = d[m.end() - 1:] if m else '()'
    if len(a) == 1 or q.startswith('(std::allocator'): t = ()
    elif re.match(r'\(std::(__cxx11::)?basic_string', q) or q.startswith('(std::string'):
        r = str_cell(ex, st, a[1], c.line)
        if r is None: return dead()
        t = r.text.a
        if len(a) > 3 or (len(a) == 3 and 'allocator' not in ptype(c, 1)): raise Unsupported('substring constructor')
        if '&&' in q:
            if not put_str(ex, st, a[1], (), c.line): return dead()
    elif q.startswith('(char const*'):
        if len(a) == 3 and 'allocator' not in ptype(c, 1) or len(a) > 3:
            s = ex.cstr(st, a[1]); n = a[2]
            if not (s is not None and isinstance(n, int) and n == len(s)): raise Unsupported('string from a range of characters')
            t = (T.lit(s),)
        else: t = lit_text(ex, st, a[1])
    elif 'unsigned long, char' in q and isinstance(a[1], int) and a[1] <= 1: t = (('char', a[2]),) * a[1]
    else: raise Unsupported('string constructor ' + q[:80])
    return ret(st) if put_str(ex, st, a[0], t, c.line) else dead()
@son('~basic_string')
def s_dtor(ex, st, a, c):
    r = str_cell(ex, st, a[0], c.line)
    if r is None: return dead()
    o = st.w(a[0].obj); del o.cells[a[0].off]; return ret(st)
@on('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator', 'std::__new_allocator::~__new_allocator')
def al_ctor(ex, st, a, c): return ret(st)
def text_arg(ex, st, a, ty, line):
    ty = ty.replace(' const', '').strip()
    if 'basic_string' in ty or ty.startswith('std::string'):
        r = str_cell(ex, st, a, line); return r.text.a if r is not None else None
    if ty.startswith('char') and ty.endswith('*'): return lit_text(ex, st, a)
    if ty == 'char': return (('char', charval(ex, st, a)),)
    raise Unsupported('text argument ' + ty[:60])
def charval(ex, st, v): return ex.norm_s(st, v, 8) if not isinstance(v, int) else v % 256 - (256 if v % 256 > 127 else 0)
@son('operator=', 'assign')
def s_assign(ex, st, a, c):
    t = text_arg(ex, st, a[1], ptype(c, 0), c.line)
    if t is None or str_cell(ex, st, a[0], c.line) is None: return dead()
    return ret(st, a[0]) if put_str(ex, st, a[0], t, c.line) else dead()
@son('operator+=', 'append', 'push_back')
def s_append(ex, st, a, c):
    if len(a) != 2: raise Unsupported(c.dem[:100])
    t = text_arg(ex, st, a[1], ptype(c, 0), c.line); r = str_cell(ex, st, a[0], c.line)
    if t is None or r is None: return dead()
    return ret(st, a[0]) if put_str(ex, st, a[0], r.text.a + tuple(t), c.line) else dead()
@on('std::operator+')
def s_plus(ex, st, a, c):
    if 'basic_string' not in c.dem: raise Unsupported(c.dem[:100])
    x = text_arg(ex, st, a[1], ptype(c, 0), c.line); y = text_arg(ex, st, a[2], ptype(c, 1), c.line)
    if x is None or y is None: return dead()
    return ret(st) if put_str(ex, st, a[0], tuple(x) + tuple(y), c.line) else dead()
@son('c_str', 'data')
def s_cstr(ex, st, a, c):
    r = str_cell(ex, st, a[0], c.line)
    if r is None: return dead()
    o = new_obj(st, 'S', 'cstr', 'c_str'); o.cells[-2000] = (r, 32); o.const = True
    return ret(st, Ptr(o.id))
@on('std::to_string')
def s_tostring(ex, st, a, c):
    ty = ptype(c, 0); 
    if ty == 'double' or ty == 'float': t = (('fn', 'to_string(double)', (a[1].plain(),)),)
    else:
        w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}[ty]
        t = (('int', ex.norm_u(st, a[1], w) if 'unsigned' in ty else ex.norm_s(st, a[1], w)),)
    return ret(st) if put_str(ex, st, a[0], t, c.line) else dead()
def str_eq(ex, st, a, c, neg):
    x = text_arg(ex, st, a[0], ptype(c, 0), c.line); y = text_arg(ex, st, a[1], ptype(c, 1), c.line)
    if x is None or y is None: return dead()
    x, y = T.norm(x), T.norm(y)
    if same(x, y): e = True
    elif len(x) <= 1 and len(y) <= 1 and all(z[0] == 'lit' for z in x + y): e = x == y
    else: e = fresh_bool('streq')
    return ret(st, Not(e) if neg else e)
EQ_MODELS['basic_string'] = str_eq

# ---------------------------------------------------------------- output streams
KEY = -1000
def new_stream(st, p, **f):
    o = st.w(p.obj); g = dict(text=Text(), bad=False, alpha=False, fmt=0); g.update(f)
    o.cells[KEY] = (Rec('stream', **g), 0)
def stream(ex, st, p, line):
    o = ex.obj(st, p, line, 'stream access')
    if o is None: return None
    c = o.cells.get(KEY)
    if c is None:
        ex.fail(st, 'use of a stream that is not alive', 'memory', line); return None
    return c[0]
def set_stream(st, p, r): o = st.w(p.obj); o.cells[KEY] = (r, 0)
def emit(ex, st, p, atoms, line):
    r = stream(ex, st, p, line)
    if r is None: return False
    if r.bad is True: return True
    if r.bad is not False: atoms = (('if', Not(r.bad), tuple(atoms), ()),)
    if r.fmt != 0 and any(x[0] in ('int', 'flt') for x in atoms): atoms = tuple(('fn', f'fmt{r.fmt}', tuple(x[1:])) if x[0] in ('int', 'flt') else x for x in atoms)
    set_stream(st, p, r.upd(text=Text(T.norm(r.text.a + tuple(atoms))))); return True
SS = ('basic_ostringstream', 'basic_stringstream', 'basic_istringstream')
@on(*[f'std::{s}::{s}' for s in SS])
def ss_ctor(ex, st, a, c):
    t = (); 
    if len(a) >= 2 and isinstance(a[1], Ptr):
        if 'ios_base' in ptype(c, 0) or isinstance(a[1], int): t = ()
        else:
            r = str_cell(ex, st, a[1], c.line)
            if r is None: return dead()
            t = r.text.a
    o = ex.obj(st, a[0], c.line, 'stream construction')
    if o is None: return dead()
    new_stream(st, a[0], text=Text(t if 'basic_ostringstream' not in c.dem else t)); return ret(st)
@on(*[f'std::{s}::~{s}' for s in SS])
def ss_dtor(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    o = st.w(a[0].obj); o.cells = {}; return ret(st)
@on(*[f'std::{s}::str' for s in SS])
def ss_str(ex, st, a, c):
    if c.sret:
        r = stream(ex, st, a[1], c.line)
        if r is None: return dead()
        return ret(st) if put_str(ex, st, a[0], r.text.a, c.line) else dead()
    r = stream(ex, st, a[0], c.line); s = str_cell(ex, st, a[1], c.line)
    if r is None or s is None: return dead()
    set_stream(st, a[0], r.upd(text=s.text)); return ret(st)
def num_atom(ex, st, v, ty, r=None):
    ty = ty.replace(' const', '').replace('&', '').strip()
    if isinstance(v, Undef):
        return None
    if ty == 'bool': return ('bool', zb(ex.tobool(v)) if not isinstance(v, bool) else v, r.alpha if r else False)
    if ty in ('double', 'float', 'long double'): return ('flt', v.plain())
    if ty in ('char', 'signed char', 'unsigned char'): return ('char', charval(ex, st, v))
    if ty.endswith('*'): return ('ptr', v)
    w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16, 'unsigned short': 16}[ty]
    return ('int', ex.norm_u(st, v, w) if 'unsigned' in ty else ex.norm_s(st, v, w))
@on('std::ostream::operator<<')
def os_member(ex, st, a, c):
    ty = ptype(c, 0)
    if '(*)' in ty or 'ios_base&' in ty:
        return manip(ex, st, a[0], a[1], c)
    if ty in ('nullptr_t', 'std::nullptr_t') : return ret(st, a[0]) if emit(ex, st, a[0], (T.lit('nullptr'),), c.line) else dead()
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    at = num_atom(ex, st, a[1], ty, r)
    if at is None: ex.fail(st, 'output of an uninitialised value', 'memory', c.line); return dead()
    return ret(st, a[0]) if emit(ex, st, a[0], (at,), c.line) else dead()
def manip(ex, st, p, f, c):
    if not isinstance(f, Fn): raise Unsupported('unknown manipulator')
    d = simple_name((ex.funcs.get(f.name) or ex.decls.get(f.name))['dem'])
    r = stream(ex, st, p, c.line)
    if r is None: return dead()
    if d == 'std::endl': return ret(st, p) if emit(ex, st, p, (T.lit('\n'),), c.line) else dead()
    if d == 'std::flush': return ret(st, p)
    if d == 'std::boolalpha': set_stream(st, p, r.upd(alpha=True)); return ret(st, p)
    if d == 'std::noboolalpha': set_stream(st, p, r.upd(alpha=False)); return ret(st, p)
    if d in ('std::ws',): return ws(ex, st, p, c)
    raise Unsupported('manipulator ' + d)
def ws(ex, st, p, c): raise Unsupported('std::ws')
@on('std::boolalpha', 'std::noboolalpha')
def ba(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    set_stream(st, a[0], r.upd(alpha='noboolalpha' not in c.dem)); return ret(st, a[0])
@on('std::endl', 'std::flush')
def endl(ex, st, a, c):
    if 'endl' in simple_name(c.dem) and not emit(ex, st, a[0], (T.lit('\n'),), c.line): return dead()
    return ret(st, a[0])
@on('std::ostream::flush')
def osflush(ex, st, a, c): return ret(st, a[0])
@on('std::ostream::put')
def osput(ex, st, a, c): return ret(st, a[0]) if emit(ex, st, a[0], (('char', charval(ex, st, a[1])),), c.line) else dead()
@on('std::operator<<')
def os_free(ex, st, a, c):
    ty = ptype(c, 1)
    if isinstance(a[1], Undef): ex.fail(st, 'output of an uninitialised value', 'memory', c.line); return dead()
    if c.name in ex.funcs and 'basic_string' not in ty and 'char' not in ty and '_Setw' not in ty and '_Setprec' not in ty:
        return ex.exec_fn(st, c.name, a, c.depth + 1)
    if ty.startswith('char const*') or ty.startswith('signed char const*'):
        if isinstance(a[1], Ptr) and a[1].obj is None and a[1].off == 0:
            ex.fail(st, 'output of a null character pointer', 'pre', c.line); return dead()
        return ret(st, a[0]) if emit(ex, st, a[0], lit_text(ex, st, a[1]), c.line) else dead()
    if 'basic_string<' in ty:
        r = str_cell(ex, st, a[1], c.line)
        if r is None: return dead()
        return ret(st, a[0]) if emit(ex, st, a[0], r.text.a, c.line) else dead()
    if ty in ('char', 'signed char', 'unsigned char'): return ret(st, a[0]) if emit(ex, st, a[0], (('char', charval(ex, st, a[1])),), c.line) else dead()
    raise Unsupported('output of ' + ty[:80])
@on('vf::operator<<')
def os_opaque(ex, st, a, c):
    k = ptype(c, 1).replace('const&', '').strip().split('::')[-1]
    t = ex.op_get(st, a[1], k, c.line)
    if t is None: return dead()
    return ret(st, a[0]) if emit(ex, st, a[0], (('op', k, zi(t)),), c.line) else dead()
@on('std::ios::rdstate', 'std::ios::fail', 'std::ios::bad', 'std::ios::good', 'std::ios::operator!', 'std::ios::operator-conv', 'std::ios::eof')
def ios_state(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    n = simple_name(c.dem).split('::')[-1]
    if 'inp' in r.f: return INP['state'](ex, st, a, c, r, n)
    bad = r.bad
    if n == 'rdstate': return ret(st, Ite(bad, 1, 0))
    if n in ('fail', 'bad', 'operator!'): return ret(st, bad)
    if n == 'eof': return ret(st, False)
    return ret(st, Not(bad))
INP = {}
@on('std::ios_base::flags')
def ios_flags(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    old = Rec('fmtflags', alpha=r.alpha, fmt=r.fmt)
    if len(a) == 2:
        if not (isinstance(a[1], Rec) and a[1].kind == 'fmtflags'): raise Unsupported('stream flags')
        set_stream(st, a[0], r.upd(alpha=a[1].alpha, fmt=a[1].fmt))
    return ret(st, old)
@on('std::ios_base::setf', 'std::ios_base::unsetf')
def ios_setf(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    old = Rec('fmtflags', alpha=r.alpha, fmt=r.fmt)
    if len(a) == 2 and a[1] == 1:   # ios_base::boolalpha
        set_stream(st, a[0], r.upd(alpha='unsetf' not in c.dem)); return ret(st, old)
    raise Unsupported('stream flags')
@on('std::ios_base::width', 'std::ios_base::precision')
def ios_width(ex, st, a, c):
    if len(a) == 1: return ret(st, 6 if 'precision' in c.dem else 0)
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    set_stream(st, a[0], r.upd(fmt=f'{r.fmt}/{simple_name(c.dem)}{a[1]}')); return ret(st, 0)
@on('std::ios::setstate', 'std::ios::clear')
def ios_setstate(ex, st, a, c):
    r = stream(ex, st, a[0], c.line)
    if r is None: return dead()
    if 'inp' in r.f: return INP['setstate'](ex, st, a, c, r, simple_name(c.dem).split('::')[-1])
    if simple_name(c.dem).endswith('clear'): bad = False if (len(a) == 1 or a[1] == 0) else True
    else: bad = r.bad if (isinstance(a[1], int) and a[1] == 0) else True
    set_stream(st, a[0], r.upd(bad=bad)); return ret(st)

# ---------------------------------------------------------------- exceptions
EXN = ('runtime_error', 'logic_error', 'out_of_range', 'invalid_argument', 'length_error', 'domain_error', 'range_error', 'overflow_error')
@on(*[f'std::{e}::{e}' for e in EXN])
def exn_ctor(ex, st, a, c):
    p = ptype(c, 0)
    if 'basic_string' in p:
        r = str_cell(ex, st, a[1], c.line)
        if r is None: return dead()
        t = r.text
    elif p.startswith('char const*'): t = Text(lit_text(ex, st, a[1]))
    else:
        o = ex.obj(st, a[1], c.line, 'exception copy')
        if o is None: return dead()
        t = o.cells[a[1].off][0].text
    o = st.w(a[0].obj); o.cells[a[0].off] = (Rec('exc', text=t), 16); return ret(st)
@on(*[f'std::{e}::~{e}' for e in EXN], 'std::exception::~exception', 'std::exception::exception')
def exn_dtor(ex, st, a, c): return ret(st)
@on(*[f'std::{e}::what' for e in EXN], 'std::exception::what')
def exn_what(ex, st, a, c):
    o = ex.obj(st, a[0], c.line, 'exception access')
    if o is None: return dead()
    r = o.cells.get(a[0].off)
    q = new_obj(st, 'S', 'cstr', 'what'); q.cells[-2000] = (Rec('str', text=r[0].text if r and isinstance(r[0], Rec) else Text((('var', 'what'),))), 32); q.const = True
    return ret(st, Ptr(q.id))
Exec.what = staticmethod(exn_what)
