"""Models exercised by the runtime simulation: .proto text and C++ glue from
one description. `python3 schema.py OUTDIR SEED` writes <model>.proto and
glue_<model>.cc (which includes <model>.pg.hh, generated by the compiler of
the tree under test)."""
import random
import sys
import os

SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string', 'bytes']
KIND = {'double': 'K_DOUBLE', 'float': 'K_FLOAT', 'int32': 'K_I32', 'sint32': 'K_I32', 'sfixed32': 'K_I32',
        'int64': 'K_I64', 'sint64': 'K_I64', 'sfixed64': 'K_I64', 'uint32': 'K_U32', 'fixed32': 'K_U32',
        'uint64': 'K_U64', 'fixed64': 'K_U64', 'bool': 'K_BOOL', 'string': 'K_STRING', 'bytes': 'K_BYTES'}


class F:
    def __init__(self, type, name, num, rep=False, transient=False, json=None, optional=False):
        self.type, self.name, self.num, self.rep = type, name, num, rep
        self.transient, self.json, self.optional = transient, json, optional


class M:
    def __init__(self, name, fields, package=None, hidden=False):
        # package: overrides the model's from here on; hidden: only exercised as part of other messages
        self.name, self.fields, self.package, self.hidden = name, fields, package, hidden


class Model:
    def __init__(self, name, messages, package=None, opts=(), arrays=()):
        self.name, self.messages, self.package, self.opts, self.arrays = name, messages, package, list(opts), list(arrays)


def fields(spec, start=1, **kw):
    """'int32 a; repeated Leaf b' -> fields numbered from start"""
    out = []
    for i, p in enumerate([x.strip() for x in spec.split(';') if x.strip()]):
        w = p.split()
        rep = w[0] == 'repeated'
        opt = w[0] == 'optional'
        if rep or opt:
            w = w[1:]
        tr = 'transient' in w[2:]
        out.append(F(w[0], w[1], start + i, rep, tr, None, opt))
    return out


def all_types(rep):
    return [F(t, ('r_' if rep else 's_') + t, i + 1, rep) for i, t in enumerate(SCALARS)]


def core():
    return Model('core', [
        M('Leaf', fields('int32 num; string text; bytes blob; double real')),
        M('Empty', []),
        M('Tiny', fields('int32 x')),
        M('Text', fields('string s')),
        M('Scalars', all_types(False)),
        M('Repeats', all_types(True) + fields('repeated Leaf leaves; repeated Empty voids', 20)),
        M('Mid', fields('Leaf leaf; repeated Leaf leaves; Empty none; optional bool flag; repeated string tags')),
        M('Trans', fields('string keep; string drop transient; int32 ikeep; int32 idrop transient; repeated int32 rdrop transient; Leaf ldrop transient; Leaf lkeep; repeated Leaf vdrop transient; bytes bdrop transient; uint64 last')),
        M('AllTrans', fields('string a transient; repeated bytes b transient; int64 c transient')),
        M('Top', fields('string id; Mid mid; repeated Mid mids; Scalars sc; Repeats rp; Trans tr; repeated Trans trs; AllTrans at; Empty nothing; float ratio; repeated bool bits; bytes raw; Tiny tiny')),
    ], 'pk.core', arrays=['Leaf', 'Mid', 'Empty', 'Top'])


def lists():
    return Model('lists', [
        M('LItem', fields('string k; repeated double v; repeated bytes chunks; bytes one')),
        M('LAll', all_types(True) + [F('LItem', 'items', 30, True), F('LItem', 'single', 31)]),
    ], None, [('cpp_use_lists', 'true')], arrays=['LItem'])


def nums():
    fs = [F('int32', 'alpha', 7), F('string', 'beta', 3, True), F('double', 'gamma', 12), F('bytes', 'delta', 123456),
          F('bool', 'omega', 1), F('uint64', 'temp', 2, False, True), F('string', 'named', 5, False, False, 'custom'),
          F('NSub', 'sub', 100), F('NSub', 'subs', 101, True)]
    return Model('nums', [M('NSub', fields('int64 v; string w', 10)), M('NMain', fields('float first', 21) + fs)],
                 'pk.nums', [('number_names', 'true')], arrays=['NMain'])


def obf():
    names = ['a', 'ab', 'abc', 'abcd', 'abcde', 'abcdef', 'abcdefg', 'abcdefgh', 'abcdefghi', 'abcdefghij',
             'fieldNumber11', 'UPPER_CASE_12', 'r', 'N', 'rN', 'NNNNNNNN', 'x9x9x9', 'zzzzzzzzzzzzzzzzz', 'i', 'r9N', 'Ir', 'rrrrrrrr', 'name_with_21_letters', 'II', 'IIIIIIIII', 'dddd', 'NrI9dLyv']
    types = ['int32', 'string', 'double', 'bytes', 'bool', 'uint64', 'OSub']
    fs = [F(types[i % len(types)], n, i + 1, i % 5 == 4) for i, n in enumerate(names)]
    sub = fields('string text; int64 number; repeated int32 list')
    return Model('obf', [M('OSub', sub), M('OMain', fs)], 'pk.obf', [('obfuscate_strings', 'true')], arrays=['OSub'])


def named():
    fs = [F('int32', 'f1', 1, json='first name'), F('string', 'f2', 2, json='ключ'), F('string', 'f3', 3, json='a/b'),
          F('bytes', 'f4', 4, json='x-y'), F('double', 'f5', 5, json='$ref'), F('bool', 'f6', 6, json=''),
          F('string', 'f7', 7, True, json='$1$'), F('int64', 'f8', 8, json='이주영'), F('WSub', 'f9', 9, True, json='null'),
          F('uint32', 'fa', 10, json='f1'), F('string', 'fb', 11, json='{}'), F('float', 'fc', 12, json='0'), F('string', 'fd', 13, False, True, json='hidden'), F('string', 'fe', 14, json='100%'),
          F('string', 'plain', 15)]
    return Model('named', [M('WSub', [F('string', 'v', 1, json='value'), F('string', 'ctx', 2, json='the context')]), M('WMain', fs)], 'pk.named.deep', (), arrays=['WMain'])


def obfnum():
    fs = [F('int32', 'one', 1), F('string', 'two', 22, True), F('bytes', 'three', 333), F('double', 'four', 4444), F('QSub', 'five', 55555), F('bool', 'six', 666666),
          F('string', 'seven', 7777777, json='ignored'), F('QSub', 'eight', 88888888, True), F('string', 'nine', 9, False, True)]
    return Model('obfnum', [M('QSub', fields('string s; repeated QLeaf leaves')), M('QLeaf', fields('int32 v; bytes w', 3)), M('QMain', fs)], 'pk.obfnum',
                 [('obfuscate_strings', 'true'), ('number_names', 'true'), ('cpp_use_lists', 'true')])


def bytesonly():
    return Model('bytesonly', [M('BOnly', fields('bytes data'))], 'pk.bo')


def numonly():
    return Model('numonly', [M('VOnly', fields('int32 a; double b; bool c; float d; uint64 e'))])


def wide():
    """as many fields as a message may have, long names, names that are prefixes of each other"""
    kinds = SCALARS + ['WdSub']
    fs, name = [], 'p'
    for i in range(64):
        if i % 4 == 3:
            name = (name + 'qrstuvwxyz'[i % 10] * (1 + i // 8)) if len(name) < 150 else 'f%d' % i
        n = name if i % 4 == 3 else 'f%d_%s' % (i, 'n' * (i % 7))
        if n in [f.name for f in fs]:
            n = 'g%d' % i
        fs.append(F(kinds[(i * 7) % 16], n, 64 - i if i % 2 else 1000 + i, i % 5 == 2, i in (20, 40, 63)))
    return Model('wide', [M('WdSub', fields('int32 a; string b')), M('Wide', fs), M('WideBox', fields('Wide w; repeated Wide ws; string end'))], 'pk.wide')


def twopk():
    """two packages in one file"""
    a = [M('PLeaf', fields('int32 v; string t')), M('PBox', fields('PLeaf leaf; repeated PLeaf leaves; string kind'))]
    b = [M('PLeaf', fields('string v; bytes t; repeated double d'), 'pk.second.inner'), M('PRoot', fields('PLeaf leaf; repeated PLeaf leaves; uint64 id'), 'pk.second.inner')]
    return Model('twopk', a + b, 'pk.first', (), arrays=['PRoot'])


def chain():
    """messages nested in messages, 60 levels"""
    ms = []
    for i in range(60):
        extra = ['int32 v', 'string s', 'bool b; double d', 'bytes raw'][i % 4]
        link = '' if i == 0 else ('repeated ' if i in (20, 41) else '') + 'Ch%02d next' % (i - 1)
        ms.append(M('Ch%02d' % i, fields('; '.join(x for x in (extra, link) if x)), hidden=i not in (7, 59)))
    return Model('chain', ms, 'pk.chain')


def longn():
    """names from 60 to 3000 characters, as identifiers and by option, some the beginning of others"""
    a = 'Abc_' * 750
    cut = (60, 63, 64, 127, 128, 255, 256, 257, 300, 1023, 1024, 3000)
    fs = [F(SCALARS[i % len(SCALARS)], a[:n], i + 1, i % 3 == 2) for i, n in enumerate(cut)]
    b = 'name \u00e9 ' * 300
    gs = [F(SCALARS[(i * 5) % len(SCALARS)], 'f%d' % n, i + 1, i % 4 == 3, json=b[:n]) for i, n in enumerate(cut)]
    return Model('longn', [M('Ids', fs), M('Opts', gs), M('Top', fields('Ids ids; repeated Opts opts; Opts one'))], 'pk.longn', arrays=['Opts'])


def evolution():
    """Versions of one model: fields are added and removed, never reused."""
    addr = {1: 'string street', 2: 'string street; string zip', 3: 'string street; string zip; Geo geo', 4: 'string zip; Geo geo; repeated string lines'}
    num = {'street': 1, 'zip': 2, 'geo': 3, 'lines': 4}
    user = {
        1: 'string name; int32 age; Addr home; repeated string tags',
        2: 'string name; int32 age; Addr home; repeated string tags; bool active; repeated Addr places; double score; bytes photo',
        3: 'string name; int64 uid; Addr home; repeated string tags; bool active; repeated Addr places; double score; bytes photo; Addr work; repeated int64 marks; repeated bytes blobs; float weight',
        4: 'string name; int64 uid; bool active; repeated Addr places; bytes photo; Addr work; repeated int64 marks; repeated bytes blobs; float weight; uint32 extra; repeated bool bits; repeated double series',
    }
    # long names, one the beginning of the other
    long = 'long_' * 60
    for v in user:
        user[v] += '; string ' + long + {1: '; int32 %s' % long[:255], 2: '; int32 %sx' % long, 3: '; int32 %s' % long[:255], 4: '; int32 %sx; repeated string %s' % (long, long[:127])}[v]
    order = ['name', 'age', 'home', 'tags', 'active', 'places', 'score', 'photo', 'uid', 'work', 'marks', 'blobs', 'weight', 'extra', 'bits', 'series', long, long[:255], long + 'x', 'unused', long[:127]]
    out = []
    for v in (1, 2, 3, 4):
        msgs = []
        if v >= 3:
            msgs.append(M('Geo', fields('double lat; double lon' + ('; string label' if v == 4 else ''))))
        a = fields(addr[v])
        for f in a:
            f.num = num[f.name]
        u = fields(user[v])
        for f in u:
            f.num = order.index(f.name) + 1
        msgs += [M('Addr', a), M('User', u)]
        opts = [('cpp_use_lists', 'true')] if v == 3 else []
        out.append(Model('ev%d' % v, msgs, 'pk.ev%d' % v, opts, arrays=['User']))
    return out


KEYWORDS = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class
compl const constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export
extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or
or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast
struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void
volatile wchar_t while xor xor_eq message repeated string package syntax map option optional int32 int64 uint32 uint64
sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes serialize deserialize clear empty equal swap value_type
serializer_type underlying_type linux unix std'''.split())


def random_model(seed):
    r = random.Random('schema-%d' % seed)
    alpha = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
    jalpha = 'abcXYZ019 -./:;<>@#%&*()[]{}|~^+=,!?éßжλ中'

    def ident(used):
        while True:
            n = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24])
            s = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') + ''.join(r.choice(alpha + '0123456789') for _ in range(n - 1))
            if s in KEYWORDS or s.lower() in used or '__' in s or s.endswith('_type') or s in ('E', 'M', 'I', 'F', 'T', 'PG', 'U'):
                continue
            used.add(s.lower())
            return s
    opts = [(o, 'true') for o in ('obfuscate_strings', 'number_names', 'cpp_use_lists') if r.random() < 0.4]
    numbers = ('number_names', 'true') in opts
    msgs = []
    mused = set()
    for k in range(r.randint(2, 4)):
        used, fs, nums, jn = set(), [], set(), set()
        for _ in range(r.randint(1, 14)):
            num = r.choice([r.randint(1, 30), r.randint(1, 2000), r.randint(1, 500000000)])
            if num in nums or num in (0x4E1F, 0x4A38):
                continue
            nums.add(num)
            t = r.choice(SCALARS) if not msgs or r.random() < 0.7 else r.choice(msgs).name
            name = ident(used)
            j = None
            if r.random() < 0.25 and not numbers:
                j = ''.join(r.choice(jalpha) for _ in range(r.randint(1, 10))).replace('??', '?')
            if (j or name) in jn:
                j = None
                continue
            jn.add(j or name)
            fs.append(F(t, name, num, r.random() < 0.35, r.random() < 0.12, j, False))
            if not fs[-1].rep and r.random() < 0.2:
                fs[-1].optional = True
        msgs.append(M('Rm%d%s' % (k, ident(mused)), fs))
    return Model('rnd', msgs, r.choice([None, 'pk.rnd', 'p1.p2.p3']), opts, arrays=[msgs[-1].name])


def models(seed):
    return [core(), lists(), nums(), obf(), named(), obfnum(), bytesonly(), numonly(), wide(), twopk(), chain(), longn()] + evolution() + [random_model(seed)]


def proto(m):
    o = ['syntax = "proto3";']
    if m.package:
        o.append('package %s;' % m.package)
    for k, v in m.opts:
        o.append('option %s = %s;' % (k, v))
    package = m.package
    for msg in m.messages:
        if msg.package and msg.package != package:
            package = msg.package
            o.append('package %s;' % package)
        o.append('message %s {' % msg.name)
        for f in msg.fields:
            op = []
            if f.transient:
                op.append('transient = true')
            if f.json is not None:
                op.append('name = "%s"' % f.json)
            o.append('    %s%s %s = %d%s;' % ('repeated ' if f.rep else 'optional ' if f.optional else '', f.type, f.name, f.num, ' [%s]' % ', '.join(op) if op else ''))
        o.append('}')
    return '\n'.join(o) + '\n'


def cstr(s):
    b = s.encode()
    return 'std::string("' + ''.join('\\%03o' % c for c in b) + '", %d)' % len(b)


def glue(m):
    def q(x):
        p = x.package or m.package
        return '::' + (p.replace('.', '::') + '::' if p else '')

    def ident(x):
        return x.name + ('_' + x.package.replace('.', '_') if x.package else '')

    def target(x, type):
        return next((y for y in m.messages if y.name == type and y.package == x.package), None)
    fs = [f for x in m.messages for f in x.fields]
    numbers = dict(m.opts).get('number_names') == 'true'
    o = ['#include "%s.pg.hh"' % m.name, '#include "pgns.hpp"']
    if any(f.type in KIND and f.type not in ('string', 'bytes') for f in fs):
        o.append('#define HAS_NUM 1')
    if any(f.type == 'string' for f in fs):
        o.append('#define HAS_STR 1')
    if any(f.rep for f in fs):
        o.append('#define HAS_ARR 1')
    o.append('#include "glue.hpp"')
    o.append('namespace {')
    # declaration order: dependencies first is not required for descriptors (pointers)
    for x in m.messages:
        o.append('extern const MsgDesc &desc_%s();' % ident(x))
    for x in m.messages:
        o.append('const MsgDesc &desc_%s() { static const MsgDesc d = { %s, %s, {' % (ident(x), cstr(ident(x)), cstr(m.name)))
        for f in sorted(x.fields, key=lambda f: f.name):
            j = str(f.num) if numbers else (f.json if f.json is not None else f.name)
            k = KIND.get(f.type, 'K_MSG')
            to = target(x, f.type)
            o.append('  { %s, %s, %s, %s, %s, %s },' % (cstr(f.name), cstr(j), k, str(f.rep).lower(), str(f.transient).lower(), '&desc_%s()' % ident(to) if to else 'nullptr'))
        o.append('} }; return d; }')
        o.append('template <> struct Acc<%s%s> {' % (q(x), x.name))
        o.append('  static const MsgDesc &desc() { return desc_%s(); }' % ident(x))
        o.append('  template <class O, class Fn> static void each(O &o, Fn &&fn) { (void)o; (void)fn;')
        for i, f in enumerate(sorted(x.fields, key=lambda f: f.name)):
            o.append('    fn((size_t)%d, o.%s);' % (i, f.name))
        o.append('  }\n};')
    o.append('struct RegAll { RegAll() {')
    for x in m.messages:
        if not x.hidden:
            o.append('  reg_type<%s%s>(desc_%s(), false);' % (q(x), x.name, ident(x)))
    for x in m.messages:
        if x.name not in m.arrays:
            continue
        o.append('  reg_type<std::%s<%s%s>>(desc_%s(), true);' % ('list' if ('cpp_use_lists', 'true') in m.opts else 'vector', q(x), x.name, ident(x)))
    o.append('} } reg_all;\n}')
    return '\n'.join(o) + '\n'


def main(out, seed):
    for m in models(seed):
        for name, text in ((m.name + '.proto', proto(m)), ('glue_' + m.name + '.cc', glue(m))):
            p = os.path.join(out, name)
            if not os.path.exists(p) or open(p, encoding='utf-8').read() != text:
                open(p, 'w', encoding='utf-8').write(text)
    print(' '.join(m.name for m in models(seed)))


if __name__ == '__main__':
    main(sys.argv[1], int(sys.argv[2]))
