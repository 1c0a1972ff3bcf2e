#!/usr/bin/env python3
"""Writes derive_sample/src/lib.rs (declarations the derive macros are run on) and the units
derive_structs.vrs / derive_enums.vrs (the contracts of what they expand to).

The contracts are written from the declarations alone: member name = rename attribute, else the
identifier without r#.  The code the contracts are attached to is the macro expansion, extracted
on every run."""
import os, re, sys
V = '/verif'


def lit(s):
    """Rust string literal"""
    o = '"'
    for c in s:
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c if ' ' <= c < '\x7f' or ord(c) > 0xa0 else '\\u{%x}' % ord(c))
    return o + '"'


BEFORE = ['', '/// a comment\n    ', '#[allow(dead_code)] ', '#[doc(hidden)] ', '#[cfg(all())] ', '/** block */ #[allow(unused)] ', '#[serde()] ']
AFTER = ['', '', '/// after\n    ', '#[allow(non_snake_case)] ', '#[doc = "x"] ', '#[serde()] ']
RENAME = ['#[serde(rename = %s)] ', '#[serde(rename = %s,)] ', '#[serde(rename=%s)]\n    ', '#[rustfmt::skip] #[serde(rename = %s)] ']


def attrs(k, name):
    """the attributes of the k-th member of a decorated type: those of others must not matter"""
    if k is None:
        return RENAME[0] % lit(name) if name is not None else ''
    a = BEFORE[k % len(BEFORE)]
    if name is not None:
        t = lit(name)
        if k % 3 == 2 and '"#' not in name and all(c == '\n' or ' ' <= c for c in name):
            t = 'r#"%s"#' % name
        a += RENAME[k % len(RENAME)] % t
    return a + AFTER[k % len(AFTER)]


def unraw(i):
    return i[2:] if i.startswith('r#') else i


class S:
    """struct: generics = [(param, bounds)], lifetimes first; where = text; de: Deserialize too"""

    def __init__(self, name, fields, generics=(), where='', de=True, ser=True, bound='', deco=None):
        self.deco = deco
        self.name, self.generics, self.where, self.de, self.ser = name, list(generics), where, de, ser
        self.fields = [(f[0], f[1], f[2] if len(f) > 2 else unraw(f[0])) for f in fields]
        self.renamed = [len(f) > 2 for f in fields]
        self.mod = re.sub(r'\W', '', name).lower().strip('_') + '_s'

    def decl(self):
        der = ', '.join((['Serialize'] if self.ser else []) + (['Deserialize'] if self.de else []))
        g = '<%s>' % ', '.join(p + (': ' + b if b else '') for p, b in self.generics) if self.generics else ''
        w = ' where ' + self.where if self.where else ''
        d = self.deco
        fs = ['    %spub %s: %s,\n' % (attrs(None if d is None else d + k, n if r else None), i, t) for k, ((i, t, n), r) in enumerate(zip(self.fields, self.renamed))]
        return '#[derive(%s)]\npub struct %s%s%s {\n%s}\n' % (der, self.name, g, w, ''.join(fs))

    # -- texts of the generics in the three places they occur
    def lifes(self):
        return [p for p, b in self.generics if p.startswith("'")]

    def types(self):
        return [p for p, b in self.generics if not p.startswith("'") and not p.startswith('const ')]

    def args(self, lt=''):
        a = [re.sub(r'^const (\w+).*', r'\1', p) for p, b in self.generics]
        if lt:
            a = [lt] + a
        return '<%s>' % ', '.join(a) if a else ''

    def key_args(self, lt=''):
        return self.args(lt).replace(', ', ',')

    def params(self, bound, lt=''):
        out = [lt] if lt else []
        for p, b in self.generics:
            if p.startswith("'"):
                out.append(p + (': ' + lt if lt else ''))
            elif p.startswith('const '):
                out.append(p)
            else:
                bs = [x for x in [b, bound, lt] if x]
                out.append(p + (': ' + ' + '.join(bs) if bs else ''))
        return '<%s>' % ', '.join(out) if out else ''

    def wh(self):
        return ' where ' + self.where if self.where else ''

    def text(self):
        # the extraction writes a raw identifier r#x as raw_x
        f = [(i.replace('r#', 'raw_'), t, n) for i, t, n in self.fields]
        m, me = self.mod, self.name + self.args()
        tf = self.name + ('::' + self.args() if self.args() else '')
        names = [lit(n) for _, _, n in f]
        distinct = ''
        for a in range(len(f)):
            distinct += '        reveal_strlit(%s);\n' % names[a]
        # names that differ in length are told apart by it; the others by a character
        for a in range(len(f)):
            for b in range(a):
                x, y = f[a][2], f[b][2]
                if len(x) == len(y):
                    k = next(i for i in range(len(x)) if x[i] != y[i])
                    distinct += '        assert(%s@[%d] != %s@[%d]);\n' % (names[a], k, names[b], k)
                else:
                    distinct += '        assert(%s@.len() != %s@.len());\n' % (names[a], names[b])
        o = 'pub mod %s {\nuse super::*;\n//@item %s::%s | pub\n' % (m, m, self.name)
        if self.de:
            P, PA = self.params('Deserialize'), self.params('Deserialize', "'__a")
            visitor = '__Visitor' + self.args()
            fit = ['ms is_named'] and [] + ['names_fit::<%s>(ms, txt(%s))' % (t, lit(n)) for _, t, n in f]
            pres = ['(last_named(ms, txt(%s)) is Some || <%s as Deserialize>::absent() is Some)' % (lit(n), t) for _, t, n in f]
            has = ['slot::<%s>(Some(s.%s), ms, txt(%s))' % (t, i, lit(n)) for i, t, n in f]
            rep = ['slot::<%s>(self.%s, js, txt(%s))' % (t, i, lit(n)) for i, t, n in f]
            key_v = "<Visitor for __Visitor%s>" % self.key_args()
            o += '//@item %s::__Visitor\n' % m
            o += 'impl%s OneField for __Visitor%s%s { type T = %s; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }\n' % (P, self.args(), self.wh(), me)
            o += 'impl%s Visitor for %s%s {\n' % (P, visitor, self.wh())
            o += '    closed spec fn takes(&self, j: J) -> bool { %s::fits(j) }\n    closed spec fn done(&self, j: J) -> bool { %s::holds(self.__out, j) }\n' % (tf, tf)
            for meth, par in [('null', ''), ('boolean', 'b'), ('string', 's'), ('negative', 'n'), ('nonnegative', 'n'), ('float', 'n'), ('seq', '')]:
                o += '//@fn %s::%s::%s | de::Visitor::%s\n%s//@subst Box :: new => vx_seq\n//@end\n' % (m, key_v, meth, meth, '//@params %s\n' % par if par else '')
            o += '//@fn %s::%s::map | de::Visitor::map\n//@subst Box :: new => vx_map\n//@pre\n    broadcast use lem_no_members;\n//@end\n}\n' % (m, key_v)
            o += 'impl%s Deserialize for %s%s {\n' % (P, me, self.wh())
            o += '    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) %s }\n' % ''.join('\n        && ' + x for x in fit + pres)
            o += '    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) %s }\n' % ''.join('\n        && ' + x for x in has)
            o += '    open spec fn absent() -> Option<Self> { None }\n    proof fn holds_some(o: Option<Self>, j: J) { }\n'
            o += '//@fn %s::<Deserialize for %s%s>::begin\n//@end\n//@fn %s::<Deserialize for %s%s>::default | de::Deserialize::default\n//@end\n}\n' % (m, self.name, self.key_args(), m, self.name, self.key_args())
            o += '//@item %s::__State\n' % m
            o += 'impl%s MapBuilderTrait for __State%s%s {\n' % (PA, self.args("'__a"), self.wh())
            o += '    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true %s }\n' % ''.join('\n        && ' + x for x in [x.replace('ms,', 'js,') for x in fit] + rep)
            o += '    closed spec fn may(&self, js: Members) -> bool { %s::fits(J::Obj(js)) }\n' % tf
            o += '    closed spec fn wrote(&self, js: Members) -> bool { %s::holds(*self.__out, J::Obj(js)) }\n' % tf
            o += '    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }\n'
            o += '    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { %s::holds(*final(self.__out), J::Obj(js)) }\n' % tf
            o += '    proof fn resolves(tracked &self, js: Members) { }\n'
            o += "//@fn %s::<Map for __State%s>::key\n//@params k\n//@pre\n    broadcast use {lem_named_push, lem_fits_push, lem_same_text};\n    proof {\n%s    }\n//@end\n" % (m, self.key_args("'__a"), distinct)
            o += "//@fn %s::<Map for __State%s>::finish\n//@pre\n    broadcast use {lem_slot_some};\n//@end\n}\n" % (m, self.key_args("'__a"))
        if self.ser:
            P, PA = self.params('Serialize'), self.params('Serialize', "'__a")
            ent = ['(txt(%s), <%s as Serialize>::tree(&D.%s))' % (lit(n), t, i) for i, t, n in f]
            o += '//@item %s::__Map\n' % m
            o += 'impl%s SerMap for __Map%s%s {\n' % (PA, self.args("'__a"), self.wh())
            o += '    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }\n'
            o += '    closed spec fn live(&self) -> bool { self.state <= %d }\n' % len(f)
            o += "//@fn %s::<Map for __Map%s>::next\n//@flags ser\n//@pre\n    broadcast use lem_skip_first;\n//@end\n}\n" % (m, self.key_args("'__a"))
            o += 'impl%s Serialize for %s%s {\n' % (P, me, self.wh())
            o += '    closed spec fn tree(&self) -> Tree { Tree::Map(seq![%s]) }\n' % ', '.join(e.replace('D.', 'self.') for e in ent)
            o += '//@fn %s::<Serialize for %s%s>::begin\n//@flags ser\n//@pre\n    broadcast use lem_skip_none;\n//@end\n}\n' % (m, self.name, self.key_args())
        return o + '}\n'


class En:
    def __init__(self, name, variants, deco=None):
        self.deco = deco
        self.name = name
        self.variants = [(v[0], v[1] if len(v) > 1 and v[1] is not None else unraw(v[0].split(' ')[0])) for v in variants]
        self.renamed = [len(v) > 1 for v in variants]
        self.mod = name.lower() + '_e'

    def decl(self):
        d = self.deco
        vs = ['    %s%s,\n' % (attrs(None if d is None else d + k, n if r else None), v) for k, ((v, n), r) in enumerate(zip(self.variants, self.renamed))]
        return '#[allow(non_camel_case_types)]\n#[derive(Serialize, Deserialize)]\npub enum %s {\n%s}\n' % (self.name, ''.join(vs))

    def text(self):
        m, me = self.mod, self.name
        vs = [(v.split(' ')[0].replace('r#', 'raw_'), n) for v, n in self.variants]
        o = 'pub mod %s {\nuse super::*;\n//@item %s::%s | pub\n//@item %s::__Visitor\n' % (m, m, me, m)
        o += '/// the name of a variant\npub open spec fn name_of(__v: %s) -> Seq<u8> {\n    match __v { %s }\n}\n' % (me, ', '.join('%s::%s => txt(%s)' % (me, v, lit(n)) for v, n in vs))
        distinct = ''.join('        reveal_strlit(%s);\n' % lit(n) for _, n in vs)
        for a in range(len(vs)):
            for b in range(a):
                x, y = vs[a][1], vs[b][1]
                if len(x) == len(y):
                    k = next(i for i in range(len(x)) if x[i] != y[i])
                    distinct += '        assert(%s@[%d] != %s@[%d]);\n' % (lit(x), k, lit(y), k)
                else:
                    distinct += '        assert(%s@.len() != %s@.len());\n' % (lit(x), lit(y))
        o += '/// no two variants share a name\npub proof fn names_differ(__a: %s, __b: %s)\n    ensures name_of(__a) == name_of(__b) ==> __a == __b\n{\n    broadcast use lem_same_text;\n%s}\n' % (me, me, distinct)
        o += 'impl OneField for __Visitor { type T = %s; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }\n' % me
        o += 'impl Visitor for __Visitor {\n    closed spec fn takes(&self, j: J) -> bool { %s::fits(j) }\n    closed spec fn done(&self, j: J) -> bool { %s::holds(self.__out, j) }\n' % (me, me)
        some = ' || '.join('s == txt(%s)' % lit(n) for _, n in vs)
        for meth, par in [('null', ''), ('boolean', 'b'), ('string', 's'), ('negative', 'n'), ('nonnegative', 'n'), ('float', 'n'), ('seq', ''), ('map', '')]:
            pre = '//@pre\n    broadcast use lem_same_text;\n    proof {\n%s' % distinct + ''.join('        assert(name_of(%s::%s) == txt(%s));\n' % (me, v, lit(n)) for v, n in vs) + '    }\n' if meth == 'string' else ''
            o += '//@fn %s::<Visitor for __Visitor>::%s | de::Visitor::%s\n%s//@subst Box :: new => vx_%s\n%s//@end\n' % (m, meth, meth, '//@params %s\n' % par if par else '', meth if meth in ('seq', 'map') else 'seq', pre)
        o += '}\nimpl Deserialize for %s {\n' % me
        o += '    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: %s| #[trigger] name_of(__v) == __s }\n' % me
        o += '    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }\n'
        o += '    open spec fn absent() -> Option<Self> { None }\n    proof fn holds_some(o: Option<Self>, j: J) { }\n'
        o += '//@fn %s::<Deserialize for %s>::begin\n//@end\n//@fn %s::<Deserialize for %s>::default | de::Deserialize::default\n//@end\n}\n' % (m, me, m, me)
        o += 'impl Serialize for %s {\n    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }\n//@fn %s::<Serialize for %s>::begin\n//@end\n}\n' % (me, m, me)
        return o + '}\n'


STRUCTS = [
    S('Deco', [('m%d' % i, 'Option<u8>' if i % 4 == 1 else 'u8') if i % 2 else ('m%d' % i, 'u8', 'n "%d\\' % i) for i in range(14)], deco=0),
    S('Zero', []),
    S('One', [('a', 'A')], [('A', '')]),
    S('Plain', [('id', 'u32'), ('name', 'String'), ('tags', 'Vec<String>'), ('extra', 'Option<Box<u8>>'), ('ok', 'bool')]),
    S('Three', [('first', 'A'), ('second', 'B'), ('third', 'C')], [('A', ''), ('B', ''), ('C', '')]),
    S('Opt', [('x', 'Option<A>'), ('y', 'Option<Option<B>>'), ('z', 'C')], [('A', ''), ('B', ''), ('C', '')]),
    S('Ren', [('ty', 'String', 'type'), ('empty', 'u8', ''), ('quote', 'u8', 'q"u\\o\nte'), ('uni', 'Option<bool>', 'émoji 😀'), ('other', 'i32', 'ty')]),
    S('Raw', [('r#type', 'u8'), ('r#match', 'A'), ('r#fn', 'Option<u8>'), ('r', 'u8'), ('x', 'u8', 'r#x')], [('A', '')]),
    S('Cross', [('a', 'u8', 'b'), ('b', 'u8', 'c'), ('c', 'u8', 'a')]),
    S('Near', [('ab', 'u8'), ('a', 'u8'), ('abc', 'u8'), ('Ab', 'u8'), ('b', 'u8', 'ab ')]),
    S('Gen', [('t', 'T'), ('us', 'Vec<U>'), ('m', 'BTreeMap<String, T>')], [('T', ''), ('U', '')], 'U: Clone'),
    S('ConstN', [('arr', '[T; N]'), ('n', 'u8')], [('T', 'Clone'), ('const N: usize', '')]),
    S('__Odd', [('state', 'u8'), ('data', 'u8'), ('out', 'Option<u8>'), ('value', 'u8'), ('s', 'u8'), ('k', 'u8'), ('key', 'u8'), ('finish', 'u8')]),
    S('Many', [('f%d' % i, 'u8' if i % 3 else 'Option<u8>') for i in range(12)]),
    S('Borrowed', [('s', "&'a str"), ('t', "&'a T"), ('sl', "&'a [u8]", 'the slice')], [("'a", ''), ('T', '')], de=False),
]
ENUMS = [
    En('Deco', [('V%d' % i,) if i % 2 else ('V%d' % i, 'n "%d\\' % i) for i in range(14)], deco=0),
    En('Color', [('Red',), ('Green', 'green'), ('Blue',)]),
    En('Single', [('Only',)]),
    En('Odd', [('r#type',), ('Empty', ''), ('Esc', 'a"\\\x01é😀'), ('First', 'Second'), ('Second', 'First'), ('None',), ('Some',)]),
    En('Disc', [('A = 5',), ('B = 3',), ('C',)]),
    En('Near', [('Ab',), ('AB', 'AB'), ('Abc',), ('Lower', 'ab'), ('Space', 'Ab '), ('Raw', 'r#Ab')]),
    En('Big', [('V%d' % i,) for i in range(10)]),
]


def random_types(seed, ns, ne, ascii=True):
    """seeded declarations: odd names, many members, generics in every position"""
    import random
    r = random.Random(seed)
    words = ['_lead', 'trail_', '__both__', 'camelCase', 'SCREAM', 'r', 'r_', 'rx', 'a_b_c', 'größe', 'имя', 'a', 'b', 'id', 'name', 'Name', 'x', 'value', 'type', 'match', 'self_', 'self', 'null', 'true', 'next', 'ok', 'err', 'len', 'begin', 'map', 'seq', 'key', 'Result', 'Option', 'Box', 'str', 'usize', 'miniserde']
    if ascii:
        # (the verifier takes no others)
        words = [w for w in words if w.isascii()]
    kw = ['type', 'match', 'fn', 'impl', 'where', 'struct', 'use', 'loop', 'move', 'ref', 'dyn', 'box', 'in', 'if']
    bits = ['a', 'b', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\x00', '\x1f', '\x7f', '/', "'", '{', '}', '#', 'r#', 'é', '😀', '\u2028', '\ufeff', '$', 'ß', 'ｘ', '.', '-', '\u0301']

    def name():
        return ''.join(r.choice(bits) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, 17, 40])))

    def idents(n, raw_ok=True):
        out = []
        while len(out) < n:
            c = r.random()
            i = 'r#' + r.choice(kw) if c < 0.2 and raw_ok else r.choice(words) + (str(r.randrange(30)) if c < 0.7 else '')
            if i == 'self' or i in out or 'r#' + i in out or i in kw or i in ('true', 'false'):
                continue
            out.append(i)
        return out

    structs, enums = [], []
    for k in range(ns):
        gens = [('T%d' % i, r.choice(['', 'Clone', 'Copy'])) for i in range(r.choice([0, 0, 1, 2, 3]))]
        base = ['u8', 'u32', 'i32', 'bool', 'String'] + [g for g, _ in gens] * 3
        def ty(d=0):
            t = r.choice(base)
            while r.random() < 0.35 and d < 3:
                t = r.choice(['Option<%s>', 'Vec<%s>', 'Box<%s>', 'BTreeMap<String, %s>', '[%s; 2]']) % t
                d += 1
            if t.startswith('[') or '[' in t:
                t = t if not any(g in t for g, _ in gens) else r.choice(base)
            return t
        fs, used = [], set()
        for i in idents(r.choice([1, 2, 3, 5, 8, 13])):
            f = (i, ty(), name()) if r.random() < 0.4 else (i, ty())
            n = f[2] if len(f) > 2 else unraw(i)
            if n in used:
                continue
            used.add(n)
            fs.append(f)
        gens = [g for g in gens if any(g[0] in f[1] for f in fs)]
        structs.append(S('R%d' % k, fs, gens, deco=None if k % 3 == 0 else k))
    for k in range(ne):
        vs, used = [], set()
        for i in idents(r.choice([1, 2, 3, 7, 12])):
            if i in ('null',):
                continue
            v = (i, name()) if r.random() < 0.5 else (i,)
            n = v[1] if len(v) > 1 else unraw(i)
            if n in used:
                continue
            used.add(n)
            vs.append(v)
        enums.append(En('R%d' % k, vs or [('A',)], deco=None if k % 3 == 0 else k))
    return structs, enums


def write(structs, enums, crate, units):
    os.makedirs(crate + '/src', exist_ok=True)
    o = '// written by tools/gen_derive.py\n#![allow(dead_code, non_snake_case)]\n'
    for x in structs + enums:
        o += 'pub mod %s {\n#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};\n#[allow(unused_imports)] use std::collections::BTreeMap;\n%s}\n' % (x.mod, x.decl())
    open(crate + '/src/lib.rs', 'w').write(o)
    for name, xs, props in [('derive_structs', structs, 'C14 C12'), ('derive_enums', enums, 'C16 C12')]:
        u = '// written by tools/gen_derive.py\n//@include %sderive_model.vrs\n//@props %s\n' % ('' if units == V + '/units' else V + '/units/', props)
        u += ''.join(x.text() for x in xs)
        u += '}\nfn main() {}\n'
        open('%s/%s.vrs' % (units, name), 'w').write(u)


def harness(path):
    """declarations for the bounded search, with the model of each"""
    groups = [(STRUCTS, ENUMS)] + [random_types(k, 16, 10, False) for k in (101, 102)]
    huge = [S('Wide%d' % n, [('f%d' % i, ['u8', 'Option<u8>', 'String', 'bool'][i % 7 % 4]) if i % 5 else ('f%d' % i, 'u8', ' f%d ' % i) for i in range(n)]) for n in (31, 33, 65, 130)]
    many = [En('Wide%d' % n, [('V%d' % i,) if i % 5 else ('V%d' % i, [' v%d', 'v%d\t', 'v %d', 'V%d.'][i // 5 % 4] % i) for i in range(n)]) for n in (33, 70)]
    blank = [En('Blank', [('A', ' a'), ('B', 'a '), ('C', 'a'), ('D', ' '), ('E', '\n'), ('F', '\u3000x\u00a0'), ('G', 'G\t'), ('H', 'g')]), En('Cases', [('Aa',), ('AA',), ('Bb', 'aa'), ('Cc', 'aA'), ('CcC', 'É'), ('Dd', 'é')])]
    sblank = [S('Blank', [('a', 'u8', ' a'), ('b', 'u8', 'a '), ('c', 'Option<u8>', 'a'), ('d', 'u8', ' '), ('e', 'bool', '\n'), ('f', 'String', '\u3000x\u00a0')]), S('Cases', [('aa', 'u8'), ('AA', 'u8'), ('b', 'u8', 'Aa'), ('c', 'u8', 'aA'), ('d', 'u8', 'É'), ('e', 'u8', 'é')])]
    groups.append((huge + sblank, many + blank))
    o = '// written by tools/gen_derive.py\n#![allow(dead_code, non_snake_case, unused_parens)]\nuse crate::refp::J;\nuse crate::rng::Rng;\nuse crate::types::{gen_j, Ty};\nuse crate::derived::mess;\nuse crate::{gen, model, model_enum};\nuse std::collections::BTreeMap;\n'
    names = []
    for g, (ss, es) in enumerate(groups):
        o += 'pub mod g%d {\n' % g
        for x in ss + es:
            o += 'pub mod %s {\n#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};\n#[allow(unused_imports)] use std::collections::BTreeMap;\n%s}\n' % (x.mod, x.decl().replace('#[derive(', '#[derive(Debug, '))
        o += '}\n'
        for x in es:
            n = 'E%d%s' % (g, x.name.strip('_'))
            o += 'pub type %s = g%d::%s::%s;\nmodel_enum!(%s { %s });\n' % (n, g, x.mod, x.name, n, ', '.join('%s = %s' % (v.split(' ')[0], lit(t)) for v, t in x.variants))
            names.append(n)
        for x in ss:
            if not x.de or (g == 0 and x.name == 'Borrowed'):
                continue
            n = 'S%d%s' % (g, x.name.strip('_'))
            sub = {}
            pool = ['u8', 'bool', 'i64']
            for i, (p, b) in enumerate(x.generics):
                sub[p.split(':')[0].replace('const ', '')] = '3' if p.startswith('const') else pool[i % 3] if 'Copy' in b else ['u8', 'String', 'Option<u8>'][i % 3]
            def inst(t):
                return re.sub(r'\b\w+\b', lambda m: sub.get(m.group(0), m.group(0)), t)
            args = '<%s>' % ', '.join(sub[p.split(':')[0].replace('const ', '')] for p, b in x.generics) if x.generics else ''
            o += 'pub type %s = g%d::%s::%s%s;\nmodel!(%s { %s });\n' % (n, g, x.mod, x.name, args, n, ', '.join('%s: %s = %s' % (i, inst(t), lit(nm)) for i, t, nm in x.fields))
            names.append(n)
    o += '#[macro_export] macro_rules! derived_gen_types { ($m:ident [$($t:ty),* $(,)?]) => { $m![$($t,)* %s] } }\n' % ', '.join('crate::derived_gen::' + n for n in names)
    open(path, 'w').write(o)


def main(argv):
    if argv:
        seed, crate, units = int(argv[0]), argv[1], argv[2]
        s, e = random_types(seed, 16, 10)
        write(s, e, crate, units)
        return
    s, e = random_types(0, 6, 4)
    write(STRUCTS + s, ENUMS + e, V + '/derive_sample', V + '/units')
    harness(V + '/harness/src/derived_gen.rs')


if __name__ == '__main__':
    main(sys.argv[1:])
