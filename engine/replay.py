"""Runs a counterexample on the compiled crate: a scratch copy of the current tree gets, per
module, constructors/printers for private types plus one entry point that performs the call."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time
from fractions import Fraction
from values import *
from build import REPO, BUILD, copy_tree, sweep
from spec import ReplayInvalid, ReplayPanic

ROOT = r'''
#[allow(dead_code, unused, non_snake_case)]
pub mod __rvs {
    pub trait Show { fn show(&self, o: &mut String); }
    macro_rules! prim { ($($t:ty),*) => { $(impl Show for $t { fn show(&self, o: &mut String) { o.push_str(&format!("{}", self)); } })* } }
    prim!(u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize,bool);
    impl Show for f64 { fn show(&self, o: &mut String) { if self.is_finite() { o.push_str(&format!("{:?}", self)); } else { o.push_str(&format!("\"{:?}\"", self)); } } }
    impl Show for () { fn show(&self, o: &mut String) { o.push_str("[]"); } }
    pub fn seq<'a, T: Show + 'a>(it: impl Iterator<Item = &'a T>, o: &mut String) { o.push('['); let mut f = true; for x in it { if !f { o.push(','); } f = false; x.show(o); } o.push(']'); }
    impl<T: Show> Show for Vec<T> { fn show(&self, o: &mut String) { seq(self.iter(), o) } }
    impl<T: Show> Show for [T] { fn show(&self, o: &mut String) { seq(self.iter(), o) } }
    impl<T: Show, const N: usize> Show for [T; N] { fn show(&self, o: &mut String) { seq(self.iter(), o) } }
    impl<A: smallvec::Array> Show for smallvec::SmallVec<A> where A::Item: Show { fn show(&self, o: &mut String) { seq(self.iter(), o) } }
    impl<T: Show, const N: usize> Show for arrayvec::ArrayVec<T, N> { fn show(&self, o: &mut String) { seq(self.iter(), o) } }
    impl<T: Show> Show for Option<T> { fn show(&self, o: &mut String) { match self { None => o.push_str("[0,[]]"), Some(x) => { o.push_str("[1,["); x.show(o); o.push_str("]]"); } } } }
    impl Show for std::cmp::Ordering { fn show(&self, o: &mut String) { o.push_str(&format!("[{},[]]", *self as i8 + 1)); } }
    impl<T: Show, E: Show> Show for Result<T, E> { fn show(&self, o: &mut String) { match self { Ok(x) => { o.push_str("[0,["); x.show(o); o.push_str("]]"); }, Err(x) => { o.push_str("[1,["); x.show(o); o.push_str("]]"); } } } }
    impl<T: Show + ?Sized> Show for &T { fn show(&self, o: &mut String) { (**self).show(o) } }
    impl<T: Show + ?Sized> Show for &mut T { fn show(&self, o: &mut String) { (**self).show(o) } }
    impl<T: Show + ?Sized> Show for Box<T> { fn show(&self, o: &mut String) { (**self).show(o) } }
    impl<T: Show + ?Sized> Show for std::rc::Rc<T> { fn show(&self, o: &mut String) { (**self).show(o) } }
    impl<T: Show + Copy> Show for std::cell::Cell<T> { fn show(&self, o: &mut String) { self.get().show(o) } }
    impl<A: Show> Show for (A,) { fn show(&self, o: &mut String) { o.push('['); self.0.show(o); o.push(']'); } }
    impl<A: Show, B: Show> Show for (A, B) { fn show(&self, o: &mut String) { o.push('['); self.0.show(o); o.push(','); self.1.show(o); o.push(']'); } }
    impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn show(&self, o: &mut String) { o.push('['); self.0.show(o); o.push(','); self.1.show(o); o.push(','); self.2.show(o); o.push(']'); } }
    impl Show for cgmath::Point2<f64> { fn show(&self, o: &mut String) { [self.x, self.y].show(o) } }
    impl Show for cgmath::Vector2<f64> { fn show(&self, o: &mut String) { [self.x, self.y].show(o) } }
    pub fn key<K: slotmap::Key>(k: K) -> u64 { if k.is_null() { 0 } else { k.data().as_ffi() & 0xffff_ffff } }
    impl<K: slotmap::Key, V: Show> Show for slotmap::SlotMap<K, V> { fn show(&self, o: &mut String) { o.push('['); let mut f = true; for (k, v) in self.iter() { if !f { o.push(','); } f = false; o.push_str(&format!("[{},", key(k))); v.show(o); o.push(']'); } o.push(']'); } }
    impl<K: slotmap::Key, V: Show> Show for slotmap::SparseSecondaryMap<K, V> { fn show(&self, o: &mut String) { let mut es: Vec<(u64, &V)> = self.iter().map(|(k, v)| (key(k), v)).collect(); es.sort_by_key(|e| e.0); o.push('['); let mut f = true; for (k, v) in es { if !f { o.push(','); } f = false; o.push_str(&format!("[{},", k)); v.show(o); o.push(']'); } o.push(']'); } }
    pub fn mkkey<K: slotmap::Key>(i: u64) -> K { if i == 0 { K::null() } else { K::from(slotmap::KeyData::from_ffi((1u64 << 32) | i)) } }
    pub fn pass<T>(x: T) -> T { x }
}
'''


class Rpc:
    def __init__(self, harness=None):
        self.dir = None
        self.harness = harness
        self.log = []

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    # ------------------------------------------------------------ scratch tree
    def prepare(self):
        if self.dir:
            return
        self.dir = tempfile.mkdtemp(prefix='rvreplay-')
        dst = os.path.join(self.dir, 'repo')
        copy_tree(dst, self.harness)
        self.orig = {}
        for root, _, names in os.walk(os.path.join(dst, 'src')):
            for n in names:
                if n.endswith('.rs'):
                    p = os.path.join(root, n)
                    s = open(p).read()
                    s = re.sub(r'(?m)^(\s*)(?:pub(?:\([^)]*\))?\s+)?mod (\w+);', r'\1pub mod \2;', s)
                    s = re.sub(r'(?m)^(?:pub(?:\([^)]*\))?\s+)?(struct|enum) ', r'pub \1 ', s)
                    self.orig[p] = s
        self.dst = dst

    def mod_file(self, mod):
        """module path (list of names) -> file"""
        src = os.path.join(self.dst, 'src')
        if not mod:
            return os.path.join(src, 'lib.rs')
        for c in (os.path.join(src, *mod) + '.rs', os.path.join(src, *mod, 'mod.rs')):
            if c in self.orig:
                return c
        return None

    # ------------------------------------------------------------ types
    def rty(self, E, tid):
        t = E.p.types[tid]
        k = t['k']
        if k == 'float':
            return 'f64' if t['f'] == 'F64' else 'f32'
        if k == 'adt':
            n = t['name']
            if n.startswith('traffic_sim::'):
                n = 'crate::' + n[len('traffic_sim::'):]
            args = []
            for a in t['args']:
                if a is None:
                    args.append("'_")
                elif isinstance(a, dict):
                    args.append(str(a['c']))
                else:
                    args.append(self.rty(E, a))
            if n in ('std::vec::Vec', 'std::rc::Rc', 'std::boxed::Box'):
                args = args[:1]
            if n.endswith('SparseSecondaryMap'):
                args = args[:2]
            return n + ('<%s>' % ', '.join(args) if args else '')
        if k == 'tuple':
            return '(%s)' % ''.join(self.rty(E, e) + ',' for e in t['elems'])
        if k == 'array':
            return '[%s; %d]' % (self.rty(E, t['elem']), t['len'])
        if k == 'slice':
            return '[%s]' % self.rty(E, t['elem'])
        if k == 'ref':
            return '&%s%s' % ('mut ' if t.get('mut') else '', self.rty(E, t['elem']))
        return t['d']

    def module_of(self, path):
        parts = path.split('::')[1:]
        best = []
        for i in range(len(parts) + 1):
            if self.mod_file(parts[:i]):
                best = parts[:i]
        return best

    def is_key(self, E, t):
        if t['k'] == 'adt' and t['adt'] == 'struct':
            fs = t['variants'][0]['fields']
            return len(fs) == 1 and E.p.types[fs[0][1]]['k'] == 'adt' and E.p.types[fs[0][1]]['name'] == 'slotmap::KeyData'
        return False

    def collect(self, E, tid, seen):
        if tid in seen:
            return
        seen.add(tid)
        t = E.p.types[tid]
        k = t['k']
        if k in ('ref', 'ptr', 'slice', 'array'):
            self.collect(E, t['elem'], seen)
        elif k == 'tuple':
            for e in t['elems']:
                self.collect(E, e, seen)
        elif k == 'adt':
            if t['name'].startswith('traffic_sim::'):
                for va in t['variants']:
                    for f in va['fields']:
                        self.collect(E, f[1], seen)
            else:
                for a in t['args']:
                    if isinstance(a, int):
                        self.collect(E, a, seen)

    def ident(self, t):
        return re.sub(r'\W+', '_', t['d'])

    def gen_adt(self, E, tid):
        """(module, source) of constructors and printer of a local ADT"""
        t = E.p.types[tid]
        mod = self.module_of(t['name'])
        ty = self.rty(E, tid)
        path = 'crate::' + t['name'][len('traffic_sim::'):]
        idn = self.ident(t)
        if self.is_key(E, t):
            return mod, 'impl crate::__rvs::Show for %s { fn show(&self, o: &mut String) { o.push_str(&crate::__rvs::key(*self).to_string()); } }\n' % ty
        out = []
        lt = "<'x>" if "'_" in ty else ''
        tyx = ty.replace("'_", "'x")
        if t['adt'] == 'struct':
            fs = t['variants'][0]['fields']
            tup = all(n.isdigit() for n, _ in fs) and fs
            ps = ', '.join('a%d: %s' % (i, self.rty(E, ft).replace("'_", "'x").replace('&', "&'x ") if lt else self.rty(E, ft)) for i, (_, ft) in enumerate(fs))
            lit = '%s { %s }' % (path, ', '.join('%s: a%d' % (n, i) for i, (n, _) in enumerate(fs)))
            out.append('pub fn mk_%s%s(%s) -> %s { %s }' % (idn, lt, ps, tyx, lit))
            sh = "o.push('['); %s o.push(']');" % " o.push(','); ".join('self.%s.show(o);' % n for n, _ in fs)
            out.append('impl crate::__rvs::Show for %s { fn show(&self, o: &mut String) { use crate::__rvs::Show; %s } }' % (ty, sh))
        elif t['adt'] == 'enum':
            arms = []
            for i, va in enumerate(t['variants']):
                fs = va['fields']
                ps = ', '.join('a%d: %s' % (j, self.rty(E, ft)) for j, (_, ft) in enumerate(fs))
                lit = '%s::%s { %s }' % (path, va['name'], ', '.join('%s: a%d' % (n, j) for j, (n, _) in enumerate(fs)))
                out.append('pub fn mk_%s_%s(%s) -> %s { %s }' % (idn, va['name'], ps, ty, lit))
                pat = '%s::%s { %s }' % (path, va['name'], ', '.join('%s: a%d' % (n, j) for j, (n, _) in enumerate(fs)))
                arms.append('%s => { o.push_str("[%d,["); %s o.push_str("]]"); }' % (pat, i, " o.push(','); ".join('a%d.show(o);' % j for j in range(len(fs)))))
            out.append('impl crate::__rvs::Show for %s { fn show(&self, o: &mut String) { use crate::__rvs::Show; match self { %s } } }' % (ty, ' '.join(arms)))
        return mod, '\n'.join(out) + '\n'

    # ------------------------------------------------------------ values
    def num(self, v, t):
        if t['k'] == 'float':
            f = float(v)
            if f != f:
                return 'f64::NAN'
            if f in (float('inf'), float('-inf')):
                return 'f64::INFINITY' if f > 0 else 'f64::NEG_INFINITY'
            return '(%r_f64)' % f
        if t['k'] == 'bool':
            return 'true' if v else 'false'
        return '(%d)' % int(v)

    def expr(self, E, st, tid, v, decl):
        t = E.p.types[tid]
        k = t['k']
        if v is UNINIT:
            raise ReplayInvalid('uninitialised value')
        if k in ('float', 'bool', 'int'):
            if isinstance(v, Bits):
                v = bits_int(v)
            if not is_py(v):
                raise ReplayInvalid('symbolic value %s' % v)
            return self.num(v, t)
        if k in ('ref', 'ptr'):
            if isinstance(v, RefV):
                nm = self.declare(E, st, v.alloc, t['elem'] if not v.path else None, decl)
                acc = nm
                mut = '&mut ' if t.get('mut') else '&'
                for s in v.path:
                    if s[0] == 'i':
                        acc += '[%d]' % s[1]
                    elif s[0] == 'k':
                        acc += '[crate::__rvs::mkkey(%d)]' % s[1]
                    else:
                        raise ReplayInvalid('reference path')
                if E.p.types[t['elem']]['k'] == 'slice' and not v.path:
                    return '%s%s[..]' % (mut, acc)
                return mut + acc
            raise ReplayInvalid('reference value')
        if k == 'tuple':
            return '(%s)' % ''.join(self.expr(E, st, e, x, decl) + ',' for e, x in zip(t['elems'], v.f))
        if k == 'array':
            return '[%s]' % ', '.join(self.expr(E, st, t['elem'], x, decl) for x in v.items)
        if k == 'adt':
            n = t['name']
            if self.is_key(E, t):
                return 'crate::__rvs::mkkey::<%s>(%d)' % (self.rty(E, tid), v.f[0])
            if n in ('std::vec::Vec', 'smallvec::SmallVec', 'arrayvec::ArrayVec'):
                et = E.elem_ty(tid)
                xs = ', '.join(self.expr(E, st, et, x, decl) for x in v.items)
                if n == 'std::vec::Vec':
                    return 'vec![%s]' % xs
                return 'vec![%s].into_iter().collect::<%s>()' % (xs, self.rty(E, tid))
            if n == 'std::option::Option':
                if v.tag == 0:
                    return 'None'
                return 'Some(%s)' % self.expr(E, st, t['args'][0], v.pay[1][0], decl)
            if n == 'std::cell::Cell':
                return 'std::cell::Cell::new(%s)' % self.expr(E, st, t['args'][0], v.f[0].f[0], decl)
            if n in ('std::rc::Rc', 'std::boxed::Box'):
                x = v
                while isinstance(x, StructV):
                    x = x.f[0]
                x = E.M.loadr(st, x) if isinstance(x, RefV) else v
                return '%s::new(%s)' % (n, self.expr(E, st, t['args'][0], x, decl))
            if n == 'slotmap::SlotMap':
                et = E.elem_ty(tid)
                items = dict(v.items)
                body = []
                for i in range(1, max(list(items) + [0]) + 1):
                    if i not in items:
                        raise ReplayInvalid('hole in slot map')
                    body.append('m.insert(%s);' % self.expr(E, st, et, items[i], decl))
                return '{ let mut m: %s = slotmap::SlotMap::with_key(); %s m }' % (self.rty(E, tid), ' '.join(body))
            if n == 'slotmap::SparseSecondaryMap':
                et = E.elem_ty(tid)
                body = []
                for kk, o in v.items:
                    if o.tag == 1:
                        body.append('m.insert(crate::__rvs::mkkey(%d), %s);' % (kk, self.expr(E, st, et, o.pay[1][0], decl)))
                return '{ let mut m: %s = Default::default(); %s m }' % (self.rty(E, tid), ' '.join(body))
            if n in ('cgmath::Point2', 'cgmath::Vector2'):
                return '%s { x: %s, y: %s }' % (n, self.num(v.f[0], {'k': 'float'}), self.num(v.f[1], {'k': 'float'}))
            if n.startswith('traffic_sim::'):
                mod = '::'.join(['crate'] + self.module_of(n) + ['__rv'])
                idn = self.ident(t)
                if t['adt'] == 'struct':
                    fs = t['variants'][0]['fields']
                    return '%s::mk_%s(%s)' % (mod, idn, ', '.join(self.expr(E, st, f[1], x, decl) for f, x in zip(fs, v.f)))
                va = t['variants'][v.tag]
                return '%s::mk_%s_%s(%s)' % (mod, idn, va['name'], ', '.join(
                    self.expr(E, st, f[1], x, decl) for f, x in zip(va['fields'], v.pay.get(v.tag, ()))))
        raise ReplayInvalid('cannot build a value of type %s' % t['d'])

    def declare(self, E, st, alloc, tid, decl):
        nm = 'a%d' % alloc
        if nm in decl:
            return nm
        if tid is None:
            raise ReplayInvalid('untyped allocation')
        v = E.M.load(st, alloc)
        t = E.p.types[tid]
        decl[nm] = None
        if t['k'] == 'slice':
            e = 'vec![%s]' % ', '.join(self.expr(E, st, t['elem'], x, decl) for x in v.items)
        else:
            e = self.expr(E, st, tid, v, decl)
        decl[nm] = (alloc, tid, e)
        # move to the end so that dependencies are declared first
        decl[nm] = decl.pop(nm)
        return nm

    # ------------------------------------------------------------ result decoding
    def dec(self, E, tid, j):
        t = E.p.types[tid]
        k = t['k']
        if k == 'float':
            if isinstance(j, str):
                return {'NaN': float('nan'), 'inf': float('inf'), '-inf': float('-inf')}[j]
            return Fraction(repr(float(j)))
        if k in ('int', 'bool'):
            return j
        if k in ('ref', 'ptr'):
            return self.dec(E, t['elem'], j)
        if k == 'tuple':
            return StructV([self.dec(E, e, x) for e, x in zip(t['elems'], j)])
        if k in ('array', 'slice'):
            return SeqC([self.dec(E, t['elem'], x) for x in j])
        if k == 'never':
            return UNINIT
        if k == 'adt':
            n = t['name']
            if self.is_key(E, t):
                return StructV((j,))
            if n in ('std::vec::Vec', 'smallvec::SmallVec', 'arrayvec::ArrayVec'):
                et = E.elem_ty(tid)
                return SeqC([self.dec(E, et, x) for x in j])
            if n == 'std::cell::Cell':
                return StructV((StructV((self.dec(E, t['args'][0], j),)),))
            if n in ('std::rc::Rc', 'std::boxed::Box'):
                return self.dec(E, t['args'][0], j)
            if n == 'slotmap::SlotMap':
                et = E.elem_ty(tid)
                items = [(kk, self.dec(E, et, x)) for kk, x in j]
                return MapC(items, max([kk for kk, _ in items] + [0]) + 1)
            if n == 'slotmap::SparseSecondaryMap':
                et = E.elem_ty(tid)
                return MapC([(kk, EnumV(1, {1: (self.dec(E, et, x),)})) for kk, x in j], -1)
            if t['adt'] == 'struct':
                return StructV([self.dec(E, f[1], x) for f, x in zip(t['variants'][0]['fields'], j)])
            if t['adt'] == 'enum':
                i, fs = j
                return EnumV(i, {i: tuple(self.dec(E, f[1], x) for f, x in zip(t['variants'][i]['fields'], fs))})
        raise ReplayInvalid('cannot read back a value of type %s' % t['d'])

    # ------------------------------------------------------------ the call
    def request(self, E, st, sym, f, vals):
        """source text that performs one call"""
        self.prepare()
        decl = {}
        tys = f['locals'][1:1 + f['argc']]
        rt = f['locals'][0]
        seen = set()
        for t in tys + [rt]:
            self.collect(E, t, seen)
        args = [self.expr(E, st, t, v, decl) for t, v in zip(tys, vals)]
        for nm, (al, tid, e) in decl.items():
            self.collect(E, tid, seen)
        path = f['name'].replace('traffic_sim::', 'crate::')
        m = re.match(r'^<([\w:]+)', f['name'])
        mod = self.module_of(m.group(1) if m else f['name'])
        lines = []
        for nm, (al, tid, e) in decl.items():
            lines.append('    let mut %s = %s;' % (nm, e))
        lines.append('    let mut o = String::new();')
        lines.append('    { let r = %s(%s); o.push_str("RV-RET "); crate::__rvs::Show::show(&r, &mut o); o.push_str("\\n"); }' % (path, ', '.join(args)))
        for nm, (al, tid, e) in decl.items():
            lines.append('    o.push_str("RV-MEM %d "); crate::__rvs::Show::show(&%s, &mut o); o.push_str("\\n");' % (al, nm))
        lines.append('    print!("{}", o);')
        return Request(E, st, f, rt, decl, seen, mod, '{\n%s\n}' % '\n'.join(lines))

    def compile(self, reqs):
        """one program that performs any of the requested calls"""
        mods = {}
        done = set()
        for i, q in enumerate(reqs):
            for tid in sorted(q.seen - done):
                t = q.E.p.types[tid]
                if t['k'] == 'adt' and t['name'].startswith('traffic_sim::'):
                    md, src = self.gen_adt(q.E, tid)
                    mods.setdefault(tuple(md), []).append(src)
            done |= q.seen
            mods.setdefault(tuple(q.mod), []).append('pub fn run%d() %s\n' % (i, q.text))
        for p, s in self.orig.items():
            with open(p, 'w') as fh:
                fh.write(s)
        for md, srcs in mods.items():
            with open(self.mod_file(list(md)), 'a') as fh:
                fh.write('\n#[allow(dead_code, unused, non_snake_case, private_interfaces)]\npub mod __rv { use super::*; use crate::__rvs::Show;\n%s\n}\n' % ''.join(srcs))
        arms = ' '.join('%d => %s::__rv::run%d(),' % (i, '::'.join(['crate'] + q.mod), i) for i, q in enumerate(reqs))
        with open(self.mod_file([]), 'a') as fh:
            fh.write(ROOT + '\n#[allow(dead_code)]\npub fn __rv_main(i: usize) { match i { %s _ => panic!("no such case") } }\n' % arms)
        os.makedirs(os.path.join(self.dst, 'src', 'bin'), exist_ok=True)
        with open(os.path.join(self.dst, 'src', 'bin', 'rvreplay.rs'), 'w') as fh:
            fh.write('fn main() { traffic_sim::__rv_main(std::env::args().nth(1).unwrap().parse().unwrap()) }\n')
        env = dict(os.environ)
        for kk in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'LD_LIBRARY_PATH'):
            env.pop(kk, None)
        env.update(CARGO_TARGET_DIR=os.path.join(BUILD, 'rtgt'), CARGO_NET_OFFLINE='true')
        exe = os.path.join(self.dir, 'rvreplay')
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'rtgt.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            b = subprocess.run(['cargo', 'build', '--offline', '--bin', 'rvreplay'], cwd=self.dst, env=env, capture_output=True, text=True)
            if b.returncode != 0:
                raise ReplayInvalid('replay program does not compile:\n' + b.stderr[-2500:])
            shutil.copy(os.path.join(BUILD, 'rtgt', 'debug', 'rvreplay'), exe)
            sweep(os.path.join(BUILD, 'rtgt'))

    def execute(self, q, i, log):
        log.append('// call %s\n%s' % (q.f['name'], q.text))
        try:
            r = subprocess.run([os.path.join(self.dir, 'rvreplay'), str(i)], cwd=self.dir, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            raise ReplayInvalid('replay timed out')
        log.append('// exit %d\n%s%s' % (r.returncode, r.stdout, r.stderr[-1500:]))
        if r.returncode != 0:
            if 'panicked at' in r.stderr:
                raise ReplayPanic(r.stderr.strip()[:500])
            raise ReplayInvalid('replay program failed: ' + r.stderr[-500:])
        ret = UNINIT
        for ln in r.stdout.split('\n'):
            if ln.startswith('RV-RET '):
                ret = self.dec(q.E, q.rt, json.loads(ln[7:]))
            elif ln.startswith('RV-MEM '):
                _, a, j = ln.split(' ', 2)
                for nm, (al, tid, e) in q.decl.items():
                    if al == int(a):
                        q.st.mem[al] = self.dec(q.E, tid, json.loads(j))
        return ret

    def __call__(self, E, st, sym, f, vals):
        q = self.request(E, st, sym, f, vals)
        self.compile([q])
        return self.execute(q, 0, self.log)


class Request:
    def __init__(self, E, st, f, rt, decl, seen, mod, text):
        self.E, self.st, self.f, self.rt, self.decl, self.seen, self.mod, self.text = E, st, f, rt, decl, seen, mod, text


class Case:
    """one run of a contract on concrete inputs; stops at every call until the call has been performed"""

    def __init__(self, batch, body):
        self.batch, self.body = batch, body
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.log, self.pending, self.answer, self.error, self.done = [], None, None, None, False
        self.result = None
        threading.stack_size(256 << 20)
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        self.go.acquire()
        try:
            self.result = self.body(self)
        except BaseException as e:
            self.result = e
        self.done = True
        self.back.release()

    def step(self):
        self.go.release()
        self.back.acquire()

    def __call__(self, E, st, sym, f, vals):
        self.pending = self.batch.rpc.request(E, st, sym, f, vals)
        self.back.release()
        self.go.acquire()
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        return self.answer


class Batch:
    """runs many cases side by side, compiling all their calls together"""

    def __init__(self, harness=None):
        self.rpc = Rpc(harness)

    def close(self):
        self.rpc.close()

    def run(self, bodies, deadline):
        cases = [Case(self, b) for b in bodies]
        for c in cases:
            c.step()
        while True:
            live = [c for c in cases if not c.done]
            if not live:
                break
            try:
                if time.time() > deadline:
                    raise ReplayInvalid('time budget')
                self.rpc.compile([c.pending for c in live])
                bad = None
            except ReplayInvalid as e:
                bad = e
            for i, c in enumerate(live):
                try:
                    if bad is not None:
                        raise bad
                    c.answer = self.rpc.execute(c.pending, i, c.log)
                except (ReplayInvalid, ReplayPanic) as e:
                    c.error = e
            for c in live:
                c.step()
        return cases
