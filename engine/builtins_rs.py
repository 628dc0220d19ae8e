"""Models of std / slotmap / smallvec / arrayvec primitives (part of the trusted base, listed in
the evidence of every run under `library_models`)."""
import re
import z3
from fractions import Fraction
from values import *
import values as V


def some(v):
    return EnumV(1, {1: (v,)})


def none():
    return EnumV(0, {0: ()})


def opt(c, v):
    if c is True:
        return some(v)
    if c is False:
        return none()
    return EnumV(ite(c, 1, 0), {0: (), 1: (v,)})


SEQ_NAMES = ('std::vec::Vec', 'smallvec::SmallVec', 'arrayvec::ArrayVec')
BITS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'u128': (128, False), 'usize': (64, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'i128': (128, True), 'isize': (64, True)}

BASE_ITERS = (r'std::slice::Iter|std::slice::IterMut|std::slice::Windows|std::slice::Chunks|std::slice::ChunksExact|std::vec::IntoIter|std::vec::Drain|'
              r'std::array::IntoIter|smallvec::IntoIter|arrayvec::IntoIter|smallvec::Drain|'
              r'slotmap::basic::(?:Iter|IterMut|Values|ValuesMut|Keys|IntoIter)|slotmap::sparse_secondary::\w+')
BASE_RE = re.compile(r"^<(" + BASE_ITERS + r")\b.* as std::iter::(?:Iterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)$")

SEQ_RE = r'(?:std::vec::Vec|smallvec::SmallVec|arrayvec::ArrayVec)'


class Builtins:
    TRANSPARENT = ('std::mem::ManuallyDrop',)

    def __init__(self, m):
        self.m = m
        self.cache = {}
        self.rules = [(re.compile(p), fn) for p, fn in self.table()]

    def is_seq_ty(self, t):
        return t['k'] == 'adt' and t['name'] in SEQ_NAMES

    def opaque_ty(self, t):
        return self.is_seq_ty(t) or t['name'] in ('slotmap::KeyData', 'std::rc::Rc', 'slotmap::SlotMap', 'slotmap::SparseSecondaryMap')

    PANIC = re.compile(r'^(core::panicking::|std::rt::(begin_)?panic|std::option::(unwrap|expect)_failed|std::result::unwrap_failed|'
                       r'core::slice::index::slice_\w*fail|std::panicking|std::process::abort|std::intrinsics::abort|core::str::slice_error_fail|.*::assert_failed$|'
                       r'std::cell::panic_|core::cell::panic_|std::rt::panic_fmt|core::num::imp::int_log10::panic)')

    def is_panic(self, f):
        return bool(self.PANIC.match(f['def']))

    def lookup(self, f):
        d = f['def']
        if d in self.cache:
            return self.cache[d]
        r = None
        mm = BASE_RE.match(d)
        if mm and f['kind'] != 'Virtual':
            h = getattr(self, 'it_' + mm.group(2), None)
            if h is not None:
                r = h
        if r is None:
            for p, fn in self.rules:
                mm = p.match(d)
                if mm:
                    g = mm.groups()
                    r = (lambda fn, g: lambda st, f, a: fn(st, f, a, *g))(fn, g)
                    break
        if r is None and f['kind'].startswith('Virtual'):
            r = self.virtual
        self.cache[d] = r
        return r

    # ------------------------------------------------------------------ table
    def table(self):
        T = []

        def add(p, fn):
            T.append((p, fn))
        one = lambda fn: (lambda st, f, a, *g: [(st, fn(st, f, a, *g))])
        L = self.m.load
        ld = lambda st, r: self.m.loadr(st, r)

        # --- closures
        add(r'^std::ops::(?:FnMut::call_mut|FnOnce::call_once|Fn::call)$', self.shim_call)
        add(r'.*::precondition_check$', one(lambda st, f, a: UNIT))
        # --- cells
        add(r'^std::cell::Cell::<T>::get$', one(lambda st, f, a: L(st, a[0].alloc, a[0].path + (('f', 0), ('f', 0)))))
        add(r'^std::cell::Cell::<T>::new$', one(lambda st, f, a: StructV((StructV((a[0],)),))))
        add(r'^std::cell::Cell::<T>::set$', self.cell_set)
        add(r'^std::cell::Cell::<T>::replace$', self.cell_replace)
        add(r'^std::cell::Cell::<T>::into_inner$', one(lambda st, f, a: a[0].f[0].f[0]))
        add(r'^std::cell::Cell::<T>::get_mut$', one(lambda st, f, a: RefV(a[0].alloc, a[0].path + (('f', 0), ('f', 0)))))
        add(r'^std::cell::Cell::<T>::update$', self.cell_update)
        # --- mem / ptr
        add(r'^std::mem::replace$', self.mem_replace)
        add(r'^std::mem::swap$', self.mem_swap)
        add(r'^std::ptr::(?:read|const_ptr::<impl \*const T>::read|mut_ptr::<impl \*mut T>::read)$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^std::intrinsics::read_via_copy$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^std::ptr::(?:write|mut_ptr::<impl \*mut T>::write)$', self.ptr_write)
        add(r'^std::intrinsics::write_via_move$', self.ptr_write)
        add(r'^std::intrinsics::typed_swap_nonoverlapping$', self.mem_swap)
        add(r'^std::intrinsics::(?:assert_inhabited|assert_zero_valid|cold_path|assume)$', one(lambda st, f, a: UNIT))
        add(r'^std::hint::(?:assert_unchecked|black_box)$', one(lambda st, f, a: UNIT))
        add(r'^std::intrinsics::(?:likely|unlikely|black_box)$', one(lambda st, f, a: a[0]))
        add(r'^std::iter::Iterator::step_by$', self.step_by)
        add(r'^<std::iter::StepBy<I> as std::iter::(?:Iterator>::(next|nth|size_hint|fold)|DoubleEndedIterator>::(next_back)|ExactSizeIterator>::(len))$', self.step_it)
        add(r'^std::mem::(?:drop|forget)$', one(lambda st, f, a: UNIT))
        add(r'^std::(?:mem::discriminant|intrinsics::discriminant_value)$', self.discr_value)
        add(r'^std::intrinsics::select_unpredictable$|^std::hint::select_unpredictable$', one(lambda st, f, a: ite(a[0], a[1], a[2])))
        add(r'^std::intrinsics::raw_eq$', one(lambda st, f, a: self.eqv(st, ld(st, a[0]), ld(st, a[1]))))
        add(r'^std::ptr::eq$', one(lambda st, f, a: same(a[0], a[1])))
        add(r'^std::intrinsics::ctpop$', one(lambda st, f, a: self.popcount(a[0], f)))
        add(r'^std::intrinsics::(saturating|wrapping)_(add|sub|mul)$', one(self.intr_arith))
        add(r'^std::intrinsics::(add|sub|mul)_with_overflow$', one(self.intr_overflow))
        add(r'^std::intrinsics::integer_(min|max)$', one(lambda st, f, a, w: ite(lt_int(a[0], a[1]) if w == 'min' else lt_int(a[1], a[0]), a[0], a[1])))
        # --- boxes and Rc
        add(r'^std::boxed::Box::<T>::new$', self.box_new)
        add(r'^std::boxed::Box::<T>::new_uninit$', self.box_uninit)
        add(r'^std::boxed::box_new_uninit$', self.box_uninit)
        add(r'^std::boxed::box_assume_init_into_vec_unsafe$', self.box_into_vec)
        add(r'^std::slice::<impl \[T\]>::into_vec$', self.box_into_vec)
        add(r'^std::boxed::Box::<std::mem::MaybeUninit<T>, A>::(?:assume_init|write)$', one(lambda st, f, a: a[0]))
        add(r'^std::rc::Rc::<T>::new$', self.rc_new)
        add(r'^<std::rc::Rc<T, A> as std::clone::Clone>::clone$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^<std::rc::Rc<T, A> as std::(?:ops::Deref>::deref|convert::AsRef<T>>::as_ref|borrow::Borrow<T>>::borrow)$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^std::rc::Rc::<T, A>::ptr_eq$', one(lambda st, f, a: same(ld(st, a[0]), ld(st, a[1]))))
        # --- floats
        fl = r'^(?:core|std)::f64::<impl f64>::'
        add(fl + r'abs$|^std::intrinsics::fabs$', one(lambda st, f, a: self.fabs(a[0])))
        add(fl + r'max$|^std::intrinsics::maximum_number_nsz_f64$', one(lambda st, f, a: self.fmax(a[0], a[1])))
        add(fl + r'min$|^std::intrinsics::minimum_number_nsz_f64$', one(lambda st, f, a: self.fmin(a[0], a[1])))
        add(fl + r'clamp$', self.fclamp)
        add(fl + r'is_nan$', one(lambda st, f, a: self.is_nan(a[0])))
        add(fl + r'is_finite$', one(lambda st, f, a: bnot(self.is_nan(a[0])) if not isinf(a[0]) else False))
        add(fl + r'is_infinite$', one(lambda st, f, a: isinf(a[0]) and a[0] == a[0]))
        add(fl + r'is_sign_negative$', one(lambda st, f, a: r_cmp('lt', a[0], Fraction(0))))
        add(fl + r'is_sign_positive$', one(lambda st, f, a: r_cmp('ge', a[0], Fraction(0))))
        add(fl + r'signum$', one(lambda st, f, a: ite(r_cmp('lt', a[0], Fraction(0)), Fraction(-1), Fraction(1))))
        add(fl + r'sqrt$|^std::intrinsics::sqrt$', one(lambda st, f, a: self.m.sqrt(st, a[0])))
        add(fl + r'powi$|^std::intrinsics::powi$', one(self.powi))
        add(fl + r'hypot$', one(lambda st, f, a: self.m.sqrt(st, r_add(r_mul(a[0], a[0]), r_mul(a[1], a[1])))))
        add(fl + r'mul_add$', one(lambda st, f, a: r_add(r_mul(a[0], a[1]), a[2])))
        add(fl + r'recip$', one(lambda st, f, a: self.m.divide(st, Fraction(1), a[0])))
        add(fl + r'(ceil|floor|trunc|round|fract)$|^std::intrinsics::(ceil|floor|trunc)f64$', one(self.rounding))
        add(fl + r'(sin|cos|tan|atan2|atan|asin|acos|exp|ln|powf|log10|log2|rem_euclid|sin_cos|tanh|cbrt|exp2)$', self.uninterp_float)
        # --- ints
        add(r'^core::num::<impl (\w+)>::(saturating_add|saturating_sub|saturating_mul|wrapping_add|wrapping_sub|wrapping_mul|wrapping_neg|checked_add|checked_sub|checked_mul|checked_div|checked_rem|overflowing_add|overflowing_sub|overflowing_mul|abs|abs_diff|pow|count_ones|rem_euclid|unsigned_abs|signum|unchecked_add|unchecked_sub|is_power_of_two|wrapping_shl|wrapping_shr|checked_shl|checked_shr|is_negative|is_positive)$', one(self.int_method))
        add(r'^std::cmp::impls::<impl std::cmp::Ord for (\w+)>::(min|max|clamp)$', one(self.ord_minmax))
        # --- containers
        add(r'^(?:std::vec::Vec::<T>|smallvec::SmallVec::<A>|arrayvec::ArrayVec::<T, CAP>)::(?:new|with_capacity|new_const)$', one(lambda st, f, a: SeqC(())))
        add(r'^<' + SEQ_RE + r'<.*> as std::default::Default>::default$', one(lambda st, f, a: SeqC(())))
        add(r'^' + SEQ_RE + r'::<.*>::(?:as_slice|as_mut_slice|as_ref|leak|into_boxed_slice)$', one(lambda st, f, a: a[0]))
        add(r'^<' + SEQ_RE + r'<.*> as std::(?:ops::Deref>::deref|ops::DerefMut>::deref_mut|convert::AsRef<\[.*\]>>::as_ref|borrow::Borrow<.*>>::borrow)$', one(lambda st, f, a: a[0]))
        add(r'^' + SEQ_RE + r'::<.*>::(len|is_empty|capacity|is_full|remaining_capacity)$', one(self.seq_len))
        add(r'^(?:core|std)::slice::<impl \[T\]>::(len|is_empty)$', one(self.seq_len))
        add(r'^' + SEQ_RE + r'::<.*>::(push|insert|remove|swap_remove|pop|clear|truncate|push_unchecked|pop_at|try_push|split_off|drain|reserve|reserve_exact|shrink_to_fit|retain|retain_mut|append|extend_from_slice|try_extend_from_slice|dedup|insert_many|resize|into_iter|first|last|swap_pop|set_len|into_vec|into_inner|from_slice|from_elem|from_vec)$', self.vec_method)
        add(r'^<' + SEQ_RE + r'<.*> as std::clone::Clone>::clone$|^(?:core|std|alloc)::slice::<impl \[T\]>::(?:to_vec|to_owned|into_vec)$|^<\[T\] as std::borrow::ToOwned>::to_owned$|^<T as std::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec$|^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^pathfinding::.*::dijkstra$', self.dijkstra)
        add(r'^pathfinding::.*::dfs_reach$', self.dfs_reach)
        add(r'^<pathfinding::.*DfsReachable<.*> as std::iter::Iterator>::next$', self.it_next)
        add(r'^std::array::<impl std::clone::Clone for \[T; N\]>::clone$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^<' + SEQ_RE + r'<.*> as std::iter::Extend<.*>>::extend$|^<std::vec::Vec<.*> as std::vec::spec_extend.*>::spec_extend$|^arrayvec::ArrayVec::<T, CAP>::extend_from_iter$', self.vec_extend)
        add(r'^<' + SEQ_RE + r'<.*> as std::iter::FromIterator<.*>>::from_iter$', self.from_iter)
        add(r'^<' + SEQ_RE + r'<.*> as std::convert::From<.*>>::from$', self.seq_from)
        add(r'^<' + SEQ_RE + r'<.*> as std::iter::IntoIterator>::into_iter$', one(lambda st, f, a: self.into_iter(st, a[0])))
        add(r"^<&'?a? ?(?:mut )?" + SEQ_RE + r"<.*> as std::iter::IntoIterator>::into_iter$", one(lambda st, f, a: self.iter_ref(st, a[0])))
        add(r"^core::slice::iter::<impl std::iter::IntoIterator for &'a (?:mut )?\[T\]>::into_iter$", one(lambda st, f, a: self.iter_ref(st, a[0])))
        add(r"^std::array::<impl std::iter::IntoIterator for &'a (?:mut )?\[T; N\]>::into_iter$", one(lambda st, f, a: self.iter_ref(st, a[0])))
        add(r"^std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$", one(lambda st, f, a: self.into_iter(st, a[0])))
        add(r'^(?:core|std)::slice::<impl \[T\]>::(?:iter|iter_mut)$', one(lambda st, f, a: self.iter_ref(st, a[0])))
        add(r'^(?:core|std)::slice::<impl \[T\]>::windows$', one(self.windows))
        add(r'^(?:core|std)::slice::<impl \[T\]>::(?:chunks|chunks_exact)$', one(self.chunks))
        add(r'^(?:core|std)::slice::<impl \[T\]>::(first|last|first_mut|last_mut|get|get_mut|get_unchecked|get_unchecked_mut|contains|swap|reverse|split_at|split_at_mut|split_first|split_last|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort|sort_unstable|copy_from_slice|fill|concat|starts_with|rotate_left|rotate_right|binary_search_by|partition_point|split_first_mut|split_last_mut|as_ptr|as_mut_ptr|to_vec|get_disjoint_mut)$', self.slice_method)
        add(r'^std::slice::<impl \[T\]>::(sort_by|sort_by_key|sort|reverse)$', self.slice_method)
        add(r'^(?:<' + SEQ_RE + r'<.*> as std::ops::Index(?:Mut)?<I>>::index(?:_mut)?|core::slice::index::<impl std::ops::Index(?:Mut)?<I> for \[T\]>::index(?:_mut)?|std::array::<impl std::ops::Index(?:Mut)?<I> for \[T; N\]>::index(?:_mut)?)$', self.index)
        add(r'^<(usize|std::ops::Range<usize>|std::ops::RangeInclusive<usize>|std::ops::RangeFrom<usize>|std::ops::RangeTo<usize>|std::ops::RangeToInclusive<usize>|std::ops::RangeFull) as std::slice::SliceIndex<\[T\]>>::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)$', self.slice_index)
        add(r'^std::array::<impl \[T; N\]>::map$', self.array_map)
        add(r'^std::array::from_fn$', self.array_from_fn)
        add(r'^std::array::<impl \[T; N\]>::(?:as_slice|as_mut_slice|each_ref)$', one(lambda st, f, a: a[0]))
        add(r"^std::array::<impl std::convert::TryFrom<(&?)(?:'a )?(?:mut )?\[T\]> for \[T; N\]>::try_from$", one(self.array_try_from))
        add(r'^std::slice::from_ref$', one(lambda st, f, a: RefV(self.slice_of_one(st, a[0]))))
        add(r'^std::array::equality::<impl std::cmp::PartialEq<.*>::(eq|ne)$|^<' + SEQ_RE + r'<.*> as std::cmp::PartialEq<.*>>::(eq|ne)$|^core::slice::cmp::<impl std::cmp::PartialEq<.*>::(eq|ne)$|^std::vec::partial_eq::<impl std::cmp::PartialEq<.*>::(eq|ne)$', one(self.seq_eq))
        # --- ranges
        add(r'^std::iter::range::<impl std::iter::(?:Iterator|DoubleEndedIterator) for std::ops::Range<A>>::(next|next_back)$', self.range_next)
        # --- slot maps
        sm = r'slotmap::(?:SlotMap|basic::SlotMap)'
        add(r'^' + sm + r'::<K, V>::(?:with_key|new|with_capacity_and_key|with_capacity)$|^<' + sm + r'<.*> as std::default::Default>::default$', one(lambda st, f, a: MapC((), 1)))
        add(r'^<' + sm + r'<K, V> as std::ops::Index(?:Mut)?<K>>::index(?:_mut)?$', self.map_index)
        add(r'^' + sm + r'::<K, V>::(get|get_mut|contains_key|insert|insert_with_key|remove|iter|iter_mut|values|values_mut|keys|len|is_empty|get_disjoint_mut|clear|get_unchecked|get_unchecked_mut)$', self.map_method)
        add(r"^<&'a (?:mut )?" + sm + r"<K, V> as std::iter::IntoIterator>::into_iter$", one(lambda st, f, a: self.map_iter(st, a[0], 'pair')))
        add(r'^slotmap::Key::is_null$|^slotmap::KeyData::is_null$', one(self.key_is_null))
        add(r'^slotmap::Key::null$', one(lambda st, f, a: StructV((0,))))
        add(r'^slotmap::KeyData::null$|^<slotmap::KeyData as std::default::Default>::default$', one(lambda st, f, a: 0))
        add(r'^<slotmap::KeyData as std::cmp::PartialEq>::(eq|ne)$', one(lambda st, f, a, w: (lambda e: e if w == 'eq' else bnot(e))(eq_int(ld(st, a[0]), ld(st, a[1])))))
        add(r"^<std::slice::Iter<.*> as std::clone::Clone>::clone$", one(lambda st, f, a: ld(st, a[0])))
        add(r'^<slotmap::KeyData as std::clone::Clone>::clone$', one(lambda st, f, a: ld(st, a[0])))
        add(r'^<slotmap::KeyData as std::cmp::(?:Ord|PartialOrd)>::(cmp|partial_cmp)$', one(lambda st, f, a, w: (lambda o: o if w == 'cmp' else some(o))(self.m.ordering(lt_int(ld(st, a[0]), ld(st, a[1])), lt_int(ld(st, a[1]), ld(st, a[0]))))))
        ss = r'slotmap::(?:SparseSecondaryMap|SecondaryMap|sparse_secondary::SparseSecondaryMap)'
        add(r'^' + ss + r'::<.*>::(?:new|with_hasher|with_capacity|default)$|^<' + ss + r'<.*> as std::default::Default>::default$', one(lambda st, f, a: MapC((), -1)))
        add(r'^' + ss + r'::<.*>::(get|get_mut|contains_key|insert|remove|entry|len|is_empty|clear)$', self.sec_method)
        add(r'^<' + ss + r'<.*> as std::ops::Index(?:Mut)?<K>>::index(?:_mut)?$', self.sec_index)
        add(r'^<' + ss + r'<.*> as std::clone::Clone>::clone$', one(lambda st, f, a: ld(st, a[0])))
        add(r"^slotmap::sparse_secondary::Entry::<'a, K, V>::(or_insert|or_insert_with)$", self.entry_or_insert)
        # --- random numbers: unconstrained
        add(r'^rand::thread_rng$', one(lambda st, f, a: OpaqueV('rng')))
        add(r'^rand_distr::Normal::<F>::new$', one(lambda st, f, a: EnumV(0, {0: (OpaqueV('normal'),)})))
        add(r'.*rand_distr::Distribution<.*>>::sample$|^rand::Rng::sample$|^<rand_distr::Normal<F> as .*>::sample$', one(lambda st, f, a: z3.Real(self.m.fresh_name('random'))))
        return T

    # ------------------------------------------------------------------ calls
    def shim_call(self, st, f, a):
        tid = f['args'][0]
        args = list(a[1].f) if isinstance(a[1], StructV) else [a[1]]
        t = self.m.ty(tid)
        fv = a[0]
        if f['def'].endswith('call_once'):
            return self.m.call_closure(st, fv, tid, args)
        # &self / &mut self receiver: fv is a reference to the callable
        if t['k'] == 'closure':
            return self.m.call(st, t['sym'], [fv] + args)
        return self.m.call_closure(st, self.m.loadr(st, fv) if isinstance(fv, RefV) else fv, tid, args)

    def virtual(self, st, f, a):
        r = a[0]
        if hasattr(r, 'tid'):
            meth = f['def'].split('::')[-1]
            trait = f['def'].rsplit('::', 1)[0].split('::')[-1]
            for s, g in self.m.p.fns.items():
                if g['def'].endswith('::' + meth) and trait in g['def'] and g['args'] and g['args'][0] == r.tid and 'blocks' in g:
                    return self.m.call(st, s, [RefV(r.alloc, r.path)] + a[1:])
        raise Unsupported('dynamic dispatch of %s' % f['def'])

    # ------------------------------------------------------------------ cells / memory
    def cell_set(self, st, f, a):
        self.m.store(st, a[0].alloc, a[0].path + (('f', 0), ('f', 0)), a[1])
        return [(st, UNIT)]

    def cell_replace(self, st, f, a):
        p = a[0].path + (('f', 0), ('f', 0))
        old = self.m.load(st, a[0].alloc, p)
        self.m.store(st, a[0].alloc, p, a[1])
        return [(st, old)]

    def cell_update(self, st, f, a):
        p = a[0].path + (('f', 0), ('f', 0))
        out = []
        for s2, v in self.m.call_closure(st, a[1], self.last_ty(f), [self.m.load(st, a[0].alloc, p)]):
            self.m.store(s2, a[0].alloc, p, v)
            out.append((s2, UNIT))
        return out

    def mem_replace(self, st, f, a):
        old = self.m.loadr(st, a[0])
        self.m.storer(st, a[0], a[1])
        return [(st, old)]

    def mem_swap(self, st, f, a):
        x, y = self.m.loadr(st, a[0]), self.m.loadr(st, a[1])
        self.m.storer(st, a[0], y)
        self.m.storer(st, a[1], x)
        return [(st, UNIT)]

    def ptr_write(self, st, f, a):
        self.m.storer(st, a[0], a[1])
        return [(st, UNIT)]

    def discr_value(self, st, f, a):
        t = self.m.ty(f['args'][0])
        return [(st, self.m.discr(self.m.loadr(st, a[0]), t))]

    def ret_ty(self, f):
        return f['locals'][0] if 'locals' in f else None

    def box_new(self, st, f, a):
        al = self.m.alloc(st, a[0])
        return [(st, self.box_val(al))]

    def box_val(self, al):
        return StructV((StructV((StructV((RefV(al),)), UNIT)), UNIT))

    def box_uninit(self, st, f, a):
        return [(st, self.box_val(self.m.alloc(st, UNINIT)))]

    def box_into_vec(self, st, f, a):
        r = self.m.peel(a[0])
        return [(st, self.m.loadr(st, r))]

    def rc_new(self, st, f, a):
        return [(st, RefV(self.m.alloc(st, a[0])))]

    # ------------------------------------------------------------------ floats
    def fabs(self, x):
        if is_py(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)

    def fmax(self, a, b):
        if isinf(a) and a != a:
            return b
        if isinf(b) and b != b:
            return a
        c = r_cmp('ge', a, b)
        return ite(c, a, b)

    def fmin(self, a, b):
        if isinf(a) and a != a:
            return b
        if isinf(b) and b != b:
            return a
        c = r_cmp('le', a, b)
        return ite(c, a, b)

    def fclamp(self, st, f, a):
        x, lo, hi = a
        bad = r_cmp('gt', lo, hi)
        if bad is not False and self.m.feasible(st.pc, bad):
            s2 = st.fork()
            if bad is not True:
                s2.assume(bad)
            self.m.panic(s2, 'clamp with min > max')
            if bad is True:
                return []
            st.assume(bnot(bad))
        return [(st, ite(r_cmp('lt', x, lo), lo, ite(r_cmp('gt', x, hi), hi, x)))]

    def is_nan(self, x):
        if is_py(x):
            return x != x
        # in exact arithmetic only a zero denominator produces NaN (0/0; the numerators of the
        # affected quotients are components of the normalised vector and vanish with it)
        ds = []
        seen = set()
        stack = [x]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_DIV):
                n, d = t.children()
                if not z3.is_rational_value(d):
                    ds.append(z3.And(d == 0, n == 0))
            stack.extend(t.children())
        return bor(*ds) if ds else False

    def powi(self, st, f, a):
        x, n = a
        if not isinstance(n, int):
            raise Unsupported('powi with symbolic exponent')
        if n == 0:
            return Fraction(1)
        r = x
        for _ in range(abs(n) - 1):
            r = r_mul(r, x)
        if n < 0:
            return self.m.divide(st, Fraction(1), r)
        return r

    def rounding(self, st, f, a, w, w2=None):
        w = w or w2
        x = a[0]
        import math
        if is_py(x):
            if isinf(x):
                return x
            if w == 'ceil':
                return Fraction(math.ceil(x))
            if w == 'floor':
                return Fraction(math.floor(x))
            if w == 'trunc':
                return Fraction(math.trunc(x))
            if w == 'fract':
                return x - math.trunc(x)
            if w == 'round':
                return Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
        fl = z3.ToReal(z3.ToInt(x))
        tr = z3.If(x >= 0, fl, -z3.ToReal(z3.ToInt(-x)))
        if w == 'floor':
            return fl
        if w == 'ceil':
            return -z3.ToReal(z3.ToInt(-x))
        if w == 'trunc':
            return tr
        if w == 'fract':
            return x - tr
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + z3.RealVal('1/2'))))

    def uninterp_float(self, st, f, a, w):
        if w == 'powf' and is_py(a[1]) and not isinf(a[1]) and Fraction(a[1]).denominator == 1 and abs(a[1]) <= 8:
            return [(st, self.powi(st, f, [a[0], int(a[1])]))]
        if w == 'powf' and is_py(a[1]) and a[1] == Fraction(1, 2):
            return [(st, self.m.sqrt(st, a[0]))]
        raise Unsupported('transcendental function %s' % w)

    # ------------------------------------------------------------------ ints
    def int_method(self, st, f, a, ty, w):
        bits, sg = BITS[ty]
        t = {'k': 'int', 'bits': bits, 'signed': sg}
        lo = -(1 << (bits - 1)) if sg else 0
        hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
        args = [bits_int(x) if isinstance(x, Bits) and w not in ('count_ones',) else x for x in a]

        def arith(op):
            return {'add': i_add, 'sub': i_sub, 'mul': i_mul}[op](args[0], args[1])
        if w in ('saturating_add', 'saturating_sub', 'saturating_mul'):
            r = arith(w.split('_')[1])
            return ite(lt_int(r, lo), lo, ite(lt_int(hi, r), hi, r))
        if w in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
            return self.m.wrap(arith(w.split('_')[1]), t)
        if w in ('unchecked_add', 'unchecked_sub'):
            return arith(w.split('_')[1])
        if w in ('checked_add', 'checked_sub', 'checked_mul'):
            r = arith(w.split('_')[1])
            return opt(self.m.in_range(r, t), r)
        if w in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
            r = arith(w.split('_')[1])
            return StructV((self.m.wrap(r, t), bnot(self.m.in_range(r, t))))
        if w in ('checked_div', 'checked_rem') and not sg:
            z = eq_int(args[1], 0)
            if z is True:
                return none()
            r = self.m.binop(st, 'Div' if w == 'checked_div' else 'Rem', args[0], args[1], t)
            return opt(bnot(z), r)
        if w in ('abs', 'unsigned_abs'):
            return ite(lt_int(args[0], 0), i_sub(0, args[0]), args[0])
        if w == 'abs_diff':
            return ite(lt_int(args[0], args[1]), i_sub(args[1], args[0]), i_sub(args[0], args[1]))
        if w == 'signum':
            return ite(lt_int(args[0], 0), -1, ite(eq_int(args[0], 0), 0, 1))
        if w == 'is_negative':
            return lt_int(args[0], 0)
        if w == 'is_positive':
            return lt_int(0, args[0])
        if w == 'count_ones':
            return self.popcount(a[0], None, bits)
        if w == 'pow' and isinstance(args[1], int):
            r = 1
            for _ in range(args[1]):
                r = i_mul(r, args[0])
            return r
        if w in ('wrapping_shl', 'wrapping_shr') and not sg:
            return self.m.binop(st, 'Shl' if w.endswith('l') else 'Shr', a[0], args[1] if isinstance(args[1], int) else args[1] % bits, t)
        if w in ('checked_shl', 'checked_shr') and not sg:
            return opt(lt_int(args[1], bits), self.m.binop(st, 'Shl' if w.endswith('l') else 'Shr', a[0], args[1], t))
        if w == 'rem_euclid' and not sg:
            return self.m.binop(st, 'Rem', args[0], args[1], t)
        raise Unsupported('integer method %s' % w)

    def popcount(self, x, f, bits=None):
        if bits is None:
            bits = self.m.ty(f['args'][0])['bits']
        if isinstance(x, int):
            return bin(x).count('1')
        b = to_bits(x, bits)
        r = 0
        for i in range(bits):
            r = i_add(r, ite(b.fn(i), 1, 0))
        return r

    def intr_arith(self, st, f, a, kind, op):
        t = self.m.ty(f['args'][0])
        return self.int_method(st, f, a, {(b, s): n for n, (b, s) in BITS.items() if n not in ('usize', 'isize')}[(t['bits'], t['signed'])], '%s_%s' % (kind, op))

    def intr_overflow(self, st, f, a, op):
        t = self.m.ty(f['args'][0])
        r = {'add': i_add, 'sub': i_sub, 'mul': i_mul}[op](a[0], a[1])
        return StructV((self.m.wrap(r, t), bnot(self.m.in_range(r, t))))

    def ord_minmax(self, st, f, a, ty, w):
        if w == 'clamp':
            return ite(lt_int(a[0], a[1]), a[1], ite(lt_int(a[2], a[0]), a[2], a[0]))
        x, y = a
        if ty == 'bool':
            return band(x, y) if w == 'min' else bor(x, y)
        c = le_int(x, y)
        return ite(c, x, y) if w == 'min' else ite(c, y, x)

    # ------------------------------------------------------------------ sequences
    def last_ty(self, f):
        ts = [x for x in f['args'] if isinstance(x, int)]
        return ts[-1]

    def seq(self, st, r):
        v = self.m.loadr(st, r) if isinstance(r, RefV) else r
        if not isinstance(v, (SeqC, SeqS)):
            raise Unsupported('sequence expected, got %r' % type(v))
        return v

    def cap_of(self, f):
        for x in f['args']:
            if isinstance(x, dict) and x.get('c') is not None:
                return x['c']
        return None

    def seq_len(self, st, f, a, w):
        v = self.seq(st, a[0])
        n = self.m.seq_len(v)
        if w == 'len':
            return n
        if w == 'is_empty':
            return eq_int(n, 0)
        if w == 'is_full':
            return eq_int(n, self.cap_of(f))
        if w == 'remaining_capacity':
            return i_sub(self.cap_of(f), n)
        if w == 'capacity':
            c = self.cap_of(f)
            if c is None:
                raise Unsupported('Vec::capacity')
            return c
        raise Unsupported(w)

    def insert_at(self, st, v, i, x):
        if isinstance(v, SeqC):
            i = self.m.conc(st, i)
            if not isinstance(i, int):
                from machine import ForkOn
                raise ForkOn(i, list(range(len(v.items) + 1)))
            return SeqC(v.items[:i] + (x,) + v.items[i:])

        def base(j):
            lt = lt_int(j, i)
            eq = eq_int(j, i)
            return ite(lt, v.get(j), ite(eq, x, v.get(i_sub(j, 1)))) if lt is not True else v.get(j)
        return SeqS(i_add(v.n, 1), base)

    def remove_at(self, st, v, i):
        if isinstance(v, SeqC):
            i = self.m.conc(st, i)
            if not isinstance(i, int):
                from machine import ForkOn
                raise ForkOn(i, list(range(len(v.items))))
            return v.items[i], SeqC(v.items[:i] + v.items[i + 1:])
        return v.get(i), SeqS(i_sub(v.n, 1), lambda j: ite(lt_int(j, i), v.get(j), v.get(i_add(j, 1))))

    def obligation(self, st, cond, msg):
        """Library precondition whose failure panics in the real code."""
        if cond is True:
            return
        if cond is False or self.m.feasible(st.pc, bnot(cond)):
            s2 = st.fork()
            if cond is not False:
                s2.assume(bnot(cond))
            self.m.panic(s2, msg)
        if cond is False:
            from machine import Dead
            raise Dead()
        st.assume(cond)

    def vec_method(self, st, f, a, w):
        m = self.m
        if w in ('reserve', 'reserve_exact', 'shrink_to_fit'):
            return [(st, UNIT)]
        if w in ('into_vec', 'into_inner', 'from_vec'):
            return [(st, a[0])]
        if w == 'from_slice':
            return [(st, self.seq(st, a[0]))]
        if w == 'from_elem':
            n = m.conc(st, a[1])
            if not isinstance(n, int):
                raise Unsupported('from_elem')
            return [(st, SeqC([a[0]] * n))]
        if w == 'into_iter':
            return [(st, self.into_iter(st, a[0]))]
        v = self.seq(st, a[0])
        n = m.seq_len(v)
        isarr = f['def'].startswith('arrayvec')
        if w in ('push', 'push_unchecked'):
            if isarr:
                self.obligation(st, lt_int(n, self.cap_of(f)), 'ArrayVec capacity exceeded')
            if isinstance(v, SeqC):
                m.storer(st, a[0], SeqC(v.items + (a[1],)))
            else:
                m.storer(st, a[0], SeqS(i_add(n, 1), v.base, v.writes + ((n, a[1]),)))
            return [(st, UNIT)]
        if w == 'insert':
            self.obligation(st, band(le_int(0, a[1]), le_int(a[1], n)), 'insertion index out of bounds')
            m.storer(st, a[0], self.insert_at(st, v, a[1], a[2]))
            return [(st, UNIT)]
        if w == 'remove':
            self.obligation(st, band(le_int(0, a[1]), lt_int(a[1], n)), 'removal index out of bounds')
            x, nv = self.remove_at(st, v, a[1])
            m.storer(st, a[0], nv)
            return [(st, x)]
        if w == 'pop':
            if isinstance(v, SeqC):
                if not v.items:
                    return [(st, none())]
                m.storer(st, a[0], SeqC(v.items[:-1]))
                return [(st, some(v.items[-1]))]
            out = []
            e = eq_int(n, 0)
            if m.feasible(st.pc, e):
                out.append((st.fork().assume(e), none()))
            if m.feasible(st.pc, bnot(e)):
                s2 = st.fork().assume(bnot(e))
                m.storer(s2, a[0], SeqS(i_sub(n, 1), v.base, v.writes))
                out.append((s2, some(v.get(i_sub(n, 1)))))
            return out
        if w == 'clear':
            m.storer(st, a[0], SeqC(()))
            return [(st, UNIT)]
        if w == 'truncate':
            if isinstance(v, SeqC):
                k = m.conc(st, a[1])
                if not isinstance(k, int):
                    from machine import ForkOn
                    st.assume(le_int(0, k))
                    big = lt_int(len(v.items), k)
                    if m.feasible(st.pc, big):
                        s1 = st.fork().assume(big)
                        s2 = st.fork()
                        s2.assume(bnot(big))
                        return [(s1, UNIT)] + m.with_forks(s2, lambda s: self.vec_method(s, f, a, w))
                    raise ForkOn(k, list(range(len(v.items) + 1)))
                m.storer(st, a[0], SeqC(v.items[:k]))
            else:
                m.storer(st, a[0], SeqS(ite(lt_int(a[1], n), a[1], n), v.base, v.writes))
            return [(st, UNIT)]
        if w == 'swap_remove':
            self.obligation(st, lt_int(a[1], n), 'removal index out of bounds')
            if isinstance(v, SeqC):
                i = m.conc(st, a[1])
                if not isinstance(i, int):
                    from machine import ForkOn
                    raise ForkOn(i, list(range(len(v.items))))
                it = list(v.items)
                x = it[i]
                it[i] = it[-1]
                m.storer(st, a[0], SeqC(it[:-1]))
                return [(st, x)]
        if w in ('retain', 'retain_mut') and isinstance(v, SeqC):
            tid = self.last_ty(f)
            ca = m.alloc(st, a[1])
            t = m.ty(tid)
            outs = [(st, [])]
            for i in range(len(v.items)):
                nxt = []
                for s, kept in outs:
                    item = RefV(a[0].alloc, a[0].path + (('i', i),))
                    for s2, b in self.call_fn(s, RefV(ca), tid, [item]):
                        for s3, bb in self.fork_bool(s2, b):
                            nxt.append((s3, kept + [i] if bb else kept))
                outs = nxt
            res = []
            for s, kept in outs:
                cur = self.seq(s, a[0])
                m.storer(s, a[0], SeqC([cur.items[i] for i in kept]))
                res.append((s, UNIT))
            return res
        if w == 'retain' and isinstance(v, SeqS):
            import loops
            return loops.retain_symbolic(m, st, a[0], v, a[1], self.last_ty(f))
        if w in ('extend_from_slice', 'try_extend_from_slice', 'append'):
            o = self.seq(st, a[1])
            if isinstance(v, SeqC) and isinstance(o, SeqC):
                if isarr:
                    self.obligation(st, len(v.items) + len(o.items) <= self.cap_of(f), 'ArrayVec capacity exceeded')
                m.storer(st, a[0], SeqC(v.items + o.items))
            elif isinstance(v, SeqC) and not v.items:
                m.storer(st, a[0], o)
            else:
                ov, on = o, m.seq_len(o)
                m.storer(st, a[0], SeqS(i_add(n, on), lambda j: ite(lt_int(j, n), v.get(j), m.seq_get(ov, i_sub(j, n), st)), ()))
            if w == 'append':
                m.storer(st, a[1], SeqC(()))
            return [(st, UNIT)]
        if w == 'drain' and isinstance(v, SeqC):
            lo, hi = self.range_of(st, a[1], self.last_ty(f), len(v.items))
            if not (isinstance(lo, int) and isinstance(hi, int)):
                raise Unsupported('drain of symbolic range')
            self.obligation(st, 0 <= lo <= hi <= len(v.items), 'drain range out of bounds')
            m.storer(st, a[0], SeqC(v.items[:lo] + v.items[hi:]))
            return [(st, IterV('val', SeqC(v.items[lo:hi]), 0, hi - lo))]
        if w == 'split_off' and isinstance(v, SeqC):
            k = m.conc(st, a[1])
            if not isinstance(k, int):
                from machine import ForkOn
                raise ForkOn(k, list(range(len(v.items) + 1)))
            m.storer(st, a[0], SeqC(v.items[:k]))
            return [(st, SeqC(v.items[k:]))]
        if w == 'resize' and isinstance(v, SeqC):
            k = m.conc(st, a[1])
            if isinstance(k, int):
                m.storer(st, a[0], SeqC(v.items[:k] + (a[2],) * max(0, k - len(v.items))))
                return [(st, UNIT)]
        raise Unsupported('sequence method %s' % w)

    def fork_bool(self, st, b):
        if isinstance(b, bool):
            return [(st, b)]
        out = []
        if self.m.feasible(st.pc, b):
            out.append((st.fork().assume(b), True))
        if self.m.feasible(st.pc, bnot(b)):
            out.append((st.fork().assume(bnot(b)), False))
        return out

    def call_fn(self, st, ref, tid, args):
        """call a closure stored at ref (FnMut style); tid is the closure's own type"""
        t = self.m.ty(tid)
        if t['k'] == 'closure' and t['kind'] != 'FnOnce':
            return self.m.call(st, t['sym'], [ref] + list(args))
        return self.m.call_closure(st, self.m.loadr(st, ref), tid, args)

    def iter_ref(self, st, r):
        v = self.seq(st, r)
        return IterV('ref', r, 0, self.m.seq_len(v))

    def into_iter(self, st, v):
        if isinstance(v, IterV):
            return v
        if not isinstance(v, (SeqC, SeqS)):
            raise Unsupported('into_iter of %r' % type(v))
        return IterV('val', v, 0, self.m.seq_len(v))

    # ------------------------------------------------------------ graph searches (contracts of the library functions)
    def graph(self, st, succ, stid, itid):
        """node -> [items its successor closure yields], which must not branch"""
        memo = {}
        ref = RefV(self.m.alloc(st, succ))

        def of(k):
            if k not in memo:
                outs = self.call_fn(st, ref, stid, [RefV(self.m.alloc(st, StructV((k,))))])
                if len(outs) != 1:
                    raise Unsupported('branching successors')
                outs = self.drain_all(outs[0][0], outs[0][1], itid)
                if len(outs) != 1:
                    raise Unsupported('branching successors')
                memo[k] = outs[0][1]
            return memo[k]
        return of

    def node(self, st, v):
        k = self.m.conc(st, v.f[0])
        if not isinstance(k, int):
            raise Unsupported('symbolic graph node')
        return k

    def dijkstra(self, st, f, a):
        """a cheapest path from the start to a node that satisfies the predicate, if there is one"""
        m = self.m
        of = self.graph(st, a[1], f['args'][2], f['args'][3])
        ok = RefV(m.alloc(st, a[2]))
        memo = {}

        def goal(k):
            if k not in memo:
                outs = self.call_fn(st, ok, f['args'][4], [RefV(m.alloc(st, StructV((k,))))])
                if len(outs) != 1 or not isinstance(outs[0][1], bool):
                    raise Unsupported('symbolic search goal')
                memo[k] = outs[0][1]
            return memo[k]
        paths = []

        def go(path, cost):
            if goal(path[-1]):
                paths.append((path, cost))
                return
            for x in of(path[-1]):
                k = self.node(st, x.f[0])
                if k not in path:
                    go(path + [k], i_add(cost, x.f[1]))
        go([self.node(st, m.loadr(st, a[0]))], 0)
        if not paths:
            return [(st, none())]
        res = []
        for i, (p, c) in enumerate(paths):
            best = band(*[bnot(lt_int(d, c)) for j, (_, d) in enumerate(paths) if j != i])
            if best is not False and m.feasible(st.pc, best):
                res.append((st.fork().assume(best), some(StructV((SeqC([StructV((k,)) for k in p]), c)))))
        return res

    def dfs_reach(self, st, f, a):
        """every node that can be reached, in depth-first order"""
        of = self.graph(st, a[1], f['args'][1], f['args'][2])
        start = self.node(st, a[0])
        todo, seen, order = [start], {start}, []
        while todo:
            k = todo.pop()
            order.append(k)
            new = []
            for x in of(k):
                j = self.node(st, x)
                if j not in seen:
                    seen.add(j)
                    new.append(j)
            todo += reversed(new)
        return [(st, IterV('val', SeqC([StructV((k,)) for k in order]), 0, len(order)))]

    def windows(self, st, f, a):
        v = self.seq(st, a[0])
        n = self.m.seq_len(v)
        w = self.m.conc(st, a[1])
        if not isinstance(w, int):
            raise Unsupported('symbolic window')
        if w == 0:
            self.obligation(st, False, 'window size is zero')
        h = i_sub(n, w - 1)
        return IterV('win', a[0], 0, ite(lt_int(h, 0), 0, h), w)

    def chunks(self, st, f, a):
        v = self.seq(st, a[0])
        if not isinstance(v, SeqC) or not isinstance(a[1], int) or a[1] == 0:
            raise Unsupported('chunks')
        n = len(v.items)
        k = n // a[1] if f['def'].endswith('exact') else -(-n // a[1])
        return IterV('chunk', a[0], 0, k, (a[1], n))

    def slice_of_one(self, st, r):
        # a one-element slice view of a value: snapshot (only used for shared borrows)
        return self.m.alloc(st, SeqC((self.m.loadr(st, r),)))

    def array_try_from(self, st, f, a, isref=None):
        n = self.cap_of(f)
        v = self.seq(st, a[0])
        ln = self.m.seq_len(v)
        if isinstance(ln, int):
            if ln == n:
                return EnumV(0, {0: (v if isinstance(v, SeqC) else SeqC([v.get(i) for i in range(n)]),)})
            return EnumV(1, {1: (UNIT,)})
        self.obligation(st, eq_int(ln, n), 'slice of unexpected length')
        return EnumV(0, {0: (SeqC([self.m.seq_get(v, i, st) for i in range(n)]),)})

    def seq_eq(self, st, f, a, *g):
        w = [x for x in g if x][0]
        def get(r):
            v = self.m.loadr(st, r)
            while isinstance(v, RefV):
                v = self.m.loadr(st, v)
            return v
        e = self.eqv(st, get(a[0]), get(a[1]))
        return e if w == 'eq' else bnot(e)

    def eqv(self, st, x, y):
        """structural equality (derived PartialEq)"""
        if isinstance(x, RefV) and isinstance(y, RefV):
            return self.eqv(st, self.m.loadr(st, x), self.m.loadr(st, y))
        if isinstance(x, StructV) and isinstance(y, StructV):
            return band(*[self.eqv(st, p, q) for p, q in zip(x.f, y.f)])
        if isinstance(x, EnumV) and isinstance(y, EnumV):
            e = eq_int(x.tag, y.tag)
            if e is False:
                return False
            cs = [e]
            for k in x.pay:
                if k in y.pay and x.pay[k]:
                    cs.append(bimp(eq_int(x.tag, k), band(*[self.eqv(st, p, q) for p, q in zip(x.pay[k], y.pay[k])])))
            return band(*cs)
        if isinstance(x, SeqC) and isinstance(y, SeqC):
            if len(x.items) != len(y.items):
                return False
            return band(*[self.eqv(st, p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)):
            return beq(x, y)
        if isinstance(x, (int, Bits)) or isinstance(y, (int, Bits)) or (isinstance(x, z3.ArithRef) and x.is_int()):
            return eq_int(x, y)
        if is_py(x) or is_py(y) or isinstance(x, z3.ArithRef):
            return r_cmp('eq', x, y)
        raise Unsupported('equality of %r' % type(x))

    def range_of(self, st, v, tid, n):
        """(lo, hi) of a range value used as an index"""
        t = self.m.ty(tid)
        nm = t['name'].split('::')[-1] if t['k'] == 'adt' else ''
        if nm == 'Range':
            return v.f[0], v.f[1]
        if nm == 'RangeInclusive':
            return v.f[0], i_add(v.f[1], 1)
        if nm == 'RangeFrom':
            return v.f[0], n
        if nm == 'RangeTo':
            return 0, v.f[0]
        if nm == 'RangeToInclusive':
            return 0, i_add(v.f[0], 1)
        if nm == 'RangeFull':
            return 0, n
        raise Unsupported('range type %s' % t['d'])

    def index(self, st, f, a):
        v = self.seq(st, a[0])
        n = self.m.seq_len(v)
        idx = a[1]
        tids = [x for x in f['args'] if isinstance(x, int)]
        it = None
        for x in reversed(tids):
            t = self.m.ty(x)
            if t['k'] == 'int' or (t['k'] == 'adt' and 'Range' in t['name']):
                it = x
                break
        if it is None:
            raise Unsupported('index type')
        if self.m.ty(it)['k'] == 'int':
            self.obligation(st, band(le_int(0, idx), lt_int(idx, n)), 'index out of bounds')
            return [(st, RefV(a[0].alloc, a[0].path + (('i', idx),)))]
        lo, hi = self.range_of(st, idx, it, n)
        self.obligation(st, band(le_int(0, lo), le_int(lo, hi), le_int(hi, n)), 'slice index out of bounds')
        return [(st, RefV(a[0].alloc, a[0].path + (('sub', lo, hi),)))]

    def slice_index(self, st, f, a, ity, w):
        # <I as SliceIndex>::index(self, slice)
        idx, r = a
        v = self.seq(st, r)
        n = self.m.seq_len(v)
        if ity == 'usize':
            ok = band(le_int(0, idx), lt_int(idx, n))
            res = RefV(r.alloc, r.path + (('i', idx),))
        else:
            lo, hi = self.range_of(st, idx, f['args'][0] if 'RangeFull' in ity else self.range_tid(ity), n)
            ok = band(le_int(0, lo), le_int(lo, hi), le_int(hi, n))
            res = RefV(r.alloc, r.path + (('sub', lo, hi),))
        if w in ('get', 'get_mut'):
            return [(st, opt(ok, res))]
        self.obligation(st, ok, 'index out of bounds')
        return [(st, res)]

    def range_tid(self, ity):
        for i, t in self.m.p.types.items():
            if t['k'] == 'adt' and t['d'] == ity:
                return i
        raise Unsupported('range type %s' % ity)

    def slice_method(self, st, f, a, w):
        m = self.m
        v = self.seq(st, a[0])
        n = m.seq_len(v)
        r = a[0]
        if w in ('first', 'first_mut'):
            return [(st, opt(lt_int(0, n), RefV(r.alloc, r.path + (('i', 0),))))]
        if w in ('last', 'last_mut'):
            return [(st, opt(lt_int(0, n), RefV(r.alloc, r.path + (('i', i_sub(n, 1)),))))]
        if w in ('get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
            it = [x for x in f['args'] if isinstance(x, int)][-1]
            if m.ty(it)['k'] == 'int':
                ok = band(le_int(0, a[1]), lt_int(a[1], n))
                res = RefV(r.alloc, r.path + (('i', a[1]),))
            else:
                lo, hi = self.range_of(st, a[1], it, n)
                ok = band(le_int(0, lo), le_int(lo, hi), le_int(hi, n))
                res = RefV(r.alloc, r.path + (('sub', lo, hi),))
            if w.startswith('get_unchecked'):
                self.obligation(st, ok, 'unchecked index out of bounds (undefined behaviour)')
                return [(st, res)]
            return [(st, opt(ok, res))]
        if w == 'contains':
            x = m.loadr(st, a[1])
            if isinstance(v, SeqC):
                return [(st, bor(*[self.eqv(st, y, x) for y in v.items]))]
            if isinstance(v, SeqS):
                import loops
                return [(st, z3.Not(loops.named_forall(m, 0, n, lambda i: bnot(self.eqv(st, v.get(i), x)))))]
        if w == 'swap':
            i, j = a[1], a[2]
            self.obligation(st, band(lt_int(i, n), lt_int(j, n)), 'index out of bounds')
            x, y = m.load(st, r.alloc, r.path + (('i', i),)), m.load(st, r.alloc, r.path + (('i', j),))
            m.store(st, r.alloc, r.path + (('i', i),), y)
            m.store(st, r.alloc, r.path + (('i', j),), x)
            return [(st, UNIT)]
        if w == 'reverse' and isinstance(v, SeqC):
            m.storer(st, r, SeqC(v.items[::-1]))
            return [(st, UNIT)]
        if w in ('split_at', 'split_at_mut'):
            self.obligation(st, le_int(a[1], n), 'split index out of bounds')
            return [(st, StructV((RefV(r.alloc, r.path + (('sub', 0, a[1]),)), RefV(r.alloc, r.path + (('sub', a[1], n),)))))]
        if w in ('split_first', 'split_first_mut'):
            return [(st, opt(lt_int(0, n), StructV((RefV(r.alloc, r.path + (('i', 0),)), RefV(r.alloc, r.path + (('sub', 1, n),))))))]
        if w in ('split_last', 'split_last_mut'):
            return [(st, opt(lt_int(0, n), StructV((RefV(r.alloc, r.path + (('i', i_sub(n, 1)),)), RefV(r.alloc, r.path + (('sub', 0, i_sub(n, 1)),))))))]
        if w == 'fill' and isinstance(v, SeqC):
            m.storer(st, r, SeqC([a[1]] * n))
            return [(st, UNIT)]
        if w == 'copy_from_slice':
            m.storer(st, r, self.seq(st, a[1]))
            return [(st, UNIT)]
        if w == 'to_vec':
            return [(st, v)]
        if w.startswith('sort') and isinstance(v, SeqC):
            return self.sort(st, f, r, v, a, w)
        raise Unsupported('slice method %s' % w)

    def sort(self, st, f, r, v, a, w):
        """stable insertion sort driven by the real comparator"""
        m = self.m
        tid = self.last_ty(f)
        ca = m.alloc(st, a[1]) if len(a) > 1 else None

        def less(s, x, y):
            # is x strictly less than y ? -> [(state, bool)]
            ax, ay = m.alloc(s, x), m.alloc(s, y)
            if w in ('sort_by', 'sort_unstable_by'):
                outs = self.call_fn(s, RefV(ca), tid, [RefV(ax), RefV(ay)])
                res = []
                for s2, o in outs:
                    res.extend(self.fork_bool(s2, eq_int(o.tag, 0)))
                return res
            if w in ('sort_by_key', 'sort_unstable_by_key'):
                res = []
                for s2, kx in self.call_fn(s, RefV(ca), tid, [RefV(ax)]):
                    for s3, ky in self.call_fn(s2, RefV(ca), tid, [RefV(ay)]):
                        res.extend(self.fork_bool(s3, lt_int(kx, ky)))
                return res
            return self.fork_bool(s, lt_int(x, y))
        outs = [(st, [])]
        for x in v.items:
            nxt = []
            for s, acc in outs:
                # insert x after the last element not greater than x
                work = [(s, len(acc))]
                while work:
                    s1, pos = work.pop()
                    if pos == 0:
                        nxt.append((s1, [x] + acc))
                        continue
                    for s2, b in less(s1, x, acc[pos - 1]):
                        if b:
                            work.append((s2, pos - 1))
                        else:
                            nxt.append((s2, acc[:pos] + [x] + acc[pos:]))
            outs = nxt
        res = []
        for s, acc in outs:
            m.storer(s, r, SeqC(acc))
            res.append((s, UNIT))
        return res

    def array_map(self, st, f, a):
        tid = [x for x in f['args'] if isinstance(x, int)]
        # generic args of map: [T, N, F, U]
        ftid = None
        for x in tid:
            t = self.m.ty(x)
            if t['k'] in ('closure', 'fndef', 'fnptr'):
                ftid = x
        if ftid is None:
            ftid = tid[1]
        ca = self.m.alloc(st, a[1])
        outs = [(st, [])]
        for x in a[0].items:
            nxt = []
            for s, acc in outs:
                for s2, y in self.call_fn(s, RefV(ca), ftid, [x]):
                    nxt.append((s2, acc + [y]))
            outs = nxt
        return [(s, SeqC(acc)) for s, acc in outs]

    def array_from_fn(self, st, f, a):
        n = self.cap_of(f)
        ftid = self.last_ty(f)
        ca = self.m.alloc(st, a[0])
        outs = [(st, [])]
        for i in range(n):
            outs = [(s2, acc + [y]) for s, acc in outs for s2, y in self.call_fn(s, RefV(ca), ftid, [i])]
        return [(s, SeqC(acc)) for s, acc in outs]

    # ------------------------------------------------------------------ iterators
    def it_item(self, st, it, i):
        if it.kind == 'ref':
            return RefV(it.src.alloc, it.src.path + (('i', i),))
        if it.kind == 'val':
            return self.m.seq_get(it.src, i, st)
        if it.kind == 'win':
            return RefV(it.src.alloc, it.src.path + (('sub', i, i_add(i, it.extra)),))
        if it.kind == 'step':
            return self.it_item(st, it.src, z3int(it.src.lo) + z3int(i) * it.extra)
        if it.kind == 'chunk':
            w, n = it.extra
            return RefV(it.src.alloc, it.src.path + (('sub', i * w, min((i + 1) * w, n)),))
        if it.kind in ('map', 'maps'):
            mode, keys = it.extra
            if it.kind == 'maps':
                k = keys(z3int(i))
            elif not isinstance(i, int):
                raise Unsupported('symbolic position in map iteration')
            else:
                k = keys[i]
            r = RefV(it.src.alloc, it.src.path + (('k', k),)) if it.src is not None else None
            if mode == 'pair':
                return StructV((StructV((k,)), r))
            if mode == 'val':
                return r
            return StructV((k,))
        raise Unsupported('iterator kind')

    def with_lo(self, it, lo):
        return IterV(it.kind, it.src, lo, it.hi, it.extra)

    def with_hi(self, it, hi):
        return IterV(it.kind, it.src, it.lo, hi, it.extra)

    def step_by(self, st, f, a):
        from machine import Decline
        it, k = a
        if not isinstance(it, IterV) or not isinstance(k, int) or k < 1 or it.kind not in ('ref', 'val', 'win'):
            raise Decline()
        lo, hi = self.m.conc(st, it.lo), self.m.conc(st, it.hi)
        if isinstance(lo, int) and isinstance(hi, int):
            raise Decline()
        return [(st, IterV('step', it, 0, (z3int(i_sub(hi, lo)) + (k - 1)) / z3.IntVal(k), k))]

    def step_it(self, st, f, a, *meth):
        from machine import Decline
        it = self.m.loadr(st, a[0]) if isinstance(a[0], RefV) else a[0]
        if not isinstance(it, IterV):
            raise Decline()
        return getattr(self, 'it_' + [x for x in meth if x][0])(st, f, a)

    def it_next(self, st, f, a, back=False):
        m = self.m
        it = m.loadr(st, a[0])
        if not isinstance(it, IterV):
            raise Unsupported('iterator state')
        c = lt_int(it.lo, it.hi)
        out = []
        for s, b in self.fork_bool(st, c):
            if not b:
                out.append((s, none()))
                continue
            if back:
                j = i_sub(it.hi, 1)
                m.storer(s, a[0], self.with_hi(it, j))
            else:
                j = it.lo
                m.storer(s, a[0], self.with_lo(it, i_add(it.lo, 1)))
            out.append((s, some(self.it_item(s, it, j))))
        return out

    def it_next_back(self, st, f, a):
        return self.it_next(st, f, a, True)

    def it_nth(self, st, f, a):
        m = self.m
        it = m.loadr(st, a[0])
        j = i_add(it.lo, a[1])
        out = []
        for s, b in self.fork_bool(st, lt_int(j, it.hi)):
            if b:
                m.storer(s, a[0], self.with_lo(it, i_add(j, 1)))
                out.append((s, some(self.it_item(s, it, j))))
            else:
                m.storer(s, a[0], self.with_lo(it, it.hi))
                out.append((s, none()))
        return out

    def it_nth_back(self, st, f, a):
        m = self.m
        it = m.loadr(st, a[0])
        j = i_sub(i_sub(it.hi, 1), a[1])
        out = []
        for s, b in self.fork_bool(st, le_int(it.lo, j)):
            if b:
                m.storer(s, a[0], self.with_hi(it, j))
                out.append((s, some(self.it_item(s, it, j))))
            else:
                m.storer(s, a[0], self.with_hi(it, it.lo))
                out.append((s, none()))
        return out

    def it_size_hint(self, st, f, a):
        it = self.m.loadr(st, a[0])
        n = i_sub(it.hi, it.lo)
        return [(st, StructV((n, some(n))))]

    def it_len(self, st, f, a):
        it = self.m.loadr(st, a[0])
        return [(st, i_sub(it.hi, it.lo))]

    def it_count(self, st, f, a):
        return [(st, i_sub(a[0].hi, a[0].lo))]

    def it_last(self, st, f, a):
        it = a[0]
        return [(s, some(self.it_item(s, it, i_sub(it.hi, 1))) if b else none()) for s, b in self.fork_bool(st, lt_int(it.lo, it.hi))]

    def it___iterator_get_unchecked(self, st, f, a):
        it = self.m.loadr(st, a[0])
        return [(st, self.it_item(st, it, i_add(it.lo, a[1])))]

    def conc_range(self, st, it):
        lo, hi = self.m.conc(st, it.lo), self.m.conc(st, it.hi)
        if isinstance(lo, int) and isinstance(hi, int):
            return lo, hi
        return None

    def it_fold(self, st, f, a):
        it = a[0]
        r = self.conc_range(st, it)
        if r is None:
            import loops
            return loops.fold_symbolic(self.m, st, it, a[1], a[2], self.last_ty(f))
        tid = self.last_ty(f)
        ca = self.m.alloc(st, a[2])
        outs = [(st, a[1])]
        for i in range(*r):
            base = len(outs[0][0].pc) if len(outs) == 1 else None
            nxt = []
            for s, acc in outs:
                for s2, y in self.call_fn(s, RefV(ca), tid, [acc, self.it_item(s, it, i)]):
                    nxt.append((s2, y))
            outs = nxt
        return outs

    def it_rfold(self, st, f, a):
        it = a[0]
        r = self.conc_range(st, it)
        if r is None:
            raise Unsupported('rfold over symbolic length')
        tid = self.last_ty(f)
        ca = self.m.alloc(st, a[2])
        outs = [(st, a[1])]
        for i in reversed(range(*r)):
            outs = [(s2, y) for s, acc in outs for s2, y in self.call_fn(s, RefV(ca), tid, [acc, self.it_item(s, it, i)])]
        return outs

    def it_for_each(self, st, f, a):
        it = a[0]
        r = self.conc_range(st, it)
        if r is None:
            import loops
            return loops.for_each_symbolic(self.m, st, it, a[1], self.last_ty(f))
        tid = self.last_ty(f)
        ca = self.m.alloc(st, a[1])
        outs = [st]
        for i in range(*r):
            outs = [s2 for s in outs for s2, _ in self.call_fn(s, RefV(ca), tid, [self.it_item(s, it, i)])]
        return [(s, UNIT) for s in outs]

    def search(self, st, f, a, rev, test, found, missing, byref=False):
        """generic search over a primitive iterator; a[0] is &mut iterator"""
        m = self.m
        it = m.loadr(st, a[0])
        r = self.conc_range(st, it)
        tid = self.last_ty(f)
        if r is None:
            import loops
            return loops.search_symbolic(m, st, a[0], it, a[1], tid, rev, test, found, missing, byref)
        ca = m.alloc(st, a[1])
        lo, hi = r
        res = []
        live = [st]
        order = reversed(range(lo, hi)) if rev else range(lo, hi)
        for i in order:
            nxt = []
            for s in live:
                item = self.it_item(s, it, i)
                arg = item
                if byref:
                    arg = RefV(m.alloc(s, item))
                for s2, b in self.call_fn(s, RefV(ca), tid, [arg]):
                    for s3, bb in self.fork_bool(s2, b):
                        if bb == test:
                            m.storer(s3, a[0], self.with_hi(it, i) if rev else self.with_lo(it, i + 1))
                            res.append((s3, found(s3, it, i)))
                        else:
                            nxt.append(s3)
            live = nxt
        for s in live:
            m.storer(s, a[0], self.with_lo(it, hi))
            res.append((s, missing))
        return res

    def it_all(self, st, f, a):
        return self.search(st, f, a, False, False, lambda s, it, i: False, True)

    def it_any(self, st, f, a):
        return self.search(st, f, a, False, True, lambda s, it, i: True, False)

    def it_position(self, st, f, a):
        return self.search(st, f, a, False, True, lambda s, it, i: some(i_sub(i, it.lo)), none())

    def it_rposition(self, st, f, a):
        return self.search(st, f, a, True, True, lambda s, it, i: some(i_sub(i, it.lo)), none())

    def it_find(self, st, f, a):
        return self.search(st, f, a, False, True, lambda s, it, i: some(self.it_item(s, it, i)), none(), byref=True)

    def it_rfind(self, st, f, a):
        return self.search(st, f, a, True, True, lambda s, it, i: some(self.it_item(s, it, i)), none(), byref=True)

    def it_find_map(self, st, f, a):
        m = self.m
        it = m.loadr(st, a[0])
        r = self.conc_range(st, it)
        if r is None:
            raise Unsupported('find_map over symbolic length')
        tid = self.last_ty(f)
        ca = m.alloc(st, a[1])
        res, live = [], [st]
        for i in range(*r):
            nxt = []
            for s in live:
                for s2, o in self.call_fn(s, RefV(ca), tid, [self.it_item(s, it, i)]):
                    for s3, bb in self.fork_bool(s2, eq_int(o.tag, 1)):
                        if bb:
                            m.storer(s3, a[0], self.with_lo(it, i + 1))
                            res.append((s3, some(o.pay[1][0])))
                        else:
                            nxt.append(s3)
            live = nxt
        for s in live:
            m.storer(s, a[0], self.with_lo(it, r[1]))
            res.append((s, none()))
        return res

    def range_next(self, st, f, a, w):
        m = self.m
        v = m.loadr(st, a[0])
        out = []
        for s, b in self.fork_bool(st, lt_int(v.f[0], v.f[1])):
            if not b:
                out.append((s, none()))
            elif w == 'next':
                m.storer(s, a[0], StructV((i_add(v.f[0], 1), v.f[1])))
                out.append((s, some(v.f[0])))
            else:
                e = i_sub(v.f[1], 1)
                m.storer(s, a[0], StructV((v.f[0], e)))
                out.append((s, some(e)))
        return out

    def pull(self, st, ref, tid):
        """call Iterator::next on the iterator stored at ref -> [(state, item or None)]"""
        m = self.m
        v = m.loadr(st, ref)
        if isinstance(v, IterV):
            outs = self.it_next(st, None, [ref])
        else:
            sym = m.p.nexts.get(tid)
            if sym is None:
                t = m.ty(tid)
                if t['k'] == 'ref':
                    return self.pull(st, v, t['elem'])
                raise Unsupported('no Iterator::next for %s' % t['d'][:80])
            outs = m.call(st, sym, [ref])
        res = []
        for s, o in outs:
            for s2, b in self.fork_bool(s, eq_int(o.tag, 1)):
                res.append((s2, (o.pay[1][0],) if b else None))
        return res

    def drain_all(self, st, v, tid, limit=200):
        """exhaust an iterator value -> [(state, [items])]"""
        m = self.m
        if isinstance(v, (SeqC,)):
            return [(st, list(v.items))]
        if isinstance(v, SeqS):
            raise Unsupported('collect over symbolic length')
        if isinstance(v, RefV):
            t = m.ty(tid)
            if t['k'] == 'ref' and m.ty(t['elem'])['k'] in ('slice', 'array') or (t['k'] == 'ref' and self.is_seq_ty(m.ty(t['elem']))):
                v = self.iter_ref(st, v)
            else:
                ref = v
                return self._drain(st, ref, t['elem'], limit)
        if isinstance(v, EnumV):   # Option as IntoIterator
            res = []
            for s, b in self.fork_bool(st, eq_int(v.tag, 1)):
                res.append((s, [v.pay[1][0]] if b else []))
            return res
        ref = RefV(m.alloc(st, v))
        return self._drain(st, ref, tid, limit)

    def _drain(self, st, ref, tid, limit):
        done = []
        live = [(st, [])]
        for _ in range(limit):
            nxt = []
            for s, acc in live:
                for s2, x in self.pull(s, ref, tid):
                    if x is None:
                        done.append((s2, acc))
                    else:
                        nxt.append((s2, acc + [x[0]]))
            live = nxt
            if not live:
                return done
        raise Unsupported('iterator bound')

    def vec_extend(self, st, f, a):
        v = self.seq(st, a[0])
        tid = self.last_ty(f)
        cap = self.cap_of(f) if f['def'].startswith('<arrayvec') or f['def'].startswith('arrayvec') else None
        import loops
        r = loops.extend_symbolic(self.m, st, a[0], v, a[1], tid)
        if r is not None:
            return r
        out = []
        for s, items in self.drain_all(st, a[1], tid):
            items = [self.m.loadr(s, x) if self.copied_ext(f, x) else x for x in items]
            if isinstance(v, SeqC):
                if cap is not None and len(v.items) + len(items) > cap:
                    self.m.panic(s, 'ArrayVec capacity exceeded')
                    continue
                self.m.storer(s, a[0], SeqC(v.items + tuple(items)))
            else:
                w = v.writes
                n = v.n
                for x in items:
                    w = w + ((n, x),)
                    n = i_add(n, 1)
                self.m.storer(s, a[0], SeqS(n, v.base, w))
            out.append((s, UNIT))
        return out

    def copied_ext(self, f, x):
        return "Extend<&'a T>" in f['def'] and isinstance(x, RefV)

    def from_iter(self, st, f, a):
        tid = self.last_ty(f)
        import loops
        r = loops.collect_symbolic(self.m, st, a[0], tid)
        if r is not None:
            return r
        return [(s, SeqC(items)) for s, items in self.drain_all(st, a[0], tid)]

    def seq_from(self, st, f, a):
        v = a[0]
        if isinstance(v, RefV):
            v = self.m.loadr(st, v)
        if isinstance(v, (SeqC, SeqS)):
            return [(st, v)]
        r = self.m.peel(v)
        if isinstance(r, RefV):
            return [(st, self.m.loadr(st, r))]
        raise Unsupported('From conversion')

    # ------------------------------------------------------------------ slot maps
    def key(self, k):
        if isinstance(k, StructV):
            return k.f[0]
        return k

    def key_is_null(self, st, f, a):
        v = self.m.loadr(st, a[0])
        return eq_int(self.key(v), 0)

    def map_iter(self, st, r, mode):
        v = self.m.loadr(st, r)
        if isinstance(v, MapS):
            return IterV('maps', r, 0, v.n, (mode, v.K))
        if not isinstance(v, MapC):
            raise Unsupported('map expected')
        ks = tuple(v.keys())
        return IterV('map', r, 0, len(ks), (mode, ks))

    def has_key(self, v, k):
        if isinstance(v, MapS):
            return v.has(k)
        return bor(*[eq_int(k, kk) for kk in v.keys()])

    def map_index(self, st, f, a):
        v = self.m.loadr(st, a[0])
        k = self.m.conc(st, self.key(a[1]))
        if not isinstance(v, (MapC, MapS)):
            raise Unsupported('map expected')
        self.obligation(st, self.has_key(v, k), 'invalid SlotMap key used')
        return [(st, RefV(a[0].alloc, a[0].path + (('k', k),)))]

    def map_method(self, st, f, a, w):
        m = self.m
        v = m.loadr(st, a[0])
        if not isinstance(v, MapC) and not (isinstance(v, MapS) and w in (
                'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut', 'contains_key', 'iter', 'iter_mut', 'values', 'values_mut', 'keys', 'get_disjoint_mut')):
            raise Unsupported('map expected')
        r = a[0]
        if w in ('get', 'get_mut'):
            k = m.conc(st, self.key(a[1]))
            return [(st, opt(self.has_key(v, k), RefV(r.alloc, r.path + (('k', k),))))]
        if w in ('get_unchecked', 'get_unchecked_mut'):
            return self.map_index(st, f, a)
        if w == 'contains_key':
            return [(st, self.has_key(v, m.conc(st, self.key(a[1]))))]
        if w == 'insert':
            k = v.nextkey
            m.storer(st, r, MapC(v.items + ((k, a[1]),), k + 1))
            return [(st, StructV((k,)))]
        if w == 'insert_with_key':
            k = v.nextkey
            out = []
            for s, x in m.call_closure(st, a[1], self.last_ty(f), [StructV((k,))]):
                cur = m.loadr(s, r)
                m.storer(s, r, MapC(cur.items + ((k, x),), k + 1))
                out.append((s, StructV((k,))))
            return out
        if w == 'remove':
            k = m.conc(st, self.key(a[1]))
            h = self.has_key(v, k)
            out = []
            for s, b in self.fork_bool(st, h):
                if not b:
                    out.append((s, none()))
                    continue
                def rem(s2):
                    kk = m.conc(s2, k)
                    if not isinstance(kk, int):
                        from machine import ForkOn
                        raise ForkOn(kk, v.keys())
                    x = dict(v.items)[kk]
                    m.storer(s2, r, MapC([(q, y) for q, y in v.items if q != kk], v.nextkey))
                    return [(s2, some(x))]
                out.extend(m.with_forks(s, rem))
            return out
        if w in ('iter', 'iter_mut'):
            return [(st, self.map_iter(st, r, 'pair'))]
        if w in ('values', 'values_mut'):
            return [(st, self.map_iter(st, r, 'val'))]
        if w == 'keys':
            return [(st, self.map_iter(st, r, 'key'))]
        if w == 'len':
            return [(st, len(v.items))]
        if w == 'is_empty':
            return [(st, not v.items)]
        if w == 'clear':
            m.storer(st, r, MapC((), v.nextkey))
            return [(st, UNIT)]
        if w == 'get_disjoint_mut':
            ks = [m.conc(st, self.key(x)) for x in a[1].items]
            c = band(*[self.has_key(v, k) for k in ks])
            for i in range(len(ks)):
                for j in range(i):
                    c = band(c, bnot(eq_int(ks[i], ks[j])))
            return [(st, opt(c, SeqC([RefV(r.alloc, r.path + (('k', k),)) for k in ks])))]
        raise Unsupported('map method %s' % w)

    # secondary maps: key -> Option value, concrete keys
    def sec_find(self, st, v, k):
        k = self.m.conc(st, k)
        if not isinstance(k, int):
            from machine import ForkOn
            uni = getattr(self.m, 'key_universe', None) or v.keys()
            raise ForkOn(k, sorted(set(uni) | set(v.keys())))
        for kk, x in v.items:
            if kk == k:
                return k, x
        return k, none()

    def sec_put(self, v, k, x):
        if k in v.keys():
            return MapC([(q, x if q == k else y) for q, y in v.items], v.nextkey)
        return MapC(v.items + ((k, x),), v.nextkey)

    def sec_ref(self, r, k):
        return RefV(r.alloc, r.path + (('k', k), ('v', 1), ('f', 0)))

    def sec_method(self, st, f, a, w):
        m = self.m
        v = m.loadr(st, a[0])
        if not isinstance(v, MapC):
            raise Unsupported('secondary map expected')
        if w == 'clear':
            m.storer(st, a[0], MapC((), -1))
            return [(st, UNIT)]
        if w in ('len', 'is_empty'):
            n = 0
            for _, o in v.items:
                n = i_add(n, ite(eq_int(o.tag, 1), 1, 0))
            return [(st, n if w == 'len' else eq_int(n, 0))]
        k, o = self.sec_find(st, v, self.key(a[1]))
        if w in ('get', 'get_mut'):
            return [(st, opt(eq_int(o.tag, 1), self.sec_ref(a[0], k)))]
        if w == 'contains_key':
            return [(st, eq_int(o.tag, 1))]
        if w == 'insert':
            if k == 0:
                return [(st, none())]
            m.storer(st, a[0], self.sec_put(v, k, some(a[2])))
            return [(st, o)]
        if w == 'remove':
            m.storer(st, a[0], self.sec_put(v, k, none()))
            return [(st, o)]
        if w == 'entry':
            return [(st, some(StructV((a[0], k))) if k != 0 else none())]
        raise Unsupported('secondary map method %s' % w)

    def sec_index(self, st, f, a):
        v = self.m.loadr(st, a[0])
        k, o = self.sec_find(st, v, self.key(a[1]))
        self.obligation(st, eq_int(o.tag, 1), 'invalid key used')
        return [(st, self.sec_ref(a[0], k))]

    def entry_or_insert(self, st, f, a, w):
        m = self.m
        r, k = a[0].f
        v = m.loadr(st, r)
        k, o = self.sec_find(st, v, k)
        out = []
        for s, b in self.fork_bool(st, eq_int(o.tag, 1)):
            if b:
                out.append((s, self.sec_ref(r, k)))
            else:
                vals = [(s, a[1])] if w == 'or_insert' else m.call_closure(s, a[1], self.last_ty(f), [])
                for s2, x in vals:
                    m.storer(s2, r, self.sec_put(m.loadr(s2, r), k, some(x)))
                    out.append((s2, self.sec_ref(r, k)))
        return out
