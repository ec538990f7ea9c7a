//! Analysis roots: monomorphic entry points into hibit_tree's public API, with element types,
//! closures and operator inputs opaque (their bodies are extern functions), so that what the
//! analyser derives holds for every element type, closure and source tree.
//! Nothing in this crate is ever executed.
#![allow(dead_code, non_snake_case, improper_ctypes)]
use hibit_tree::const_utils::*;
use hibit_tree::utils::*;
use hibit_tree::*;
use std::marker::PhantomData;

extern "Rust" {
    fn v_drop(p: *mut u8);
    fn v_default() -> u64;
    fn o_new(src: *const u8, cur: *mut u64);
    fn o_select(cur: *mut u64, src: *const u8, level: usize, idx: usize, checked: bool, out: *mut u64, words: usize);
    fn o_data(cur: *const u64, src: *const u8, idx: usize, out: *mut u64) -> bool;
    fn o_data_unchecked(cur: *const u64, src: *const u8, idx: usize) -> u64;
    fn o_get(src: *const u8, index: usize, li: *const usize, lilen: usize, out: *mut u64) -> bool;
    fn o_get_unchecked(src: *const u8, index: usize, li: *const usize, lilen: usize) -> u64;
    fn u_fn(f: *const u8, a: u64) -> u64;
    fn u_init(f: *const u8) -> u64;
    fn u_fold(f: *const u8, acc: u64, a: u64) -> u64;
    fn u_bits(i: usize) -> bool;
}

/// Opaque owned element.
pub struct V(pub u64);
impl Drop for V {
    fn drop(&mut self) {
        unsafe { v_drop(self as *mut V as *mut u8) }
    }
}
impl Default for V {
    fn default() -> V {
        V(unsafe { v_default() })
    }
}
/// Opaque copyable item.
#[derive(Clone, Copy)]
pub struct It(pub u64);
pub trait Item64 {
    fn of(x: u64) -> Self;
}
impl Item64 for V {
    fn of(x: u64) -> V {
        V(x)
    }
}
impl Item64 for It {
    fn of(x: u64) -> It {
        It(x)
    }
}

/// Opaque source tree.
pub struct Src<M, const D: usize, T = It, const EXACT: bool = false>(u64, PhantomData<(M, T)>);
pub struct SrcCursor<'s, M, const D: usize, T, const EXACT: bool>(u64, PhantomData<&'s Src<M, D, T, EXACT>>);

impl<'t, M: BitBlock, const D: usize, T: Item64, const EXACT: bool> HibitTreeTypes<'t> for Src<M, D, T, EXACT>
where
    ConstUsize<D>: ConstInteger,
{
    type Data = T;
    type DataUnchecked = T;
    type Cursor = SrcCursor<'t, M, D, T, EXACT>;
}
impl<M: BitBlock, const D: usize, T: Item64, const EXACT: bool> HibitTree for Src<M, D, T, EXACT>
where
    ConstUsize<D>: ConstInteger,
{
    const EXACT_HIERARCHY: bool = EXACT;
    type LevelCount = ConstUsize<D>;
    type LevelMask = M;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<T> {
        let mut out = 0u64;
        if o_get(self as *const Self as *const u8, index, li.as_ptr(), li.len(), &mut out) {
            Some(T::of(out))
        } else {
            None
        }
    }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> T {
        T::of(o_get_unchecked(self as *const Self as *const u8, index, li.as_ptr(), li.len()))
    }
}
impl<'a, 's, M, const D: usize, T, const EXACT: bool> HibitTreeCursorTypes<'a> for SrcCursor<'s, M, D, T, EXACT> {
    type Data = T;
}
impl<'s, M: BitBlock, const D: usize, T: Item64, const EXACT: bool> HibitTreeCursor<'s> for SrcCursor<'s, M, D, T, EXACT>
where
    ConstUsize<D>: ConstInteger,
{
    type Src = Src<M, D, T, EXACT>;
    fn new(src: &'s Self::Src) -> Self {
        let mut x = 0u64;
        unsafe { o_new(src as *const Self::Src as *const u8, &mut x) }
        SrcCursor(x, PhantomData)
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'s Self::Src, _n: N, idx: usize) -> M {
        let mut m = M::zero();
        o_select(&mut self.0, src as *const Self::Src as *const u8, N::VALUE, idx, true, &mut m as *mut M as *mut u64, M::SIZE / 64);
        m
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'s Self::Src, _n: N, idx: usize) -> M {
        let mut m = M::zero();
        o_select(&mut self.0, src as *const Self::Src as *const u8, N::VALUE, idx, false, &mut m as *mut M as *mut u64, M::SIZE / 64);
        m
    }
    unsafe fn data<'a>(&'a self, src: &'s Self::Src, idx: usize) -> Option<T> {
        let mut out = 0u64;
        if o_data(&self.0, src as *const Self::Src as *const u8, idx, &mut out) {
            Some(T::of(out))
        } else {
            None
        }
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'s Self::Src, idx: usize) -> T {
        T::of(o_data_unchecked(&self.0, src as *const Self::Src as *const u8, idx))
    }
}
impl<M, const D: usize, T, const EXACT: bool> Borrowable for Src<M, D, T, EXACT> {
    type Borrowed = Self;
}
impl<M: BitBlock, const D: usize, T: Item64, const EXACT: bool> LazyHibitTree for Src<M, D, T, EXACT> where ConstUsize<D>: ConstInteger {}

/// Opaque user functions.
pub struct UF(u64);
impl UnaryFunction<It> for UF {
    type Output = It;
    fn exec(&self, a: It) -> It {
        It(unsafe { u_fn(self as *const UF as *const u8, a.0) })
    }
}
impl NullaryFunction for UF {
    type Output = It;
    fn exec(&self) -> It {
        It(unsafe { u_init(self as *const UF as *const u8) })
    }
}
impl BinaryFunction<It, It> for UF {
    type Output = It;
    fn exec(&self, a: It, b: It) -> It {
        It(unsafe { u_fold(self as *const UF as *const u8, a.0, b.0) })
    }
}

type Cur<'a, T> = <T as HibitTreeTypes<'a>>::Cursor;
type CurData<'a, 'b, T> = <Cur<'a, T> as HibitTreeCursorTypes<'b>>::Data;
type Un<'a, T> = <T as HibitTreeTypes<'a>>::DataUnchecked;
type Dt<'a, T> = <T as HibitTreeTypes<'a>>::Data;

/// The surface every tree, container or operator has.
macro_rules! common {
    ($t:ty, $d:tt) => {
        pub type Tree = $t;
        pub type Mask = <Tree as HibitTree>::LevelMask;
        pub fn get(t: &Tree, k: usize) -> Option<Dt<'_, Tree>> {
            HibitTree::get(t, k)
        }
        pub fn get_idx(t: &Tree, k: Index<Mask, <Tree as HibitTree>::LevelCount>) -> Option<Dt<'_, Tree>> {
            HibitTree::get(t, k)
        }
        pub unsafe fn get_unchecked(t: &Tree, k: usize) -> Un<'_, Tree> {
            HibitTree::get_unchecked(t, k)
        }
        pub fn index_from(k: usize) -> Index<Mask, <Tree as HibitTree>::LevelCount> {
            Index::from(k)
        }
        pub fn index_range() -> usize {
            <Tree as HibitTree>::index_range().end
        }
        pub fn exact() -> bool {
            <Tree as HibitTree>::EXACT_HIERARCHY
        }
        pub fn iter_new(t: &Tree) -> Iter<'_, Tree> {
            HibitTree::iter(t)
        }
        pub fn iter_next<'a, 'b>(i: &'b mut Iter<'a, Tree>) -> Option<(usize, CurData<'a, 'b, Tree>)> {
            LendingIterator::next(i)
        }
        pub fn index_into(k: Index<Mask, <Tree as HibitTree>::LevelCount>) -> usize {
            k.into()
        }
        pub unsafe fn index_unchecked(k: usize) -> Index<Mask, <Tree as HibitTree>::LevelCount> {
            Index::new_unchecked(k)
        }
        pub fn cur_new(t: &Tree) -> Cur<'_, Tree> {
            HibitTreeCursor::new(t)
        }
        pub unsafe fn cur_data<'a, 'b>(c: &'b Cur<'a, Tree>, t: &'a Tree, i: usize) -> Option<CurData<'a, 'b, Tree>> {
            HibitTreeCursor::data(c, t, i)
        }
        pub unsafe fn cur_data_unchecked<'a, 'b>(c: &'b Cur<'a, Tree>, t: &'a Tree, i: usize) -> CurData<'a, 'b, Tree> {
            HibitTreeCursor::data_unchecked(c, t, i)
        }
        common!(@sel $d);
    };
    (@sel 1) => { common!(@one sel_0 sel_unchecked_0 0); };
    (@sel 2) => { common!(@sel 1); common!(@one sel_1 sel_unchecked_1 1); };
    (@sel 3) => { common!(@sel 2); common!(@one sel_2 sel_unchecked_2 2); };
    (@sel 4) => { common!(@sel 3); common!(@one sel_3 sel_unchecked_3 3); };
    (@sel 5) => { common!(@sel 4); common!(@one sel_4 sel_unchecked_4 4); };
    (@sel 6) => { common!(@sel 5); common!(@one sel_5 sel_unchecked_5 5); };
    (@sel 7) => { common!(@sel 6); common!(@one sel_6 sel_unchecked_6 6); };
    (@sel 8) => { common!(@sel 7); common!(@one sel_7 sel_unchecked_7 7); };
    (@sel 9) => { common!(@sel 8); common!(@one sel_8 sel_unchecked_8 8); };
    (@one $a:ident $b:ident $n:literal) => {
        pub unsafe fn $a<'a>(c: &mut Cur<'a, Tree>, t: &'a Tree, i: usize) -> Mask {
            c.select_level_node(t, ConstUsize::<$n>, i)
        }
        pub unsafe fn $b<'a>(c: &mut Cur<'a, Tree>, t: &'a Tree, i: usize) -> Mask {
            c.select_level_node_unchecked(t, ConstUsize::<$n>, i)
        }
    };
}
macro_rules! container {
    () => {
        pub fn new() -> Tree {
            Tree::default()
        }
        pub fn insert(t: &mut Tree, k: usize, v: V) {
            t.insert(k, v)
        }
        pub fn get_or_insert(t: &mut Tree, k: usize) -> &mut V {
            t.get_or_insert(k)
        }
        pub fn remove(t: &mut Tree, k: usize) -> Option<V> {
            t.remove(k)
        }
        pub fn key_values(t: &Tree) -> (&[usize], &[V]) {
            t.key_values()
        }
        pub fn key_values_mut(t: &mut Tree) -> (&[usize], &mut [V]) {
            t.key_values_mut()
        }
        pub fn drop_tree(t: Tree) {
            drop(t)
        }
    };
}
macro_rules! dense {
    ($m:ident, $d:tt) => {
        pub mod $m {
            use super::*;
            common!(DenseTree<V, $d>, $d);
            container!();
            pub fn mat_exact(s: Src<u64, $d, V, true>) -> Tree {
                s.materialize()
            }
            pub fn mat(s: Src<u64, $d, V, false>) -> Tree {
                s.materialize()
            }
        }
    };
}
dense!(dense1, 1);
dense!(dense2, 2);
dense!(dense3, 3);
dense!(dense4, 4);

macro_rules! sparse {
    ($m:ident, $md:ident, $l:ty, $d:tt) => {
        pub mod $m {
            use super::*;
            common!(SparseTree<$l, V, ReqDefault<false>>, $d);
            container!();
            pub fn get_mut(t: &mut Tree, k: usize) -> Option<&mut V> {
                t.get_mut(k)
            }
            pub unsafe fn get_mut_unchecked(t: &mut Tree, k: usize) -> &mut V {
                t.get_mut_unchecked(k)
            }
        }
        pub mod $md {
            use super::*;
            common!(SparseTree<$l, V, ReqDefault<true>>, $d);
            container!();
            pub fn get_mut(t: &mut Tree, k: usize) -> Option<&mut V> {
                t.get_mut(k)
            }
            pub fn get_or_default(t: &Tree, k: usize) -> &V {
                t.get_or_default(k)
            }
        }
    };
}
sparse!(sparse64_1, sparse64_1d, config::width_64::depth_1, 1);
sparse!(sparse64_2, sparse64_2d, config::width_64::depth_2, 2);
sparse!(sparse64_3, sparse64_3d, config::width_64::depth_3, 3);
sparse!(sparse64_4, sparse64_4d, config::width_64::depth_4, 4);
sparse!(sparse128_1, sparse128_1d, config::width_128::depth_1, 1);
sparse!(sparse256_1, sparse256_1d, config::width_256::depth_1, 1);
sparse!(sparse128_2, sparse128_2d, config::width_128::depth_2, 2);
sparse!(sparse256_2, sparse256_2d, config::width_256::depth_2, 2);

/// The deep configurations, with the basic operations.
macro_rules! deep {
    ($($m:ident $d:tt $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            common!($t, $d);
            pub fn new() -> Tree {
                Tree::default()
            }
            pub fn insert(t: &mut Tree, k: usize, v: V) {
                t.insert(k, v)
            }
            pub fn remove(t: &mut Tree, k: usize) -> Option<V> {
                t.remove(k)
            }
            pub fn drop_tree(t: Tree) {
                drop(t)
            }
        }
    )* };
}
deep!(
    dense5 5 DenseTree<V, 5>;
    dense6 6 DenseTree<V, 6>;
    dense7 7 DenseTree<V, 7>;
    dense8 8 DenseTree<V, 8>;
    dense9 9 DenseTree<V, 9>;
    sparse64_5 5 SparseTree<config::width_64::depth_5, V, ReqDefault<false>>;
    sparse64_6 6 SparseTree<config::width_64::depth_6, V, ReqDefault<false>>;
    sparse64_7 7 SparseTree<config::width_64::depth_7, V, ReqDefault<false>>;
    sparse64_8 8 SparseTree<config::width_64::depth_8, V, ReqDefault<false>>;
    sparse128_3 3 SparseTree<config::width_128::depth_3, V, ReqDefault<false>>;
    sparse128_4 4 SparseTree<config::width_128::depth_4, V, ReqDefault<false>>;
    sparse128_5 5 SparseTree<config::width_128::depth_5, V, ReqDefault<false>>;
    sparse128_6 6 SparseTree<config::width_128::depth_6, V, ReqDefault<false>>;
    sparse128_7 7 SparseTree<config::width_128::depth_7, V, ReqDefault<false>>;
    sparse128_8 8 SparseTree<config::width_128::depth_8, V, ReqDefault<false>>;
    sparse256_3 3 SparseTree<config::width_256::depth_3, V, ReqDefault<false>>;
    sparse256_4 4 SparseTree<config::width_256::depth_4, V, ReqDefault<false>>;
    sparse256_5 5 SparseTree<config::width_256::depth_5, V, ReqDefault<false>>;
    sparse256_6 6 SparseTree<config::width_256::depth_6, V, ReqDefault<false>>;
    sparse256_7 7 SparseTree<config::width_256::depth_7, V, ReqDefault<false>>;
    sparse256_8 8 SparseTree<config::width_256::depth_8, V, ReqDefault<false>>;
);

macro_rules! ops {
    ($d:tt, $mask:ty, $src:ident $i:ident $i0:ident $i1:ident $u:ident $mp:ident $mpr:ident $mi:ident $mu:ident $mif:ident $muf:ident) => {
        pub mod $src {
            use super::*;
            common!(Src<$mask, $d>, $d);
        }
        pub mod $i {
            use super::*;
            common!(ops::Intersection<Src<$mask, $d>, Src<$mask, $d>>, $d);
            pub fn make(a: Src<$mask, $d>, b: Src<$mask, $d>) -> Tree {
                intersection(a, b)
            }
        }
        pub mod $i0 {
            use super::*;
            common!(ops::Intersection<&'static Src<$mask, $d>, &'static Src<$mask, $d>>, $d);
            pub fn make(a: &'static Src<$mask, $d>, b: &'static Src<$mask, $d>) -> Tree {
                intersection(a, b)
            }
        }
        pub mod $i1 {
            use super::*;
            common!(ops::Union<&'static Src<$mask, $d>, &'static Src<$mask, $d>>, $d);
            pub fn make(a: &'static Src<$mask, $d>, b: &'static Src<$mask, $d>) -> Tree {
                union(a, b)
            }
        }
        pub mod $u {
            use super::*;
            common!(ops::Union<Src<$mask, $d>, Src<$mask, $d>>, $d);
            pub fn make(a: Src<$mask, $d>, b: Src<$mask, $d>) -> Tree {
                union(a, b)
            }
        }
        pub mod $mp {
            use super::*;
            common!(ops::Map<Src<$mask, $d>, UF>, $d);
            pub fn make(a: Src<$mask, $d>, f: UF) -> Tree {
                map(a, f)
            }
            pub fn make_method(a: Src<$mask, $d>, f: UF) -> Tree {
                a.map(f)
            }
            pub fn std_next<'a>(i: &mut Iter<'a, Tree>) -> Option<(usize, Dt<'a, Tree>)> {
                Iterator::next(i)
            }
        }
        pub mod $mpr {
            use super::*;
            common!(ops::Map<&'static Src<$mask, $d>, UF>, $d);
            pub fn make(a: &'static Src<$mask, $d>, f: UF) -> Tree {
                a.map_ref(f)
            }
        }
        pub mod $mi {
            use super::*;
            common!(ops::MultiIntersection<std::slice::Iter<'static, Src<$mask, $d>>>, $d);
            pub fn make(a: &'static [Src<$mask, $d>]) -> Tree {
                multi_intersection(a.iter())
            }
            pub fn it_get(i: &mut Dt<'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn it_un(i: &mut Un<'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn it_cur(i: &mut CurData<'static, 'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn hint_get(i: &Dt<'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
            pub fn hint_un(i: &Un<'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
            pub fn hint_cur(i: &CurData<'static, 'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
        }
        pub mod $mu {
            use super::*;
            common!(ops::MultiUnion<std::slice::Iter<'static, Src<$mask, $d>>>, $d);
            pub fn make(a: &'static [Src<$mask, $d>]) -> Tree {
                multi_union(a.iter())
            }
            pub fn it_get(i: &mut Dt<'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn it_un(i: &mut Un<'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn it_cur(i: &mut CurData<'static, 'static, Tree>) -> Option<It> {
                i.next()
            }
            pub fn hint_get(i: &Dt<'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
            pub fn hint_un(i: &Un<'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
            pub fn hint_cur(i: &CurData<'static, 'static, Tree>) -> (usize, Option<usize>) {
                i.size_hint()
            }
        }
        pub mod $mif {
            use super::*;
            common!(ops::MultiMapFold<ops::MultiIntersection<std::slice::Iter<'static, Src<$mask, $d>>>, UF, UF>, $d);
            pub fn make(a: &'static [Src<$mask, $d>], i: UF, f: UF) -> Tree {
                multi_map_fold(multi_intersection(a.iter()), i, f)
            }
            pub fn make_method(a: &'static [Src<$mask, $d>], i: UF, f: UF) -> Tree {
                multi_intersection(a.iter()).map_fold(i, f)
            }
        }
        pub mod $muf {
            use super::*;
            common!(ops::MultiMapFold<ops::MultiUnion<std::slice::Iter<'static, Src<$mask, $d>>>, UF, UF>, $d);
            pub fn make(a: &'static [Src<$mask, $d>], i: UF, f: UF) -> Tree {
                multi_map_fold(multi_union(a.iter()), i, f)
            }
            pub fn make_method(a: &'static [Src<$mask, $d>], i: UF, f: UF) -> Tree {
                multi_union(a.iter()).map_fold(i, f)
            }
        }
    };
}
ops!(1, u64, src1 inter1 inter_r1 union_r1 union1 map1 map_r1 mi1 mu1 mif1 muf1);
ops!(2, u64, src2 inter2 inter_r2 union_r2 union2 map2 map_r2 mi2 mu2 mif2 muf2);
ops!(3, u64, src3 inter3 inter_r3 union_r3 union3 map3 map_r3 mi3 mu3 mif3 muf3);

ops!(1, bits128::M, src128_1 inter128_1 inter128_r1 union128_r1 union128_1 map128_1 map128_r1 mi128_1 mu128_1 mif128_1 muf128_1);
ops!(2, bits128::M, src128_2 inter128_2 inter128_r2 union128_r2 union128_2 map128_2 map128_r2 mi128_2 mu128_2 mif128_2 muf128_2);
ops!(2, bits256::M, src256_2 inter256_2 inter256_r2 union256_r2 union256_2 map256_2 map256_r2 mi256_2 mu256_2 mif256_2 muf256_2);

/// Exactness flags.
macro_rules! exact {
    ($d:tt, $uee:ident $uei:ident $uie:ident $uii:ident $iee:ident $me:ident $mi:ident $mie:ident $mue:ident $mui:ident $mife:ident $mufe:ident $mufi:ident) => {
        exact!(@two $d $uee union Union true true);
        exact!(@two $d $uei union Union true false);
        exact!(@two $d $uie union Union false true);
        exact!(@two $d $uii union Union false false);
        exact!(@two $d $iee intersection Intersection true true);
        exact!(@map $d $me true);
        exact!(@map $d $mi false);
        exact!(@multi $d $mie multi_intersection MultiIntersection true);
        exact!(@multi $d $mue multi_union MultiUnion true);
        exact!(@multi $d $mui multi_union MultiUnion false);
        exact!(@fold $d $mife multi_intersection MultiIntersection true);
        exact!(@fold $d $mufe multi_union MultiUnion true);
        exact!(@fold $d $mufi multi_union MultiUnion false);
    };
    (@two $d:tt $m:ident $f:ident $t:ident $a:literal $b:literal) => {
        pub mod $m {
            use super::*;
            common!(ops::$t<Src<u64, $d, It, $a>, Src<u64, $d, It, $b>>, $d);
            pub fn make(a: Src<u64, $d, It, $a>, b: Src<u64, $d, It, $b>) -> Tree {
                $f(a, b)
            }
        }
    };
    (@map $d:tt $m:ident $a:literal) => {
        pub mod $m {
            use super::*;
            common!(ops::Map<Src<u64, $d, It, $a>, UF>, $d);
            pub fn make(a: Src<u64, $d, It, $a>, f: UF) -> Tree {
                map(a, f)
            }
        }
    };
    (@multi $d:tt $m:ident $f:ident $t:ident $a:literal) => {
        pub mod $m {
            use super::*;
            common!(ops::$t<std::slice::Iter<'static, Src<u64, $d, It, $a>>>, $d);
            pub fn make(a: &'static [Src<u64, $d, It, $a>]) -> Tree {
                $f(a.iter())
            }
        }
    };
    (@fold $d:tt $m:ident $f:ident $t:ident $a:literal) => {
        pub mod $m {
            use super::*;
            common!(ops::MultiMapFold<ops::$t<std::slice::Iter<'static, Src<u64, $d, It, $a>>>, UF, UF>, $d);
            pub fn make(a: &'static [Src<u64, $d, It, $a>], i: UF, f: UF) -> Tree {
                multi_map_fold($f(a.iter()), i, f)
            }
        }
    };
}
exact!(2, x_union_tt2 x_union_tf2 x_union_ft2 x_union_ff2 x_inter_tt2 x_map_t2 x_map_f2 x_mi_t2 x_mu_t2 x_mu_f2 x_mif_t2 x_muf_t2 x_muf_f2);
exact!(3, x_union_tt3 x_union_tf3 x_union_ft3 x_union_ff3 x_inter_tt3 x_map_t3 x_map_f3 x_mi_t3 x_mu_t3 x_mu_f3 x_mif_t3 x_muf_t3 x_muf_f3);

/// Bit blocks.
macro_rules! bits {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            use std::ops::ControlFlow;
            pub type M = $t;
            type Q = <M as BitBlock>::BitsIter;
            pub fn size() -> usize {
                <M as BitBlock>::SIZE
            }
            pub fn zero() -> M {
                <M as BitBlock>::zero()
            }
            pub fn is_zero(m: &M) -> bool {
                BitBlock::is_zero(m)
            }
            pub fn get_bit(m: &M, i: usize) -> bool {
                BitBlock::get_bit(m, i)
            }
            pub fn set_true(m: &mut M, i: usize) -> bool {
                BitBlock::set_bit::<true>(m, i)
            }
            pub fn set_false(m: &mut M, i: usize) -> bool {
                BitBlock::set_bit::<false>(m, i)
            }
            pub fn count(m: &M) -> usize {
                BitBlock::count_ones(m)
            }
            pub fn and(a: M, b: M) -> M {
                a & b
            }
            pub fn or(a: M, b: M) -> M {
                a | b
            }
            pub fn and_assign(a: &mut M, b: &M) {
                *a &= b
            }
            pub fn or_assign(a: &mut M, b: &M) {
                *a |= b
            }
            pub fn eq(a: &M, b: &M) -> bool {
                a == b
            }
            pub fn into_iter(m: M) -> Q {
                m.into_bits_iter()
            }
            pub fn next(q: &mut Q) -> Option<usize> {
                q.next()
            }
            pub fn traverse(m: &M) -> ControlFlow<()> {
                m.traverse_bits(|i| if unsafe { u_bits(i) } { ControlFlow::Continue(()) } else { ControlFlow::Break(()) })
            }
            pub fn q_traverse(q: Q) -> ControlFlow<()> {
                bit_queue::BitQueue::traverse(q, |i| if unsafe { u_bits(i) } { ControlFlow::Continue(()) } else { ControlFlow::Break(()) })
            }
            pub fn q_for_each(q: Q) {
                q.for_each(|i| {
                    unsafe { u_bits(i) };
                })
            }
            pub fn q_empty() -> Q {
                bit_queue::BitQueue::empty()
            }
            pub fn q_filled() -> Q {
                bit_queue::BitQueue::filled()
            }
            pub fn q_trim(q: &mut Q, n: usize) {
                bit_queue::BitQueue::trim_to(q, n)
            }
            pub fn q_current(q: &Q) -> usize {
                bit_queue::BitQueue::current(q)
            }
        }
    };
}
bits!(bits64, u64);
bits!(bits128, <SparseTree<config::width_128::depth_1, It> as HibitTree>::LevelMask);
bits!(bits256, <SparseTree<config::width_256::depth_1, It> as HibitTree>::LevelMask);

/// Key ranges and digits at every width and depth.
macro_rules! keys {
    ($w:ty; $($m:ident $d:tt)*) => { $(
        pub mod $m {
            use super::*;
            pub type Tree = Src<$w, $d>;
            pub fn get(t: &Tree, k: usize) -> Option<It> {
                HibitTree::get(t, k)
            }
            pub unsafe fn get_unchecked(t: &Tree, k: usize) -> It {
                HibitTree::get_unchecked(t, k)
            }
            pub fn index_from(k: usize) -> Index<$w, ConstUsize<$d>> {
                Index::from(k)
            }
            pub fn index_range() -> usize {
                <Tree as HibitTree>::index_range().end
            }
            pub fn iter_new(t: &Tree) -> Iter<'_, Tree> {
                HibitTree::iter(t)
            }
            pub fn iter_next<'a, 'b>(i: &'b mut Iter<'a, Tree>) -> Option<(usize, It)> {
                LendingIterator::next(i)
            }
        }
    )* };
}
keys!(u64; key64_1 1 key64_2 2 key64_3 3 key64_4 4 key64_5 5 key64_6 6 key64_7 7 key64_8 8 key64_9 9);
keys!(bits128::M; key128_1 1 key128_2 2 key128_3 3 key128_4 4 key128_5 5 key128_6 6 key128_7 7 key128_8 8);
keys!(bits256::M; key256_1 1 key256_2 2 key256_3 3 key256_4 4 key256_5 5 key256_6 6 key256_7 7 key256_8 8);

/// Compile-time helpers.
pub mod consts {
    use super::*;
    use std::ops::ControlFlow;
    struct Vis;
    impl ConstIntVisitor for Vis {
        type Out = usize;
        fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<usize> {
            if unsafe { u_bits(i.value()) } {
                ControlFlow::Continue(())
            } else {
                ControlFlow::Break(I::VALUE)
            }
        }
    }
    macro_rules! loops {
        ($($m:ident $n:literal)*) => { $(
            pub mod $m {
                use super::*;
                loops!(@to $n; f0 r0 0 f1 r1 1 f2 r2 2 f3 r3 3 f4 r4 4 f5 r5 5 f6 r6 6 f7 r7 7 f8 r8 8 f9 r9 9);
                pub fn value() -> (usize, usize) {
                    (ConstUsize::<$n>.value(), <ConstUsize<$n> as ConstInteger>::DEFAULT.value())
                }
                pub fn sat_dec() -> usize {
                    ConstUsize::<$n>.sat_dec().value()
                }
                pub fn dec() -> usize {
                    ConstUsize::<$n>.dec().value()
                }
                pub fn inc() -> usize {
                    ConstUsize::<$n>.inc().value()
                }
                pub fn array(x: ConstArrayType<u64, ConstUsize<$n>>) -> ConstArrayType<u64, ConstUsize<$n>> {
                    x
                }
                pub fn cap() -> (usize, usize) {
                    (<ConstArrayType<u64, ConstUsize<$n>> as Array>::CAP, <<ConstArrayType<u64, ConstUsize<$n>> as ConstArray>::Cap as ConstInteger>::VALUE)
                }
            }
        )* };
        (@to $n:literal; $($f:ident $r:ident $k:literal)*) => { $(
            pub fn $f() -> ControlFlow<usize> {
                const_for(ConstUsize::<$k>, ConstUsize::<$n>, Vis)
            }
            pub fn $r() -> ControlFlow<usize> {
                const_for_rev(ConstUsize::<$k>, ConstUsize::<$n>, Vis)
            }
        )* };
    }
    loops!(to0 0 to1 1 to2 2 to3 3 to4 4 to5 5 to6 6 to7 7 to8 8 to9 9);
    macro_rules! split {
        ($($m:ident $n:literal)*) => { $(
            pub fn $m(x: [V; $n]) -> ([V; $n - 1], V) {
                x.split_last()
            }
        )* };
    }
    split!(split1 1 split2 2 split5 5 split9 9);
    pub fn ct_true_new(v: V) -> CondType<ConstTrue, V, It> {
        CondType::from(v)
    }
    pub fn ct_false_new(v: It) -> CondType<ConstFalse, V, It> {
        CondType::from(v)
    }
    pub fn ct_true_default() -> CondType<ConstTrue, V, ()> {
        CondType::default()
    }
    pub fn ct_true_get(c: &CondType<ConstTrue, V, It>) -> Either<&V, &It> {
        c.get()
    }
    pub fn ct_false_get(c: &CondType<ConstFalse, V, It>) -> Either<&V, &It> {
        c.get()
    }
    pub fn ct_true_get_mut(c: &mut CondType<ConstTrue, V, It>) -> Either<&mut V, &mut It> {
        c.get_mut()
    }
    pub fn ct_false_get_mut(c: &mut CondType<ConstFalse, V, It>) -> Either<&mut V, &mut It> {
        c.get_mut()
    }
    pub fn ct_false_clone(c: &CondType<ConstFalse, It, It>) -> CondType<ConstFalse, It, It> {
        c.clone()
    }
    pub fn ct_true_clone(c: &CondType<ConstTrue, It, It>) -> CondType<ConstTrue, It, It> {
        c.clone()
    }
}
