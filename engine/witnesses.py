"""Pairs of programs: with --cfg bad each must be rejected with its error code, without it compile."""
PRE = """#![allow(unused, deprecated)]
use hibit_tree::*;
use hibit_tree::config;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
type D = DenseTree<String, 3>;
type S = SparseTree<config::width_64::depth_3, String>;
type SD = SparseTree<config::width_64::depth_3, String, ReqDefault>;
fn s() -> String { String::new() }
fn use_<T>(_: T) {}
"""
W = []


def w(name, item, code, body, feat=""):
    W.append((name, item, code, body, feat))


# ---- borrows of containers
for t, f in (("D", "dense_tree.rs DenseTree"), ("S", "sparse_tree.rs SparseTree")):
    n = {"D": "dense", "S": "sparse"}[t]
    src = "src/" + f
    w(f"{n}_get_then_insert", f"{src}::get (HibitTree)", "E0502", f"""
fn f(t: &mut {t}) {{ let r = t.get(1); #[cfg(bad)] t.insert(2, s()); use_(r); t.insert(2, s()); }}""")
    w(f"{n}_get_then_remove", f"{src}::get (HibitTree)", "E0502", f"""
fn f(t: &mut {t}) {{ let r = t.get(1); #[cfg(bad)] t.remove(2); use_(r); t.remove(2); }}""")
    w(f"{n}_get_outlives_tree", f"{src}::get (HibitTree)", "E0505", f"""
fn f(t: {t}) {{ let r = t.get(1); #[cfg(bad)] drop(t); use_(r); }}""")
    w(f"{n}_get_or_insert_exclusive", f"{src}::get_or_insert", "E0502", f"""
fn f(t: &mut {t}) {{ let r = t.get_or_insert(1); #[cfg(bad)] use_(t.get(2)); use_(r); }}""")
    w(f"{n}_get_or_insert_twice", f"{src}::get_or_insert", "E0499", f"""
fn f(t: &mut {t}) {{ let r = t.get_or_insert(1); #[cfg(bad)] let q = t.get_or_insert(2); use_(r); #[cfg(bad)] use_(q); }}""")
    w(f"{n}_insert_needs_mut", f"{src}::insert", "E0596", f"""
#[cfg(bad)] fn f(t: &{t}) {{ t.insert(1, s()); }}
#[cfg(not(bad))] fn f(t: &mut {t}) {{ t.insert(1, s()); }}""")
    w(f"{n}_remove_needs_mut", f"{src}::remove", "E0596", f"""
#[cfg(bad)] fn f(t: &{t}) {{ t.remove(1); }}
#[cfg(not(bad))] fn f(t: &mut {t}) {{ t.remove(1); }}""")
    w(f"{n}_get_or_insert_needs_mut", f"{src}::get_or_insert", "E0596", f"""
#[cfg(bad)] fn f(t: &{t}) {{ t.get_or_insert(1); }}
#[cfg(not(bad))] fn f(t: &mut {t}) {{ t.get_or_insert(1); }}""")
    w(f"{n}_iter_then_insert", f"src/iter.rs Iter over {f.split()[1]}", "E0502", f"""
fn f(t: &mut {t}) {{ let mut i = t.iter(); #[cfg(bad)] t.insert(2, s()); use_(Iterator::next(&mut i)); }}""")
    w(f"{n}_iter_item_then_remove", f"src/iter.rs Iter over {f.split()[1]}", "E0502", f"""
fn f(t: &mut {t}) {{ let r = Iterator::next(&mut t.iter()); #[cfg(bad)] t.remove(2); use_(r); }}""")
    w(f"{n}_iter_items_outlive_iter", f"src/iter.rs Iter over {f.split()[1]}", "E0505", f"""
fn f(t: {t}) {{ let v: Vec<(usize, &String)> = t.iter().collect(); #[cfg(bad)] drop(t); use_(v); }}""")
    w(f"{n}_cursor_outlives_tree", f"{src} Cursor", "E0505", f"""
fn f(t: {t}) {{ let c = <{t} as HibitTreeTypes>::Cursor::new(&t); #[cfg(bad)] drop(t); use_(c); }}""")
    w(f"{n}_cursor_then_insert", f"{src} Cursor", "E0502", f"""
fn f(t: &mut {t}) {{ let c = <{t} as HibitTreeTypes>::Cursor::new(t); #[cfg(bad)] t.insert(2, s()); use_(c); }}""")
    w(f"{n}_key_values_then_insert", f"{src}::key_values", "E0502", f"""
fn f(t: &mut {t}) {{ let (k, v) = t.key_values(); #[cfg(bad)] t.insert(2, s()); use_(k); use_(v); }}""")
    w(f"{n}_key_values_mut_exclusive", f"{src}::key_values_mut", "E0502", f"""
fn f(t: &mut {t}) {{ let (k, v) = t.key_values_mut(); #[cfg(bad)] use_(t.get(2)); use_(v); }}""")
    w(f"{n}_key_values_mut_keys_hold_tree", f"{src}::key_values_mut", "E0499", f"""
fn f(t: &mut {t}) {{ let (k, _) = t.key_values_mut(); #[cfg(bad)] t.insert(2, s()); use_(k); }}""")
    w(f"{n}_key_values_mut_needs_mut", f"{src}::key_values_mut", "E0596", f"""
#[cfg(bad)] fn f(t: &{t}) {{ t.key_values_mut(); }}
#[cfg(not(bad))] fn f(t: &mut {t}) {{ t.key_values_mut(); }}""")
    w(f"{n}_keys_are_read_only", f"{src}::key_values_mut", "E0308", f"""
fn f(t: &mut {t}) {{ let (k, v) = t.key_values_mut(); #[cfg(bad)] let _: &mut [usize] = k; let _: &mut [String] = v; }}""")
    w(f"{n}_values_read_only", f"{src}::key_values", "E0308", f"""
fn f(t: &{t}) {{ let (k, v) = t.key_values(); #[cfg(bad)] let _: &mut [String] = v; let _: &[String] = v; }}""")
    w(f"{n}_get_is_shared", f"{src}::get (HibitTree)", "E0308", f"""
fn f(t: &mut {t}) {{ #[cfg(bad)] let _: &mut String = t.get(1).unwrap(); let _: &String = t.get(1).unwrap(); }}""")
    w(f"{n}_get_unchecked_unsafe", "src/hibit_tree.rs HibitTree::get_unchecked", "E0133", f"""
fn f(t: &{t}) {{ #[cfg(bad)] use_(t.get_unchecked(1)); use_(unsafe {{ t.get_unchecked(1) }}); }}""")
    w(f"{n}_data_unsafe", f"{src}::data (HibitTree)", "E0133", f"""
fn f(t: &{t}) {{ #[cfg(bad)] use_(t.data(1, &[0, 0, 1])); use_(unsafe {{ t.data(1, &[0, 0, 1]) }}); }}""")
    w(f"{n}_data_unchecked_unsafe", f"{src}::data_unchecked (HibitTree)", "E0133", f"""
fn f(t: &{t}) {{ #[cfg(bad)] use_(t.data_unchecked(1, &[0, 0, 1])); use_(unsafe {{ t.data_unchecked(1, &[0, 0, 1]) }}); }}""")
    for m, args in (("select_level_node", "ConstUsize::<0>, 0"), ("select_level_node_unchecked", "ConstUsize::<0>, 0"), ("data", "0"), ("data_unchecked", "0")):
        w(f"{n}_cursor_{m}_unsafe", f"{src} Cursor::{m}", "E0133", f"""
fn f(t: &{t}) {{ let mut c = <{t} as HibitTreeTypes>::Cursor::new(t); #[cfg(bad)] use_(c.{m}(t, {args})); use_(unsafe {{ c.{m}(t, {args}) }}); }}""")
# ---- sparse only
w("sparse_get_mut_twice", "src/sparse_tree.rs SparseTree::get_mut", "E0499", """
fn f(t: &mut S) { let a = t.get_mut(1); #[cfg(bad)] let b = t.get_mut(1); use_(a); #[cfg(bad)] use_(b); }""")
w("sparse_get_mut_then_get", "src/sparse_tree.rs SparseTree::get_mut", "E0502", """
fn f(t: &mut S) { let a = t.get_mut(1); #[cfg(bad)] let b = t.get(1); use_(a); #[cfg(bad)] use_(b); }""")
w("sparse_get_mut_needs_mut", "src/sparse_tree.rs SparseTree::get_mut", "E0596", """
#[cfg(bad)] fn f(t: &S) { t.get_mut(1); }
#[cfg(not(bad))] fn f(t: &mut S) { t.get_mut(1); }""")
w("sparse_get_mut_unchecked_unsafe", "src/sparse_tree.rs SparseTree::get_mut_unchecked", "E0133", """
fn f(t: &mut S) { #[cfg(bad)] use_(t.get_mut_unchecked(1)); use_(unsafe { t.get_mut_unchecked(1) }); }""")
w("sparse_get_mut_unchecked_needs_mut", "src/sparse_tree.rs SparseTree::get_mut_unchecked", "E0596", """
#[cfg(bad)] fn f(t: &S) { unsafe { t.get_mut_unchecked(1); } }
#[cfg(not(bad))] fn f(t: &mut S) { unsafe { t.get_mut_unchecked(1); } }""")
w("get_or_default_needs_default", "src/sparse_tree.rs SparseTree::get_or_default", "E0599", """
#[cfg(bad)] fn f(t: &S) { t.get_or_default(1); }
#[cfg(not(bad))] fn f(t: &SD) { t.get_or_default(1); }""")
w("req_default_needs_default", "src/sparse_tree.rs SparseTree (ReqDefault)", "E0599|E0277", """
struct N;
#[cfg(bad)] fn f() { let t = SparseTree::<config::width_64::depth_3, N, ReqDefault>::default(); }
#[cfg(not(bad))] fn f() { let t = SparseTree::<config::width_64::depth_3, N>::default(); }""")
w("get_or_default_holds_tree", "src/sparse_tree.rs SparseTree::get_or_default", "E0502", """
fn f(t: &mut SD) { let r = t.get_or_default(1); #[cfg(bad)] t.insert(1, s()); use_(r); }""")
w("get_or_insert_needs_default_dense", "src/dense_tree.rs DenseTree::get_or_insert", "E0277|E0599", """
struct N; #[derive(Default)] struct M;
fn f(t: &mut DenseTree<N, 2>, u: &mut DenseTree<M, 2>) { #[cfg(bad)] t.get_or_insert(1); u.get_or_insert(1); }""")
w("get_or_insert_needs_default_sparse", "src/sparse_tree.rs SparseTree::get_or_insert", "E0277|E0599", """
struct N; #[derive(Default)] struct M;
fn f(t: &mut SparseTree<config::width_64::depth_2, N>, u: &mut SparseTree<config::width_64::depth_2, M>) { #[cfg(bad)] t.get_or_insert(1); u.get_or_insert(1); }""")
# ---- indices
w("index_unchecked_unsafe", "src/hibit_tree.rs Index::new_unchecked", "E0133", """
type I = Index<u64, ConstUsize<3>>;
fn f() { #[cfg(bad)] let i = I::new_unchecked(1 << 40); let i = unsafe { I::new_unchecked(1) }; let j = I::from(1); }""")
w("index_of_other_depth", "src/hibit_tree.rs HibitTree::get", "E0277", """
fn f(t: &D, bad: Index<u64, ConstUsize<4>>, good: Index<u64, ConstUsize<3>>) { #[cfg(bad)] use_(t.get(bad)); use_(t.get(good)); }""")
w("index_of_other_width", "src/hibit_tree.rs HibitTree::get", "E0277", """
fn f(t: &SparseTree<config::width_128::depth_3, u8>, u: &D, i: Index<u64, ConstUsize<3>>) { #[cfg(bad)] use_(t.get(i)); use_(u.get(i)); }""")
w("index_of_other_depth_insert", "src/dense_tree.rs DenseTree::insert", "E0277", """
fn f(t: &mut D, bad: Index<u64, ConstUsize<4>>, good: Index<u64, ConstUsize<3>>) { #[cfg(bad)] t.insert(bad, s()); t.insert(good, s()); }""")
w("index_of_other_depth_remove", "src/sparse_tree.rs SparseTree::remove", "E0277", """
fn f(t: &mut S, bad: Index<u64, ConstUsize<4>>, good: Index<u64, ConstUsize<3>>) { #[cfg(bad)] t.remove(bad); t.remove(good); }""")
w("index_not_forgeable", "src/hibit_tree.rs Index", "E0423", """
type I = Index<u64, ConstUsize<3>>;
fn f() { #[cfg(bad)] let i: I = Index(1usize << 40, std::marker::PhantomData); let j = I::from(1); }""")
w("index_no_default", "src/hibit_tree.rs Index", "E0599|E0277", """
type I = Index<u64, ConstUsize<3>>;
fn f(i: I) -> I { #[cfg(bad)] use_(I::default()); i }""")
# ---- operators
w("intersection_depth_mismatch", "src/ops/intersection.rs intersection", "E0271", """
fn f(a: &DenseTree<u8, 3>, b: &DenseTree<u8, 2>, c: &DenseTree<u8, 3>) { #[cfg(bad)] use_(intersection(a, b)); use_(intersection(a, c)); }""")
w("intersection_width_mismatch", "src/ops/intersection.rs intersection", "E0271", """
fn f(a: &DenseTree<u8, 3>, b: &SparseTree<config::width_128::depth_3, u8>, c: &S) { #[cfg(bad)] use_(intersection(a, b)); use_(intersection(a, c)); }""")
w("union_depth_mismatch", "src/ops/union.rs union", "E0271", """
fn f(a: &DenseTree<u8, 3>, b: &DenseTree<u8, 2>, c: &DenseTree<u8, 3>) { #[cfg(bad)] use_(union(a, b).iter()); use_(union(a, c).iter()); }""")
w("union_width_mismatch", "src/ops/union.rs union", "E0271", """
fn f(a: &DenseTree<u8, 3>, b: &SparseTree<config::width_128::depth_3, u8>, c: &S) { #[cfg(bad)] use_(union(a, b).iter()); use_(union(a, c).iter()); }""")
w("multi_same_type", "src/ops/_multi_union.rs multi_union", "E0308", """
fn f(a: &DenseTree<u8, 3>, b: &DenseTree<u8, 2>) { #[cfg(bad)] use_(multi_union([a, b].into_iter())); use_(multi_union([a, a].into_iter())); }""")
for op in ("intersection", "union"):
    w(f"{op}_borrows_sources", f"src/ops/{op}.rs {op}", "E0502", f"""
fn f(a: &mut D, b: &D) {{ let i = {op}(&*a, b); #[cfg(bad)] a.insert(1, s()); use_(i.get(1)); }}""")
    w(f"{op}_get_holds_source", f"src/ops/{op}.rs {op}", "E0502", f"""
fn f(a: &mut D, b: &D) {{ let i = {op}(&*a, b); let r = i.get(1); #[cfg(bad)] a.insert(1, s()); use_(r); }}""")
    w(f"{op}_owned_source_dropped", f"src/ops/{op}.rs {op}", "E0505", f"""
fn f(a: D, b: D) {{ let i = {op}(a, b); let r = i.get(1); #[cfg(bad)] drop(i); use_(r); }}""")
for op in ("multi_intersection", "multi_union"):
    w(f"{op}_borrows_sources", f"src/ops/_{op}.rs {op}", "E0502", f"""
fn f(a: &mut D, b: &D) {{ let v = [&*a, b]; let i = {op}(v.iter().copied()); #[cfg(bad)] a.insert(1, s()); use_(i.get(1)); }}""")
    w(f"{op}_items_lend", f"src/iter.rs Iter over {op}", "E0499", f"""
fn f(a: &D, b: &D) {{ let v = [a, b]; let i = {op}(v.iter().copied()); let mut it = i.iter();
    let x = LendingIterator::next(&mut it); #[cfg(bad)] let y = LendingIterator::next(&mut it); use_(x); #[cfg(bad)] use_(y); }}""")
    w(f"{op}_no_std_iterator", f"src/iter.rs Iter over {op}", "E0277|E0271|E0599", f"""
fn f(a: &D, b: &D) {{ let v = [a, b]; let i = {op}(v.iter().copied()); let mut it = i.iter();
    #[cfg(bad)] use_(Iterator::next(&mut it)); use_(LendingIterator::next(&mut it)); }}""")
w("map_needs_fn_not_fnmut", "src/ops/map.rs map", "E0525|E0594|E0277", """
fn f(a: &D) { let mut n = 0usize; #[cfg(bad)] let m = map(a, |x: &String| { n += 1; x.len() }); #[cfg(not(bad))] let m = map(a, |x: &String| { x.len() }); use_(m.get(1)); }""")
w("map_borrows_source", "src/ops/map.rs map", "E0502", """
fn f(a: &mut D) { let m = map(&*a, |x: &String| x.len()); #[cfg(bad)] a.insert(1, s()); use_(m.get(1)); }""")
w("map_ref_borrows_source", "src/hibit_tree.rs RegularHibitTree::map_ref", "E0502", """
fn f(a: &mut D) { let m = a.map_ref(|x: &String| x.len()); #[cfg(bad)] a.insert(1, s()); use_(m.get(1)); }""")
w("map_owned_moves_source", "src/hibit_tree.rs RegularHibitTree::map", "E0382", """
fn f(a: D) { let m = a.map(|x: &String| x.len()); #[cfg(bad)] use_(a.get(1)); use_(m.get(1)); }""")
w("materialize_only_lazy", "src/hibit_tree.rs LazyHibitTree::materialize", "E0599|E0277", """
fn f(a: D) { #[cfg(bad)] let d: DenseTree<String, 3> = a.materialize(); #[cfg(not(bad))] let d: DenseTree<usize, 3> = a.map(|x: &String| x.len()).materialize(); }""")
w("materialize_depth", "src/dense_tree/from.rs FromHibitTree for DenseTree", "E0271|E0277", """
fn f(a: &D) { #[cfg(bad)] let d: DenseTree<usize, 2> = map(a, |x: &String| x.len()).materialize(); #[cfg(not(bad))] let d: DenseTree<usize, 3> = map(a, |x: &String| x.len()).materialize(); }""")
w("materialize_width", "src/dense_tree/from.rs FromHibitTree for DenseTree", "E0271|E0277", """
type T = SparseTree<config::width_128::depth_3, String>;
#[cfg(bad)] fn f(a: &T) { let d: DenseTree<usize, 3> = map(a, |x: &String| x.len()).materialize(); }
#[cfg(not(bad))] fn f(a: &S) { let d: DenseTree<usize, 3> = map(a, |x: &String| x.len()).materialize(); }""")
w("materialize_element_type", "src/dense_tree/from.rs FromHibitTree for DenseTree", "E0271|E0277", """
fn f(a: &D) { #[cfg(bad)] let d: DenseTree<u8, 3> = map(a, |x: &String| x.len()).materialize(); #[cfg(not(bad))] let d: DenseTree<usize, 3> = map(a, |x: &String| x.len()).materialize(); }""")
w("fold_types", "src/ops/multi_map_fold.rs multi_map_fold", "E0271|E0277|E0308|E0631", """
fn f(a: &DenseTree<u8, 3>) { let v = [a, a]; let i = multi_union(v.iter().copied());
    #[cfg(bad)] use_(multi_map_fold(i, || 0usize, |acc: usize, x: &u8| "x").get(1)); #[cfg(not(bad))] use_(multi_map_fold(i, || 0usize, |acc: usize, x: &u8| acc + *x as usize).get(1)); }""")
# ---- threads
w("dense_rc_not_send", "src/dense_tree.rs DenseTree (auto traits)", "E0277", """
fn send<T: Send>() {} fn f() { #[cfg(bad)] send::<DenseTree<std::rc::Rc<u8>, 2>>(); send::<Vec<u8>>(); }""")
w("dense_cell_not_sync", "src/dense_tree.rs DenseTree (auto traits)", "E0277", """
fn sync<T: Sync>() {} fn f() { #[cfg(bad)] sync::<DenseTree<std::cell::Cell<u8>, 2>>(); sync::<Vec<u8>>(); }""")
w("sparse_rc_not_send", "src/sparse_tree.rs SparseTree (auto traits)", "E0277", """
fn send<T: Send>() {} fn f() { #[cfg(bad)] send::<SparseTree<config::width_64::depth_2, std::rc::Rc<u8>>>(); send::<SparseTree<config::width_64::depth_2, u8>>(); }""")
w("sparse_cell_not_sync", "src/sparse_tree.rs SparseTree (auto traits)", "E0277", """
fn sync<T: Sync>() {} fn f() { #[cfg(bad)] sync::<SparseTree<config::width_64::depth_2, std::cell::Cell<u8>>>(); sync::<SparseTree<config::width_64::depth_2, u8>>(); }""")
for n, t in (("dense", "DenseTree<std::cell::Cell<u8>, 2>"), ("sparse", "SparseTree<config::width_64::depth_2, std::cell::Cell<u8>>")):
    w(f"{n}_cursor_of_cell_not_send", f"src/{n}_tree.rs Cursor (auto traits)", "E0277", f"""
fn send<T: Send>() {{}} fn f() {{ #[cfg(bad)] send::<<{t} as HibitTreeTypes<'static>>::Cursor>(); send::<Vec<u8>>(); }}""")
    w(f"{n}_iter_of_cell_not_send", f"src/iter.rs Iter (auto traits)", "E0277", f"""
fn send<T: Send>() {{}} fn f() {{ #[cfg(bad)] send::<Iter<'static, {t}>>(); send::<Vec<u8>>(); }}""")
# ---- variance and drop check
for n, t in (("dense", "DenseTree<%s, 2>"), ("sparse", "SparseTree<config::width_64::depth_2, %s>")):
    src = f"src/{n}_tree.rs"
    w(f"{n}_element_borrow_outlives", f"{src} (element lifetime)", "E0505", f"""
fn f() {{ let x = s(); let mut t = <{t % "&String"}>::default(); t.insert(1, &x); #[cfg(bad)] drop(x); use_(t.get(1)); }}""")
    w(f"{n}_mut_element_lifetime", f"{src} get_or_insert (invariance behind &mut)", "E0597", f"""
fn put<'a>(t: &mut {t % "Option<&'a String>"}, x: &'a String) {{ *t.get_or_insert(1) = Some(x); }}
fn f() {{ let long = s(); let mut t = <{t % "Option<&String>"}>::default(); {{ let x = s(); #[cfg(bad)] put(&mut t, &x); }} put(&mut t, &long); use_(t.get(1)); }}""")
    w(f"{n}_covariant_get", f"{src} get", "lifetime", f"""
fn f<'a>(t: &'a {t % "&'static str"}) -> Option<&'a &'a str> {{ #[cfg(bad)] let r: Option<&'static &'static str> = t.get(1); t.get(1).map(|x| x as &&str) }}""")
    w(f"{n}_dropck_bomb", f"{src} Drop (drop check)", "E0597", f"""
struct B<'a>(&'a String); impl Drop for B<'_> {{ fn drop(&mut self) {{ use_(self.0.len()) }} }}
fn f() {{ #[cfg(bad)] let mut t = <{t % "B"}>::default(); let x = s(); #[cfg(not(bad))] let mut t = <{t % "B"}>::default(); t.insert(1, B(&x)); }}""")
    w(f"{n}_dropck_bomb_may_dangle", f"{src} Drop (may_dangle)", "E0597", f"""
struct B<'a>(&'a String); impl Drop for B<'_> {{ fn drop(&mut self) {{ use_(self.0.len()) }} }}
fn f() {{ #[cfg(bad)] let mut t = <{t % "B"}>::default(); let x = s(); #[cfg(not(bad))] let mut t = <{t % "B"}>::default(); t.insert(1, B(&x)); }}""", "may_dangle")
    w(f"{n}_may_dangle_reference", f"{src} Drop (may_dangle)", "E0597", f"""
fn f() {{ let mut t = <{t % "&String"}>::default(); let x = s(); t.insert(1, &x); #[cfg(bad)] {{ let y = s(); t.insert(2, &y); }} #[cfg(bad)] use_(t.get(1)); }}""", "may_dangle")
