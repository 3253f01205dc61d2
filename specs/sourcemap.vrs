// --- C08: the source map ------------------------------------------------------------
//@type parser/source_map.rs | SourceLine
//@type parser/source_map.rs | SourceMap

//@include own.vrs
impl VpClone for SourceLine {
    spec fn same(&self, r: Self) -> bool { self.1 == r.1 && self.0.same(r.0) }
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() }
}
spec fn key_lt<T, F: Fn(&T) -> usize>(f: F, t: T, k: usize) -> bool { exists|a: usize| f.ensures((&t,), a) && a < k }
spec fn key_gt<T, F: Fn(&T) -> usize>(f: F, t: T, k: usize) -> bool { exists|a: usize| f.ensures((&t,), a) && k < a }
/// `slice::binary_search_by_key` with `usize` keys (std's documentation; `f` is a function).
trait VpSearch<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vp_binary_search_by_key<F: Fn(&T) -> usize>(&self, k: &usize, f: F) -> (r: Result<usize, usize>)
        requires
            forall|i: int| 0 <= i < self.sq().len() ==> f.requires((&#[trigger] self.sq()[i],)),
            forall|i: int, j: int, a: usize, b: usize| 0 <= i <= j < self.sq().len() && f.ensures((&#[trigger] self.sq()[i],), a) && f.ensures((&#[trigger] self.sq()[j],), b) ==> a <= b,
        ensures
            r matches Ok(i) ==> i < self.sq().len() && f.ensures((&self.sq()[i as int],), *k),
            r matches Err(i) ==> i <= self.sq().len()
                && (forall|j: int| 0 <= j < i ==> key_lt(f, #[trigger] self.sq()[j], *k))
                && (forall|j: int| i <= j < self.sq().len() ==> key_gt(f, #[trigger] self.sq()[j], *k));
}
impl<T> VpSearch<T> for Vec<T> {
    spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_binary_search_by_key<F: Fn(&T) -> usize>(&self, k: &usize, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}

type Entries = Seq<(usize, SourceLine)>;
spec fn sorted(m: Entries) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 < (#[trigger] m[j]).0 }
/// The last entry that is not past line `k`, or -1.
spec fn at(m: Entries, k: int) -> int decreases m.len() { if m.len() == 0 { -1 } else if m.last().0 <= k { m.len() - 1 } else { at(m.drop_last(), k) } }
/// Where line `k` came from: so many lines after its entry; itself, if it has none.
spec fn file_at(m: Entries, k: int) -> Option<Seq<char>> { if at(m, k) < 0 { None } else { match m[at(m, k)].1.0 { Some(s) => Some(s@), None => None } } }
spec fn line_at(m: Entries, k: int) -> int { if at(m, k) < 0 { k } else { m[at(m, k)].1.1 + k - m[at(m, k)].0 } }

proof fn lemma_at(m: Entries, k: int)
    requires sorted(m)
    ensures
        -1 <= at(m, k) < m.len(), at(m, k) >= 0 ==> m[at(m, k)].0 <= k,
        forall|j: int| at(m, k) < j < m.len() ==> (#[trigger] m[j]).0 > k,
        forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 <= k && (forall|j: int| i < j < m.len() ==> (#[trigger] m[j]).0 > k) ==> at(m, k) == i,
        (forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).0 > k) ==> at(m, k) == -1,
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        if m.last().0 > k {
            assert(sorted(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(m[i].0 < m[j].0); } }
            lemma_at(d, k);
            let a = at(d, k);
            assert(a >= 0 ==> d[a] == m[a]);
            assert forall|j: int| a < j < m.len() implies (#[trigger] m[j]).0 > k by { if j < d.len() { assert(d[j].0 > k); } }
        }
    }
}

//@fn parser/source_map.rs | SourceMap::append
//@ spec:
    ensures final(self).0@ =~= old(self).0@.push((preprocessed_line, source_line))
//@end

//@fn parser/source_map.rs | SourceMap::original_file_and_line
//@ spec:
    requires sorted(self.0@), forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).1.1 + key <= usize::MAX
    ensures
        r is Some, (r->0).1 == line_at(self.0@, key as int),
        match (r->0).0 { Some(s) => Some(s@), None => None } == file_at(self.0@, key as int)
//@ start:
    proof { lemma_at(self.0@, key as int); }
//@ closure 0 params: p: &(usize, SourceLine)
//@ closure 0 bind: let (k, _) = p;
//@ closure 0:
    -> (o: usize) ensures o == p.0
//@ closure 1 params: p: &(usize, SourceLine)
//@ closure 1 bind: let (_k, v) = p;
//@ closure 1:
    -> (o: SourceLine) ensures p.1.same(o)
//@ closure 2 params: p: &(usize, SourceLine)
//@ closure 2 bind: let (k, v) = p;
//@ closure 2:
    -> (o: SourceLine) requires p.0 <= key, p.1.1 + key <= usize::MAX ensures o.1 == p.1.1 + key - p.0, p.1.0.same(o.0)
//@end
