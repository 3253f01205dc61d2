// --- C14: web paths ---------------------------------------------------------------------
//@type parser/path_resolver.rs | PathResolver
//@type parser/path_resolver.rs | WebPath

/// How long the URI prefix of a text is (0: it has none); by a regular expression.
uninterp spec fn uri_len(s: Seq<char>) -> int;
axiom fn axiom_uri(s: Seq<char>)
    ensures 0 <= uri_len(s) <= s.len(), uri_len(s) > 0 ==> s.contains(':');
struct VpUriSniff;
#[verifier::external_body]
struct VpMatch { x: usize }
impl VpUriSniff {
    #[verifier::external_body]
    fn find(&self, s: &str) -> (r: Option<VpMatch>)
        ensures (r is Some) == (uri_len(s@) > 0), r is Some ==> (r->0).m() == s@.take(uri_len(s@))
    { unimplemented!() }
}
impl VpMatch {
    uninterp spec fn m(&self) -> Seq<char>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == encode_utf8(self.m()).len() { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self.m() { unimplemented!() }
}

/// The platform's separators as slashes.
spec fn posix(r: PathResolver, s: Seq<char>) -> Seq<char> { if r.file_separator == '\\' { repl(s, '\\', seq!['/']) } else { s } }
spec fn absolute(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' }
spec fn root_of(s: Seq<char>) -> Option<Seq<char>> {
    if absolute(s) { Some("/"@) } else if starts(s, "./"@) { Some("./"@) } else { None }
}
spec fn otx(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => Seq::empty() } }
spec fn below(s: Seq<char>) -> Seq<char> { s.skip(otx(root_of(s)).len() as int) }
spec fn not_dot() -> spec_fn(Seq<char>) -> bool { |x: Seq<char>| x != "."@ }
spec fn segs(s: Seq<char>) -> Seq<Seq<char>> { split(below(s), '/').filter(not_dot()) }

/// What a path denotes: the steps up from its root, then the names below.
spec fn den(root: Option<Seq<char>>, l: Seq<Seq<char>>) -> (nat, Seq<Seq<char>>) decreases l.len() {
    if l.len() == 0 { (0, Seq::empty()) } else {
        let (u, n) = den(root, l.drop_last());
        let s = l.last();
        if s == ".."@ { if n.len() > 0 { (u, n.drop_last()) } else if root == Some("/"@) { (u, n) } else { (u + 1, n) } }
        // Nothing to descend from: a leading slash would mean the root.
        else if s.len() == 0 && n.len() == 0 && u == 0 && root is None { (u, n) }
        else { (u, n.push(s)) }
    }
}
spec fn ups(u: nat) -> Seq<Seq<char>> { Seq::new(u, |i: int| ".."@) }
spec fn canon(d: (nat, Seq<Seq<char>>)) -> Seq<Seq<char>> { ups(d.0) + d.1 }
spec fn esc(s: Seq<char>) -> Seq<char> { repl(s, ' ', "%20"@) }
/// The canonical form of a path: its root, the steps up, the names.
spec fn normal(s: Seq<char>) -> Seq<char> { esc(otx(root_of(s)) + join(canon(den(root_of(s), segs(s))), '/')) }

/// The path that `t` names from `s`.
spec fn joined(r: PathResolver, t: Seq<char>, s: Option<Seq<char>>) -> Seq<char> {
    if s is None || absolute(posix(r, t)) { posix(r, t) }
    else { posix(r, s->0) + (if ends(posix(r, s->0), seq!['/']) { Seq::empty() } else { seq!['/'] }) + posix(r, t) }
}
spec fn prefix_len(r: PathResolver, t: Seq<char>, s: Option<Seq<char>>) -> int {
    if s is None || absolute(posix(r, t)) || uri_len(joined(r, t, s)) <= 0 { 0 } else { uri_len(joined(r, t, s)) }
}
spec fn resolved(r: PathResolver, t: Seq<char>, s: Option<Seq<char>>) -> Seq<char> {
    let j = joined(r, t, s);
    let n = prefix_len(r, t, s);
    j.take(n) + normal(posix(r, j.skip(n)))
}

//@fn parser/path_resolver.rs | PathResolver::posixify
//@ spec:
    ensures r@ == posix(*self, path@)
//@ start:
    proof { lemma_repl_none(path@, '\\', seq!['/']); }
//@end

//@fn parser/path_resolver.rs | PathResolver::is_web_root
//@ spec:
    ensures r == absolute(path@)
//@ start:
    proof { lemma_starts(path@); }
//@end

//@fn parser/path_resolver.rs | extract_uri_prefix
//@ spec:
    ensures
        uri_len(s@) > 0 ==> r.0@ == s@.skip(uri_len(s@)) && r.1 is Some && (r.1->0)@ == s@.take(uri_len(s@)),
        uri_len(s@) <= 0 ==> r.0@ == s@ && r.1 is None,
//@ start:
    proof { axiom_uri(s@); lemma_cut(s@); assert(off(s@, uri_len(s@)) == encode_utf8(s@.take(uri_len(s@))).len()); }
//@end

//@fn parser/path_resolver.rs | PathResolver::join_path
//@ spec:
    ensures r@ == (match root { Some(x) => x@, None => Seq::empty() }) + join(views(segments@), '/')
//@end

//@fn parser/path_resolver.rs | PathResolver::partition_path
//@ spec:
    requires web.0
    ensures
        views(r.0@) == segs(posix(*self, path@)),
        (match r.1 { Some(x) => Some(x@), None => None }) == root_of(posix(*self, path@)),
//@ start:
    proof { lemma_off_ascii(posix(*self, path@)); lemma_cut(posix(*self, path@)); lemma_starts(posix(*self, path@)); assert(posix(*self, path@).skip(0) =~= posix(*self, path@)); }
//@ closure 0 params: s: &&str
//@ closure 0:
    -> (o: bool) ensures o == ((*s)@ != "."@)
//@ closure 1 params: s: &str
//@ closure 1:
    -> (o: String) ensures o@ == s@
//@end

//@fn parser/path_resolver.rs | PathResolver::web_path
//@ spec:
    ensures r@ == resolved(*self, target@, match start { Some(s) => Some(s@), None => None })
//@ closure 0 params: start: &str
//@ closure 0:
    -> (o: String) ensures o@ == posix(*self, start@)
//@ closure 1 params: s: &String
//@ closure 1:
    -> (o: &str) ensures o@ == (if ends(s@, seq!['/']) { Seq::empty() } else { seq!['/'] })
//@ start:
    let ghost t0 = target@;
    let ghost s0 = match start { Some(s) => Some(s@), None => None::<Seq<char>> };
    proof {}
//@ loop 0 iter: vp_into_iter($e)
//@ loop 0 pre:
    let ghost s1 = __it0.s();
//@ loop 0:
    invariant
        0 <= __it0.k() <= __it0.s().len(), __it0.s() == s1,
        views(resolved_segments@) =~= canon(den(otext(target_root), views(__it0.s()).take(__it0.k()))),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof {
        let l = views(__it0.s()).take(__it0.k());
        assert(l.drop_last() =~= views(__it0.s()).take(__it0.k() - 1));
        assert(l.last() == segment@);
        lemma_step(otext(target_root), l);
    }
    let ghost before = resolved_segments@;
//@ loop 0 end:
    proof {
        assert(views(resolved_segments@) =~= views(before) || resolved_segments@.len() == before.len() + 1 && views(resolved_segments@) =~= views(before).push(resolved_segments@.last()@) || before.len() > 0 && views(resolved_segments@) =~= views(before).drop_last());
    }
//@ loop 0 exit:
    proof { assert(views(__it0.s()).take(__it0.k()) =~= views(__it0.s())); }
//@ before let resolved_path:
    proof {
        let j = joined(*self, t0, s0);
        let n = prefix_len(*self, t0, s0);
        let t1 = if s0 is None || absolute(posix(*self, t0)) { posix(*self, t0) } else { j.skip(n) };
        axiom_uri(j);
        assert(j.skip(0) =~= j);
        assert(j.take(0) =~= Seq::<char>::empty());
        assert(otx(otext(uri_prefix)) =~= j.take(n));
        assert(otext(target_root) == root_of(posix(*self, j.skip(n))));
        assert(views(resolved_segments@) =~= canon(den(root_of(posix(*self, j.skip(n))), segs(posix(*self, j.skip(n))))));
    }
//@ exit:
    assert(__vp_r@ =~= resolved(*self, t0, s0));
//@end
spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }

proof fn lemma_repl_none(s: Seq<char>, c: char, t: Seq<char>)
    ensures !s.contains(c) ==> repl(s, c, t) =~= s
    decreases s.len()
{
    if !s.contains(c) && s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() implies s[i] != c by {}
        let d = s.drop_last();
        assert(!d.contains(c)) by { assert forall|i: int| 0 <= i < d.len() implies d[i] != c by { assert(d[i] == s[i]); } }
        lemma_repl_none(d, c, t);
        assert(s.last() != c);
    }
}
proof fn lemma_off_ascii(s: Seq<char>)
    ensures off(s, 0) == 0, s.len() >= 1 && (s[0] as u32) < 128 ==> off(s, 1) == 1, s.len() >= 2 && (s[0] as u32) < 128 && (s[1] as u32) < 128 ==> off(s, 2) == 2
{
    lemma_off(s, 0);
    if s.len() >= 1 { lemma_off_next(s, 0); }
    if s.len() >= 2 { lemma_off_next(s, 1); }
}

proof fn lemma_starts(s: Seq<char>)
    ensures
        starts(s, seq!['/']) == absolute(s),
        forall|p: Seq<char>, i: int| #[trigger] starts(s, p) && 0 <= i < p.len() ==> s[i] == #[trigger] p[i],
{
    if absolute(s) { assert(s.take(1) =~= seq!['/']); }
    if starts(s, seq!['/']) { assert(s.take(1)[0] == s[0]); }
    assert forall|p: Seq<char>, i: int| #[trigger] starts(s, p) && 0 <= i < p.len() implies s[i] == #[trigger] p[i] by { assert(s.take(p.len() as int)[i] == s[i]); }
}
/// The names are neither steps up nor dots; from the root, there is no step up.
proof fn lemma_den(root: Option<Seq<char>>, l: Seq<Seq<char>>)
    ensures
        root == Some("/"@) ==> den(root, l).0 == 0,
        forall|i: int| 0 <= i < den(root, l).1.len() ==> #[trigger] den(root, l).1[i] != ".."@ && l.contains(den(root, l).1[i]),
        root is None && den(root, l).0 == 0 && den(root, l).1.len() > 0 ==> den(root, l).1[0].len() > 0,
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        lemma_den(root, d);
        assert forall|x: Seq<char>| d.contains(x) implies l.contains(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(l[i] == x); }
        assert(l[l.len() - 1] == l.last());
        let n = den(root, d).1;
        assert forall|i: int| 0 <= i < den(root, l).1.len() implies #[trigger] den(root, l).1[i] != ".."@ && l.contains(den(root, l).1[i]) by { if i < n.len() { assert(den(root, l).1[i] == n[i]); } }
        if root is None && den(root, l).0 == 0 && den(root, l).1.len() > 0 { if n.len() > 0 { assert(den(root, l).1[0] == n[0]); } }
    }
}
/// One more segment, on the canonical form.
proof fn lemma_step(root: Option<Seq<char>>, l: Seq<Seq<char>>)
    requires l.len() > 0
    ensures ({
        let c = canon(den(root, l.drop_last()));
        let z = canon(den(root, l));
        let s = l.last();
        if s == ".."@ {
            if c.len() == 0 { if root == Some("/"@) { z =~= c } else { z =~= c.push(s) } }
            else if c.last() == ".."@ { z =~= c.push(s) }
            else { z =~= c.drop_last() }
        } else if s.len() == 0 && c.len() == 0 && root is None { z =~= c }
        else { z =~= c.push(s) }
    })
{
    lemma_den(root, l.drop_last());
    let (u, n) = den(root, l.drop_last());
    let c = canon((u, n));
    if n.len() > 0 { assert(c.last() == n.last()); assert(n[n.len() - 1] == n.last()); }
    else if u > 0 { assert(c.last() == ".."@); }
}

// --- the canonical form is canonical ----------------------------------------------------
proof fn lemma_repl_add(a: Seq<char>, b: Seq<char>, c: char, t: Seq<char>)
    ensures repl(a + b, c, t) =~= repl(a, c, t) + repl(b, c, t)
    decreases b.len()
{
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_repl_add(a, b.drop_last(), c, t); }
    else { assert(a + b =~= a); }
}
proof fn lemma_repl_gone(s: Seq<char>, c: char, t: Seq<char>, x: char)
    requires !t.contains(x), x != c ==> !s.contains(x)
    ensures !repl(s, c, t).contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
        lemma_repl_gone(d, c, t, x);
        assert(s[s.len() - 1] == s.last());
        let (p, q) = (repl(d, c, t), if s.last() == c { t } else { seq![s.last()] });
        if (p + q).contains(x) { let i = choose|i: int| 0 <= i < (p + q).len() && (p + q)[i] == x; if i < p.len() { assert(p[i] == x); } else { assert(q[i - p.len()] == x); } }
    }
}
proof fn lemma_repl_len(s: Seq<char>, c: char, t: Seq<char>)
    requires t.len() > 0
    ensures s.len() <= repl(s, c, t).len(), s.contains(c) ==> t.len() <= repl(s, c, t).len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_repl_len(s.drop_last(), c, t);
        if s.contains(c) && s.last() != c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.drop_last()[i] == c); }
    }
}
/// What escaping leaves alone.
proof fn lemma_esc(w: Seq<char>)
    ensures
        !esc(w).contains(' '), esc(w).len() >= w.len(), esc(esc(w)) == esc(w),
        esc(w) == "."@ ==> w == "."@, esc(w) == ".."@ <==> w == ".."@, esc(w).len() == 0 <==> w.len() == 0,
        !w.contains('/') ==> !esc(w).contains('/'),
{
    reveal_strlit("%20"); reveal_strlit("."); reveal_strlit("..");
    let t = "%20"@;
    assert(t =~= seq!['%', '2', '0']);
    assert("."@ =~= seq!['.']);
    assert(".."@ =~= seq!['.', '.']);
    lemma_repl_gone(w, ' ', t, ' ');
    lemma_repl_none(esc(w), ' ', t);
    lemma_repl_len(w, ' ', t);
    if !w.contains(' ') { lemma_repl_none(w, ' ', t); }
    if !w.contains('/') { lemma_repl_gone(w, ' ', t, '/'); }
    if w == ".."@ { assert forall|i: int| 0 <= i < w.len() implies w[i] != ' ' by {} }
    if w.len() == 0 { assert(esc(w) =~= Seq::empty()); }
}
spec fn escs(l: Seq<Seq<char>>) -> Seq<Seq<char>> { l.map_values(|w: Seq<char>| esc(w)) }
proof fn lemma_repl_join(l: Seq<Seq<char>>)
    ensures esc(join(l, '/')) =~= join(escs(l), '/')
    decreases l.len()
{
    if l.len() == 1 { assert(escs(l)[0] == esc(l[0])); }
    if l.len() > 1 {
        let d = l.drop_last();
        lemma_repl_join(d);
        assert(escs(l).drop_last() =~= escs(d));
        assert(join(d, '/').push('/') =~= join(d, '/') + seq!['/']);
        lemma_repl_add(join(d, '/').push('/'), l.last(), ' ', "%20"@);
        lemma_repl_add(join(d, '/'), seq!['/'], ' ', "%20"@);
        reveal_with_fuel(repl, 3);
        assert(repl(seq!['/'], ' ', "%20"@) =~= seq!['/']);
        assert(join(d, '/').push('/') =~= join(d, '/') + seq!['/']);
    } else if l.len() == 0 { assert(escs(l).len() == 0); assert(esc(Seq::<char>::empty()) =~= Seq::empty()); }
}
spec fn plain(l: Seq<Seq<char>>, c: char) -> bool { forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).contains(c) }
proof fn lemma_split_plain(s: Seq<char>, c: char)
    ensures split(s, c).len() > 0, plain(split(s, c), c)
    decreases s.len()
{
    if s.len() > 0 {
        let p = split(s.drop_last(), c);
        lemma_split_plain(s.drop_last(), c);
        if s.last() != c {
            let q = p.last().push(s.last());
            assert(!p[p.len() - 1].contains(c));
            assert forall|i: int| 0 <= i < q.len() implies q[i] != c by { if i < q.len() - 1 { assert(q[i] == p.last()[i]); } }
        }
    }
}
/// Splitting at `c` after some `c` and a word.
proof fn lemma_split_push(a: Seq<char>, w: Seq<char>, c: char)
    requires !w.contains(c)
    ensures split(a.push(c) + w, c) =~= split(a, c).push(w)
    decreases w.len()
{
    let s = a.push(c) + w;
    if w.len() == 0 { assert(s =~= a.push(c)); assert(s.drop_last() =~= a); assert(w =~= Seq::empty()); }
    else {
        let v = w.drop_last();
        assert(s.drop_last() =~= a.push(c) + v);
        assert(w[w.len() - 1] == w.last());
        if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; assert(w[i] == c); }
        lemma_split_push(a, v, c);
        assert(v.push(w.last()) =~= w);
        assert(s.last() == w.last());
    }
}
proof fn lemma_split_word(w: Seq<char>, c: char)
    requires !w.contains(c)
    ensures split(w, c) =~= seq![w]
    decreases w.len()
{
    if w.len() > 0 {
        let v = w.drop_last();
        assert(w[w.len() - 1] == w.last());
        if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; assert(w[i] == c); }
        lemma_split_word(v, c);
        assert(v.push(w.last()) =~= w);
    } else { assert(w =~= Seq::empty()); }
}
/// Splitting undoes joining.
proof fn lemma_split_join(l: Seq<Seq<char>>, c: char)
    requires l.len() > 0, plain(l, c)
    ensures split(join(l, c), c) =~= l
    decreases l.len()
{
    if l.len() == 1 { lemma_split_word(l[0], c); }
    else {
        let d = l.drop_last();
        assert(plain(d, c)) by { assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i]).contains(c) by { assert(d[i] == l[i]); } }
        lemma_split_join(d, c);
        assert(l[l.len() - 1] == l.last());
        lemma_split_push(join(d, c), l.last(), c);
    }
}
proof fn lemma_filter_all(l: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool)
    requires forall|i: int| 0 <= i < l.len() ==> p(#[trigger] l[i])
    ensures l.filter(p) =~= l
    decreases l.len()
{
    reveal(Seq::filter);
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) by { assert(d[i] == l[i]); }
        lemma_filter_all(d, p);
        assert(p(l[l.len() - 1]));
    }
}
proof fn lemma_filter_in(l: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool, x: Seq<char>)
    ensures l.filter(p).contains(x) ==> l.contains(x) && p(x)
    decreases l.len()
{
    reveal(Seq::filter);
    if l.len() > 0 && l.filter(p).contains(x) {
        let d = l.drop_last();
        lemma_filter_in(d, p, x);
        let i = choose|i: int| 0 <= i < l.filter(p).len() && l.filter(p)[i] == x;
        if p(l.last()) && i == l.filter(p).len() - 1 { assert(l[l.len() - 1] == x); }
        else { assert(d.filter(p)[i] == x); assert(d.contains(x)); let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(l[j] == x); }
    }
}
/// A canonical form denotes what it is made of.
proof fn lemma_den_canon(root: Option<Seq<char>>, u: nat, m: Seq<Seq<char>>)
    requires
        root == Some("/"@) ==> u == 0,
        forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] != ".."@,
        root is None && u == 0 && m.len() > 0 ==> m[0].len() > 0,
    ensures den(root, canon((u, m))) == (u, m)
    decreases m.len(), u
{
    let l = canon((u, m));
    if m.len() > 0 {
        let d = m.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != ".."@ by { assert(d[i] == m[i]); }
        assert(l.drop_last() =~= canon((u, d)));
        lemma_den_canon(root, u, d);
        assert(l.last() == m[m.len() - 1]);
        assert(d.push(m.last()) =~= m);
    } else if u > 0 {
        assert(l.drop_last() =~= canon(((u - 1) as nat, m)));
        assert(l.last() == ".."@);
        lemma_den_canon(root, (u - 1) as nat, m);
    } else { assert(l.len() == 0); assert(m =~= Seq::empty()); }
}

spec fn good(e: Seq<Seq<char>>, u: nat) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != "."@ && !e[i].contains('/') && (e[i] == ".."@ ==> i < u) }
spec fn form(s: Seq<char>) -> Seq<Seq<char>> { escs(canon(den(root_of(s), segs(s)))) }
proof fn lemma_form(s: Seq<char>)
    ensures
        good(form(s), den(root_of(s), segs(s)).0),
        form(s) == canon((den(root_of(s), segs(s)).0, escs(den(root_of(s), segs(s)).1))),
        normal(s) == otx(root_of(s)) + join(form(s), '/'),
        !normal(s).contains(' '), esc(normal(s)) == normal(s),
        absolute(s) ==> den(root_of(s), segs(s)).0 == 0,
        root_of(s) is None && form(s).len() > 0 ==> form(s)[0].len() > 0,
        forall|i: int| 0 <= i < escs(den(root_of(s), segs(s)).1).len() ==> #[trigger] escs(den(root_of(s), segs(s)).1)[i] != ".."@,
        root_of(s) is None && den(root_of(s), segs(s)).0 == 0 && escs(den(root_of(s), segs(s)).1).len() > 0 ==> escs(den(root_of(s), segs(s)).1)[0].len() > 0,
{
    lits();
    let r = root_of(s);
    let l = segs(s);
    let d = den(r, l);
    let c = canon(d);
    let e = form(s);
    let t = "%20"@;
    lemma_den(r, l);
    lemma_split_plain(below(s), '/');
    assert forall|i: int| 0 <= i < d.1.len() implies #[trigger] d.1[i] != "."@ && !d.1[i].contains('/') && d.1[i] != ".."@ by {
        assert(l.contains(d.1[i]));
        lemma_filter_in(split(below(s), '/'), not_dot(), d.1[i]);
        let j = choose|j: int| 0 <= j < split(below(s), '/').len() && split(below(s), '/')[j] == d.1[i];
        assert(!split(below(s), '/')[j].contains('/'));
    }
    let m = escs(d.1);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] != ".."@ && m[i] != "."@ && !m[i].contains('/') by { lemma_esc(d.1[i]); assert(d.1[i] != ".."@); }
    assert(e =~= canon((d.0, m))) by {
        lemma_esc(".."@);
        assert forall|i: int| 0 <= i < e.len() implies e[i] == canon((d.0, m))[i] by { if i >= d.0 { assert(c[i] == d.1[i - d.0]); } }
    }
    assert(!(".."@).contains('/'));
    assert(".."@ != "."@) by { assert(".."@.len() == 2 && "."@.len() == 1); }
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != "."@ && !e[i].contains('/') && (e[i] == ".."@ ==> i < d.0) by { if i >= d.0 { assert(e[i] == m[i - d.0]); } else { assert(e[i] == ".."@); } }
    if r is None && e.len() > 0 { if d.0 > 0 { assert(e[0] == ".."@); } else { assert(e[0] == m[0]); lemma_esc(d.1[0]); } }
    if m.len() > 0 { lemma_esc(d.1[0]); assert(m[0] == esc(d.1[0])); }
    lemma_esc(otx(r) + join(c, '/'));
    lemma_repl_add(otx(r), join(c, '/'), ' ', t);
    lemma_repl_none(otx(r), ' ', t);
    assert(!otx(r).contains(' '));
    lemma_repl_join(c);
}
proof fn lits()
    ensures "/"@ =~= seq!['/'], "./"@ =~= seq!['.', '/'], "."@ =~= seq!['.'], ".."@ =~= seq!['.', '.'], "%20"@ =~= seq!['%', '2', '0']
{ reveal_strlit("/"); reveal_strlit("./"); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("%20"); }
proof fn lemma_root(r: Option<Seq<char>>, e: Seq<Seq<char>>, u: nat)
    requires good(e, u), r is None || r == Some("/"@) || r == Some("./"@), r is None && e.len() > 0 ==> e[0].len() > 0
    ensures root_of(otx(r) + join(e, '/')) == r, below(otx(r) + join(e, '/')) == join(e, '/')
{
    lits();
    let x = otx(r) + join(e, '/');
    lemma_starts(x);
    if r is None {
        assert(x =~= join(e, '/'));
        if e.len() > 0 {
            lemma_join_first(e, '/');
            assert(x[0] == e[0][0]) by { assert(x.take(e[0].len() as int)[0] == x[0]); }
            assert(!e[0].contains('/'));
            assert(e[0][0] != '/');
            if starts(x, "./"@) {
                assert(x[0] == '.' && x[1] == '/') by { assert("./"@[0] == '.' && "./"@[1] == '/'); }
                if e[0].len() > 1 { assert(x.take(e[0].len() as int)[1] == x[1]); assert(e[0][1] != '/'); } else { assert(e[0] =~= "."@); }
            }
        } else { assert(x =~= Seq::empty()); }
    } else if r == Some("./"@) {
        assert(x[0] == '.');
        assert(x.take(2) =~= "./"@);
    } else { assert(x[0] == '/'); }
    assert(root_of(x) == r);
    assert(below(x) =~= join(e, '/'));
}

/// The normal form of any path: free of spaces, absolute exactly if the path is, and its own normal form;
/// its segments are the steps up that can't be reduced, then names: none is a dot, none steps back over a name.
proof fn lemma_normal(s: Seq<char>)
    ensures
        !normal(s).contains(' '),
        absolute(normal(s)) == absolute(s),
        normal(normal(s)) == normal(s),
        root_of(normal(s)) == root_of(s),
        form(s).len() > 0 ==> segs(normal(s)) == form(s),
        good(form(s), den(root_of(s), segs(s)).0),
        absolute(s) ==> den(root_of(s), segs(s)).0 == 0,
{
    lits();
    let r = root_of(s);
    let d = den(r, segs(s));
    let e = form(s);
    let x = normal(s);
    lemma_form(s);
    lemma_root(r, e, d.0);
    assert("/"@ != "./"@) by { assert("/"@.len() == 1 && "./"@.len() == 2); }
    assert(absolute(x) == absolute(s));
    if e.len() > 0 {
        assert(plain(e, '/'));
        lemma_split_join(e, '/');
        lemma_filter_all(e, not_dot());
        lemma_den_canon(r, d.0, escs(d.1));
        assert(segs(x) == e);
        assert(den(r, segs(x)) == (d.0, escs(d.1)));
        assert(normal(x) == esc(otx(r) + join(e, '/')));
    } else {
        let z = split(below(x), '/');
        assert(below(x) =~= Seq::empty());
        assert(z =~= seq![Seq::<char>::empty()]);
        assert("."@.len() == 1);
        lemma_filter_all(z, not_dot());
        assert(segs(x) =~= z);
        reveal_with_fuel(den, 3);
        assert(z.drop_last() =~= Seq::empty());
        assert(z.last().len() == 0 && ".."@.len() == 2);
        if r is None { assert(canon(den(r, z)) =~= Seq::empty()); }
        else { assert(canon(den(r, z)) =~= z); assert(join(z, '/') =~= Seq::empty()); }
    }
}
proof fn lemma_join_first(l: Seq<Seq<char>>, c: char)
    requires l.len() > 0
    ensures join(l, c).len() >= l[0].len(), join(l, c).take(l[0].len() as int) =~= l[0], l.len() > 1 ==> join(l, c).len() > l[0].len() && join(l, c)[l[0].len() as int] == c
    decreases l.len()
{
    if l.len() > 1 {
        let d = l.drop_last();
        lemma_join_first(d, c);
        let a = join(d, c);
        let j = join(l, c);
        assert(j =~= a.push(c) + l.last());
        assert(j.take(l[0].len() as int) =~= a.take(l[0].len() as int));
        if d.len() == 1 { assert(a == l[0]); assert(j[a.len() as int] == c); } else { assert(j[l[0].len() as int] == a[l[0].len() as int]); }
    } else { assert(l[0].take(l[0].len() as int) =~= l[0]); }
}
/// So a resolved path stays as it is when resolved again by itself, and is absolute exactly if its target is, or is relative to a start that is.
proof fn lemma_resolved(r: PathResolver, t: Seq<char>, s: Option<Seq<char>>)
    ensures
        ({
            let j = joined(r, t, s);
            let n = prefix_len(r, t, s);
            let rest = resolved(r, t, s).skip(n);
            &&& resolved(r, t, s).take(n) == j.take(n)
            &&& normal(rest) == rest
            &&& absolute(rest) == absolute(posix(r, j.skip(n)))
            &&& s is None ==> n == 0
        })
{
    let j = joined(r, t, s);
    let n = prefix_len(r, t, s);
    axiom_uri(j);
    let x = normal(posix(r, j.skip(n)));
    lemma_normal(posix(r, j.skip(n)));
    assert((j.take(n) + x).skip(n) =~= x);
    assert((j.take(n) + x).take(n) =~= j.take(n));
}
