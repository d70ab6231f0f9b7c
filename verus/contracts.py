TYPES = ["ToKserdErr", "Kstr", "Barr", "Number", "Value", "Kserd", "Navigator", "Node", "NodeInner", "NodeValue", "NodeIter", "SeqIter", "NamedIter", "KeyedIter", "Repr", "Fmt", "Formatter", "FmtError", "FormattingConfig", "IntoIntError", "Accessor", "InvalidId", "InvalidFieldName", "Encoder", ("Error", {"in": "encode/encoder.rs"}), ("Error", {"in": "encode/decoder.rs"}), "Decoder", "SeqLike", "TupleLike", "MapLike", "CntrLike"]
CONSTS = [("ds/kserd.rs", "INVALID")]
TRAITS = ["NumberType", "ToKserd"]
MODULES = [("encode/mod.rs", "encoder"), ("encode/mod.rs", "decoder")]
CONTRACTS = []


def fn(name, props, spec, body=(), **kw):
    CONTRACTS.append({"fn": name, "props": props, "spec": spec, "body": list(body), **kw})

NODE = "Node<'a, 'k, 'nav, 'node>"
INNER = "&'node NodeInner<'a, 'k>"

fn("Navigator::root", ["A01"], "requires self.inner@.len() > 0, ensures ret.node == self.inner@[0], ret.nav == self")
fn("Navigator::get", ["A01"], """ensures
    ret.is_some() == (index < self.inner@.len()),
    ret.is_some() ==> ret.unwrap().node == &self.inner@[index as int] && ret.unwrap().nav == self""",
   [("closure", 0, [INNER], NODE, "r => ensures r.node == $0, r.nav == self")])
fn("Navigator::len", ["A01"], "ensures ret == self.inner@.len()")
fn("Navigator::is_empty", ["A01"], "ensures ret == (self.inner@.len() == 0)")
fn("Navigator::nodes", ["A01"], """ensures
    ret.nav == self, ret.iter.remaining().len() == self.inner@.len(),
    forall|i: int| 0 <= i < self.inner@.len() ==> *(#[trigger] ret.iter.remaining()[i]) == self.inner@[i],
    ret.obeys_prophetic_iter_laws(), ret.decrease().is_some()""")
PICK = ["&Info2"], "Option<(usize, usize)>", """r => ensures r == (match $0.%s_idx_in_parent { Some(y) => Some((y, $0.idx)), None => None })"""
CHILDREN = "wf(ret.inner@), mirrors(ret.inner@), ret.inner@[0].kserd == root"
def pushing(n, more=""):
    return """iter => invariant
        rows_in(inner@) == rows0.push(t), rows0.len() == len, parent == Some(len), *node == t.it, iter.seq().len() * %d == nsub(t.it), %s
        to_list(stack@) =~= todo0 + back(t.it, len as int).take(%d * iter.index())""" % (n, more, n)
fn("Navigator::new", ["A01"], "ensures " + CHILDREN,
   [("loops", 7),
    ("hoist", "Info", """impl Pending for Info { open spec fn rec(self) -> (Option<usize>, Option<usize>, Option<usize>) { (self.parent, self.value_idx_in_parent, self.key_idx_in_parent) } }
        #[verifier::external_body]
        pub fn no_info() -> (r: Info) ensures r == (Info { parent: None, value_idx_in_parent: None, key_idx_in_parent: None }) { Info::default() }"""),
    ("subst", "Info::default()", "no_info()"),
    ("after", "let mut inner", ": Vec<NodeInner<'a, 'k>>"),
    ("before", "// first populate parent links", "proof_decl! { let ghost mut before = stack@; }\n"),
    ("loop", 0, """invariant before == stack@, walk(*root, rows_in(inner@), to_list(stack@)), numbered(inner@), inner@.len() < usize::MAX,
        forall|i: int| 0 <= i < inner@.len() ==> (#[trigger] inner@[i]).value_children@.len() == 0 && inner@[i].key_children@.len() == 0,
        inner@.len() > 0 ==> inner@[0].kserd == root
        ensures stack@.len() == 0"""),
    ("before", "let len = inner.len();", """proof_decl! {
        let ghost rows0 = rows_in(inner@);
        let ghost todo0 = to_list(stack@);
        let ghost t = to_list(before).last();
    }
    proof! {
        assert(to_list(before) =~= todo0.push(t));
        assert(todo0.push(t).drop_last() =~= todo0);
    }
    """),
    ("before", "let parent = Some(len);", """proof! {
        nodes_room(inner);
        assert(rows_in(inner@) =~= rows0.push(t));
        walk_step(*root, rows0, to_list(before));
    }
    """),
    ("loop", 1, pushing(1, "node.val is Tuple, node.val->Tuple_0 == *v, forall|x: int| 0 <= x < iter.seq().len() ==> #[trigger] iter.seq()[x] == iter.seq().len() - 1 - x,")),
    ("loop", 2, pushing(1, "node.val is Cntr, node.val->Cntr_0 == *v, forall|x: int| 0 <= x < iter.seq().len() ==> (#[trigger] iter.seq()[x]).0 == iter.seq().len() - 1 - x && *iter.seq()[x].1 == entries(*v)[iter.seq().len() - 1 - x].1,")),
    ("loop", 3, pushing(1, "node.val is Seq, node.val->Seq_0 == *v, forall|x: int| 0 <= x < iter.seq().len() ==> #[trigger] iter.seq()[x] == iter.seq().len() - 1 - x,")),
    ("loop", 4, pushing(2, """node.val is Map, node.val->Map_0 == *v, forall|x: int| 0 <= x < iter.seq().len() ==> (#[trigger] iter.seq()[x]).0 == iter.seq().len() - 1 - x
        && *iter.seq()[x].1.0 == entries(*v)[iter.seq().len() - 1 - x].0 && *iter.seq()[x].1.1 == entries(*v)[iter.seq().len() - 1 - x].1,""")),
    ("subst", "v.values().enumerate().rev()", "values_back(v)"),
    ("subst", "v.iter().enumerate().rev()", "entries_back(v)"),
    *[("endloop", l, """;proof! {
        let b = back(t.it, len as int);
        let x = iter.index() as int;
        assert(b.take(x + 1) =~= b.take(x).push(b[x]));
        assert(todo0 + b.take(x + 1) =~= (todo0 + b.take(x)).push(b[x]));
        assert(to_list(stack@) =~= (todo0 + b.take(x)).push(b[x]));
    }
    """) for l in (1, 2, 3)],
    ("endloop", 4, """proof! {
        let b = back(t.it, len as int);
        let x = 2 * iter.index() as int;
        assert(b.take(x + 1) =~= b.take(x).push(b[x]));
        assert(b.take(x + 2) =~= b.take(x + 1).push(b[x + 1]));
        assert(todo0 + b.take(x + 2) =~= (todo0 + b.take(x)).push(b[x]).push(b[x + 1]));
        assert(to_list(stack@) =~= (todo0 + b.take(x)).push(b[x]).push(b[x + 1]));
    }
    """),
    ("endloop", 0, """proof! {
        assert(back(t.it, len as int).take(nsub(t.it)) =~= back(t.it, len as int));
        assert(to_list(stack@) =~= todo0 + back(t.it, len as int));
        before = stack@;
    }
    """),
    ("hoist", "Info2", "impl Found for Info2 { open spec fn rec(self) -> (usize, Option<usize>, Option<usize>) { (self.idx, self.value_idx_in_parent, self.key_idx_in_parent) } }"),
    ("before", "let mut parent_map", """proof_decl! { let ghost rows = rows_in(inner@); }
        proof! { walk_ends(*root, rows, to_list(stack@)); }
        """),
    ("after", "let mut parent_map", ": HashMap<usize, Vec<Info2>>"),
    ("subst", ".entry(parent).or_insert_with(Vec::new).push(", ".push_at(parent, "),
    ("loop", 5, """iter => invariant
        rows == rows_in(inner@), good(rows), numbered(inner@), iter.seq().len() == inner@.len(),
        forall|x: int| 0 <= x < iter.seq().len() ==> *(#[trigger] iter.seq()[x]) == inner@[x],
        grouped(parent_map@, rows, iter.index() as int)"""),
    ("each", 6, "groups_of"),
    ("subst", ".filter_map", ".filter_map_of"),
    ("subst", ".collect::<Vec<(usize, usize)>>()", ".collect_list()"),
    ("wrap", "sort_by_key", "sort_by_key_of"), ("wrap", "extend", "extend_of"), ("subst", ".into_iter().map(", ".into_iter().map_of("),
    ("closure", 0) + (PICK[0], PICK[1], PICK[2] % "value"), ("closure", 1, ["usize"], "(usize, usize)", "r => ensures r == ($0, x.idx)"),
    ("closure", 4) + (PICK[0], PICK[1], PICK[2] % "key"), ("closure", 5, ["usize"], "(usize, usize)", "r => ensures r == ($0, x.idx)"),
    ("closure", 2, ["&(usize, usize)"], "usize", "r => ensures r == $0.0"), ("closure", 6, ["&(usize, usize)"], "usize", "r => ensures r == $0.0"),
    ("closure", 3, ["(usize, usize)"], "usize", "r => ensures r == $0.1"), ("closure", 7, ["(usize, usize)"], "usize", "r => ensures r == $0.1"),
    ("subst", "debug_assert!", "unchecked!"),
    ("before", "for (parent, info_vec) in parent_map", "proof_decl! { let ghost groups = parent_map@; }\n"),
    ("loop", 6, """iter => invariant
        rows == rows_in(inner@), good(rows), complete(rows), numbered(inner@), inner@.len() > 0, inner@[0].kserd == root,
        grouped(groups, rows, rows.len() as int),
        forall|x: int| 0 <= x < iter.seq().len() ==> groups.contains_key((#[trigger] iter.seq()[x]).0) && groups[iter.seq()[x].0] == iter.seq()[x].1,
        forall|x: int, y: int| 0 <= x < y < iter.seq().len() ==> (#[trigger] iter.seq()[x]).0 != (#[trigger] iter.seq()[y]).0,
        forall|k: usize| #![trigger groups.contains_key(k)] #![trigger touched(iter.seq(), iter.seq().len() as int, k as int)] groups.contains_key(k) ==> touched(iter.seq(), iter.seq().len() as int, k as int),
        forall|i: int| 0 <= i < inner@.len() ==> half_linked(#[trigger] inner@[i], rows, i, touched(iter.seq(), iter.index() as int, i), touched(iter.seq(), iter.index() as int, i))"""),
    ("before", "let mut value_children", """proof_decl! { let ghost was = inner@; let ghost b = kids_of(rows, parent as int); }
    proof! {
        assert(groups.contains_key(parent));
        member(rows, parent as int);
        kids_ok(rows, parent as int);
        assert(!touched(iter.seq(), iter.index() as int, parent as int));
        assert(half_linked(was[parent as int], rows, parent as int, false, false));
    }
    """),
    *[("before", "%s_children.sort_by_key" % n, """proof! {
        let outs = choose|outs: Seq<Option<(usize, usize)>>| %s_children@ == #[trigger] somes(outs) && %s_answers(outs, rows, b);
        picked(outs, rows, parent as int, %s);
    }
    """ % (n, n, v)) for n, v in (("value", "true"), ("key", "false"))],
    ("before", "let mut key_children", """proof! {
        assert(inner@[parent as int].value_children@ =~= value_kids(rows, parent as int));
        assert(rows =~= rows_in(inner@));
    }
    """),
    ("endloop", 6, """proof! {
        assert(inner@[parent as int].key_children@ =~= key_kids(rows, parent as int));
        assert(rows =~= rows_in(inner@));
        assert(iter.seq()[iter.index() as int].0 == parent);
        assert forall|i: int| 0 <= i < inner@.len() implies half_linked(#[trigger] inner@[i], rows, i, touched(iter.seq(), iter.index() + 1, i), touched(iter.seq(), iter.index() + 1, i)) by {
            let n = iter.index() as int;
            assert(half_linked(was[i], rows, i, touched(iter.seq(), n, i), touched(iter.seq(), n, i)));
            if i == parent {} else {
                assert(inner@[i] == was[i]);
                if touched(iter.seq(), n + 1, i) { assert(touched(iter.seq(), n, i)); }
                if touched(iter.seq(), n, i) { let x = choose|x: int| 0 <= x < n && (#[trigger] iter.seq()[x]).0 == i; assert(iter.seq()[x].0 == i); }
            }
        }
    }
    """),
    ("before", "let ret = Self { inner };", """proof! {
        assert forall|i: int| 0 <= i < inner@.len() implies #[trigger] linked(inner@[i], rows, i) by { assert((i as usize) as int == i); if groups.contains_key(i as usize) {} all_linked(groups, inner@, rows, i); }
        built(inner@, rows);
    }
    """),
   ], attrs=["#[verifier::exec_allows_no_decreases_clause]"])
fn("Node::nav", ["A01"], "ensures ret == self.nav")
fn("Node::index", ["A01"], "ensures ret == self.node.idx")
fn("Node::parent", ["A01"], """ensures
    self.node.parent.is_none() ==> ret.is_none(),
    self.node.parent.is_some() ==> ret.is_some() == (self.node.parent.unwrap() < self.nav.inner@.len()),
    ret.is_some() ==> ret.unwrap().node == &self.nav.inner@[self.node.parent.unwrap() as int] && ret.unwrap().nav == self.nav""",
   [("closure", 0, ["usize"], "Option<" + NODE + ">", """r => ensures
        r.is_some() == ($0 < self.nav.inner@.len()),
        r.is_some() ==> r.unwrap().node == &self.nav.inner@[$0 as int] && r.unwrap().nav == self.nav""")])
fn("Node::is_key", ["A01"], "ensures ret == self.node.key_idx_in_parent.is_some()")
fn("Node::idx_in_parent", ["A01"], """ensures ret == (match self.node.key_idx_in_parent {
        Some(x) => x,
        None => match self.node.value_idx_in_parent { Some(x) => x, None => 0 },
    })""")
fn("Node::kserd", ["A01"], "ensures ret == self.node.kserd")
fn("Node::descendants_depth", ["A02"], """
    requires wf(self.nav.inner@), self.node.idx < self.nav.inner@.len(), self.node == &self.nav.inner@[self.node.idx as int]
    ensures
        ret@.len() == end(self.nav.inner@, self.node.idx as int) - self.node.idx - 1,
        forall|j: int| 0 <= j < ret@.len() ==> ret@[j].nav == self.nav && ret@[j].node == &self.nav.inner@[self.node.idx + 1 + j]""",
   [("fn", "push_children", """
        requires node.key_children@.len() == 0 || node.key_children@.len() == node.value_children@.len()
        ensures
            final(stack)@.len() == old(stack)@.len() + nkids(*node),
            forall|k: int| 0 <= k < old(stack)@.len() ==> final(stack)@[k] == old(stack)@[k],
            forall|k: int| old(stack)@.len() <= k < final(stack)@.len() ==> #[trigger] final(stack)@[k] == kid(*node, final(stack)@.len() - 1 - k)"""),
    ("loops", 2),
    ("after", "let mut nodes", ": Vec<Self>"),
    ("loop", 0, """iter => invariant
            iter.seq().len() == node.value_children@.len(),
            forall|j: int| 0 <= j < iter.seq().len() ==> #[trigger] iter.seq()[j] == iter.seq().len() - 1 - j,
            node.key_children@.len() == 0 || node.key_children@.len() == node.value_children@.len(),
            stack@.len() == old(stack)@.len() + upto(*node, iter.index() as int),
            forall|k: int| 0 <= k < old(stack)@.len() ==> stack@[k] == old(stack)@[k],
            forall|k: int| nkids(*node) - upto(*node, iter.index() as int) <= k < nkids(*node) ==>
                stack@[old(stack)@.len() + nkids(*node) - 1 - k] == #[trigger] kid(*node, k)"""),
    ("loop", 1, """invariant
            wf(self.nav.inner@), self.node.idx < self.nav.inner@.len(), self.node == &self.nav.inner@[self.node.idx as int],
            todo@.len() == 0 ==> self.node.idx + 1 + nodes@.len() == end(self.nav.inner@, self.node.idx as int),
            todo@.len() > 0 ==> todo@.last() == self.node.idx + 1 + nodes@.len()
                && end(self.nav.inner@, todo@[0] as int) == end(self.nav.inner@, self.node.idx as int),
            forall|k: int, l: int| #![trigger todo@[k], todo@[l]] 0 <= k && l == k + 1 && l < todo@.len() ==> todo@[k] == end(self.nav.inner@, todo@[l] as int),
            forall|k: int| 0 <= k < todo@.len() ==> #[trigger] todo@[k] < self.nav.inner@.len(),
            forall|j: int| 0 <= j < nodes@.len() ==> nodes@[j].nav == self.nav && (#[trigger] nodes@[j]).node == &self.nav.inner@[self.node.idx + 1 + j]
        ensures todo@.len() == 0
        decreases self.nav.inner@.len() - nodes@.len()"""),
    ("start", "proof! { at(self.nav.inner@, self.node.idx as int); }\n"),
    ("before", "push_children(n, &mut todo);", "proof! { at(self.nav.inner@, i as int); }\n"),
   ])
fn("Node::descendants_breadth", ["A02"], """
    requires wf(self.nav.inner@), self.node.idx < self.nav.inner@.len(), self.node == &self.nav.inner@[self.node.idx as int]
    ensures
        exists|l: Seq<usize>| #[trigger] breadth(self.nav.inner@, self.node.idx as int, l) && ret@.len() == l.len()
            && forall|j: int| 0 <= j < l.len() ==> (#[trigger] ret@[j]).nav == self.nav && ret@[j].node == &self.nav.inner@[l[j] as int]""",
   [("fn", "children", "r => ensures yields(r) == brood_of(*node)"),
    ("loops", 1),
    ("wrap", "chain", "chain_of"), ("wrap", "cloned", "cloned_of"), ("subst", ".collect::<VecDeque<_>>()", ".collect_deque()"), ("wrap", "extend", "extend_back"),
    ("after", "let mut nodes", ": Vec<Self>"),
    ("before", "while let Some(i)", """proof_decl! { let ghost s = self.nav.inner@; let ghost me = self.node.idx as int; let ghost mut l: Seq<usize> = Seq::empty(); let ghost mut q = todo@; }
        proof! { at(s, me); total_brood(s, me); assert(l + q =~= brood_of(s[me]) + flat(s, l)); }
        """),
    ("loop", 0, """invariant
            wf(self.nav.inner@), self.node.idx < self.nav.inner@.len(), self.node == &self.nav.inner@[self.node.idx as int],
            s == self.nav.inner@, me == self.node.idx, q == todo@,
            nodes@.len() == l.len(),
            l + q == brood_of(s[me]) + flat(s, l),
            below_all(s, me, l), below_all(s, me, q),
            l.len() + total(s, q) == end(s, me) - me - 1,
            forall|j: int| 0 <= j < nodes@.len() ==> (#[trigger] nodes@[j]).nav == self.nav && nodes@[j].node == &s[l[j] as int]
        ensures todo@.len() == 0
        decreases end(self.nav.inner@, self.node.idx as int) - nodes@.len()"""),
    ("before", "nodes.push(", """proof! {
        total_first(s, q);
        assert(q[0] == i);
        end_range(s, me);
        end_range(s, i as int);
        total_some(s, me, q.skip(1));
    }
    """),
    ("endloop", 0, """proof! {
        at(s, i as int);
        let b = brood_of(s[i as int]);
        total_brood(s, i as int);
        total_sum(s, q.skip(1), b);
        assert(todo@ =~= q.skip(1) + b);
        assert(l.push(i).drop_last() =~= l);
        assert(l.push(i) + todo@ =~= l + q + b);
        assert(flat(s, l.push(i)) =~= flat(s, l) + b);
        assert(l.push(i) + todo@ =~= brood_of(s[me]) + flat(s, l.push(i)));
        below_sub(s, me, i as int);
        l = l.push(i);
        q = todo@;
    }
    """),
    ("afterloop", 0, "proof! { assert(l + q =~= l); breadth_all(s, me, l); }\n"),
   ])
VALUE_SPEC = """ensures
    match self.kserd.val {
        Value::Tuple(_) => ret matches NodeValue::Tuple(it) && it.nav == navigator && refs(it.seq.remaining(), self.value_children@),
        Value::Seq(_) => ret matches NodeValue::Seq(it) && it.nav == navigator && refs(it.seq.remaining(), self.value_children@),
        Value::Cntr(_) => ret matches NodeValue::Cntr(it) && it.nav == navigator && refs(it.values.remaining(), self.value_children@),
        Value::Map(_) => ret matches NodeValue::Map(it) && it.nav == navigator && refs(it.keys.remaining(), self.key_children@) && refs(it.values.remaining(), self.value_children@),
        _ => ret is Primitive,
    }"""
fn("NodeInner::value", ["A01"], VALUE_SPEC)
fn("Node::value", ["A01"], VALUE_SPEC.replace("self.", "self.node.").replace("== navigator", "== self.nav"))
fn("Node::value_children", ["A01"], "ensures refs(ret.seq.remaining(), self.node.value_children@), ret.nav == self.nav")
fn("Node::key_children", ["A01"], "ensures refs(ret.seq.remaining(), self.node.key_children@), ret.nav == self.nav")
fn("SeqIter::len", ["A01"], "ensures ret == self.seq.remaining().len()")
fn("SeqIter::is_empty", ["A01"], "ensures ret == (self.seq.remaining().len() == 0)")
fn("NamedIter::len", ["A01"], "ensures ret == self.values.remaining().len()")
fn("NamedIter::is_empty", ["A01"], "ensures ret == (self.values.remaining().len() == 0)")
fn("KeyedIter::len", ["A01"], "ensures ret == self.values.remaining().len()")
fn("KeyedIter::is_empty", ["A01"], "ensures ret == (self.values.remaining().len() == 0)")
fn("Iterator for NodeIter::next", ["A01"], """ensures
    final(self).nav == old(self).nav,
    old(self).iter.remaining().len() == 0 ==> ret.is_none(),
    old(self).iter.remaining().len() > 0 ==> ret.is_some() && ret.unwrap().node == old(self).iter.remaining()[0] && ret.unwrap().nav == old(self).nav
        && final(self).iter.remaining() == old(self).iter.remaining().skip(1)""",
   [("closure", 0, ["&'nav NodeInner<'a, 'k>"], "Node<'a, 'k, 'nav, 'nav>", "r => ensures r.node == $0, r.nav == self.nav")])
GET = ("closure", None, ["&usize"], "Option<&'node NodeInner<'a, 'k>>", """r => ensures
        r.is_some() == ($0 < self.nav.inner@.len()), r.is_some() ==> r.unwrap() == self.nav.inner@[$0 as int]""")
MK = ("closure", None, ["&'node NodeInner<'a, 'k>"], NODE, "r => ensures r.node == $0, r.nav == self.nav")


def nth(act, i):
    return (act[0], i) + act[2:]

fn("Iterator for SeqIter::next", ["A01"], """ensures
    final(self).nav == old(self).nav,
    old(self).seq.remaining().len() == 0 ==> ret.is_none(),
    old(self).seq.remaining().len() > 0 && *old(self).seq.remaining()[0] < old(self).nav.inner@.len() ==>
        (ret matches Some(n) && n.node == old(self).nav.inner@[*old(self).seq.remaining()[0] as int] && n.nav == old(self).nav
        && final(self).seq.remaining() == old(self).seq.remaining().skip(1))""", [nth(GET, 0), nth(MK, 1)])
fn("Iterator for KeyedIter::next", ["A01"], """ensures
    final(self).nav == old(self).nav,
    old(self).keys.remaining().len() == 0 ==> ret.is_none(),
    old(self).keys.remaining().len() > 0 && old(self).values.remaining().len() > 0
    && *old(self).keys.remaining()[0] < old(self).nav.inner@.len() && *old(self).values.remaining()[0] < old(self).nav.inner@.len() ==>
        (ret matches Some((k, v)) && k.node == old(self).nav.inner@[*old(self).keys.remaining()[0] as int] && k.nav == old(self).nav
        && v.node == old(self).nav.inner@[*old(self).values.remaining()[0] as int] && v.nav == old(self).nav
        && final(self).keys.remaining() == old(self).keys.remaining().skip(1)
        && final(self).values.remaining() == old(self).values.remaining().skip(1))""",
   [nth(GET, 0), nth(MK, 1), nth(GET, 2), nth(MK, 3), ("closure", 4, [NODE], "(" + NODE + ", " + NODE + ")", "r => ensures r.0 == key, r.1 == $0")])
fn("Iterator for NamedIter::next", ["A01"], """ensures
    final(self).nav == old(self).nav,
    old(self).names.remaining().len() == 0 ==> ret.is_none(),
    old(self).names.remaining().len() > 0 && old(self).values.remaining().len() > 0
    && *old(self).values.remaining()[0] < old(self).nav.inner@.len() ==>
        (ret matches Some((k, v)) && k == old(self).names.remaining()[0]
        && v.node == old(self).nav.inner@[*old(self).values.remaining()[0] as int] && v.nav == old(self).nav
        && final(self).names.remaining() == old(self).names.remaining().skip(1)
        && final(self).values.remaining() == old(self).values.remaining().skip(1))""",
   [nth(GET, 0), nth(MK, 1), ("closure", 2, [NODE], "(&'node Kstr<'k>, " + NODE + ")", "r => ensures r.0 == name, r.1 == $0")])

fn("validate_requst_repr", ["F01"], """ensures
    match ret {
        Ok(r) => r == requested && rank(requested) <= rank(max_allowed) && (parent matches Some(p) ==> rank(requested) <= rank(p)),
        Err(FmtError::RequestTooHigh(m, q)) => rank(requested) > rank(max_allowed) && m@ == name(max_allowed) && q@ == name(requested),
        Err(FmtError::ParentIsInline) => parent == Some(Repr::Inline) && rank(requested) > 0,
        Err(FmtError::ParentIsConcise) => parent == Some(Repr::Concise) && rank(requested) > 1,
        Err(_) => false,
    }""")

fn("FmtError::mk_request_too_high", ["F01"], "ensures ret matches FmtError::RequestTooHigh(m, q) && m@ == name(max) && q@ == name(request)",
   [("fn", "n", "t => ensures t@ == name(r)")])

fn("max_line_repr", ["F01"], "ensures ret == value_max(*nv)")
fn("max_node_line_repr", ["F01"], "requires held(*node) ensures ret == place_max(node.nav.inner@, *node.node)",
   [("closure", 0, ["Node"], "NodeValue", "r => ensures r is Seq == $0.node.kserd.val is Seq, r is Map == $0.node.kserd.val is Map")])

fn("Formatter::fmts", ["F01"], "ensures ret@ == self.fmts@")
fn("Formatter::id", ["F01"], """ensures
    ret == (if node_idx < old(self).fmts@.len() { Ok::<(), FmtError>(()) } else { Err(FmtError::IdxOutOfBounds) }),
    final(self).nav == old(self).nav,
    ret.is_err() ==> final(self).fmts@ == old(self).fmts@,
    ret.is_ok() ==> final(self).fmts@ == old(self).fmts@.update(node_idx as int, Fmt { id: write, line: old(self).fmts@[node_idx as int].line })""",
   [("closure", 0, ["&mut Fmt"], "()", "ensures final($0).id == write, final($0).line == old($0).line")])
fn("Formatter::line_repr_constraints", ["F01"], """
    requires held(*node), node.nav == &self.nav, self.fmts@.len() == self.nav.inner@.len()
    ensures ret.0 == place_max(self.nav.inner@, *node.node), ret.1 == parent_line(*self, node.node.idx as int)""",
   [("closure", 0, ["Node"], "Option<&Fmt>", """r => ensures
        r.is_some() == ($0.node.idx < self.fmts@.len()), r.is_some() ==> r.unwrap() == self.fmts@[$0.node.idx as int]"""),
    ("closure", 1, ["&Fmt"], "Repr", "r => ensures r == $0.line"),
    ("start", "proof! { around(self.nav.inner@, node.node.idx as int); }\n")])
OUTCOME = """
        ret.is_ok() ==> lowered(old(self).fmts@, final(self).fmts@, IDX as int, end(old(self).nav.inner@, IDX as int), REQ),
        match ret {
            Ok(_) => true,
            Err(e) => final(self).fmts@ == old(self).fmts@ && match e {
                FmtError::IdxOutOfBounds => IDX >= old(self).fmts@.len(),
                FmtError::SeqMapAtRoot => IDX == 0 && REQ is Verbose && is_list(old(self).nav.inner@[0]),
                FmtError::RequestTooHigh(m, q) => ({ let max = place_max(old(self).nav.inner@, old(self).nav.inner@[IDX as int]);
                    rank(REQ) > rank(max) && m@ == name(max) && q@ == name(REQ) }),
                FmtError::ParentIsInline => parent_line(*old(self), IDX as int) == Some(Repr::Inline) && !(REQ is Inline),
                FmtError::ParentIsConcise => parent_line(*old(self), IDX as int) == Some(Repr::Concise) && REQ is Verbose,
            },
        }"""
REQUEST = """
    requires settled(*old(self))
    ensures
        settled(*final(self)),
        final(self).nav == old(self).nav,
        ret.is_ok() == (IDX < old(self).fmts@.len() && allows(*old(self), IDX as int, REQ)),""" + OUTCOME
# the private function is also used while a formatter is being made, before its formats are settled
RAW = """
    requires sized(*old(self))
    ensures
        sized(*final(self)),
        settled(*old(self)) ==> settled(*final(self)),
        final(self).nav == old(self).nav,
        ret.is_ok() == (IDX < old(self).fmts@.len() && (allows(*old(self), IDX as int, REQ) || old(self).fmts@[IDX as int].line == REQ)),
        IDX < old(self).fmts@.len() && old(self).fmts@[IDX as int].line == REQ ==> final(self).fmts@ == old(self).fmts@,
        settled(*old(self)) ==> ret.is_ok() == (IDX < old(self).fmts@.len() && allows(*old(self), IDX as int, REQ)),""" + OUTCOME.replace("ret.is_ok() ==>", "ret.is_ok() && (settled(*old(self)) || old(self).fmts@[IDX as int].line != REQ) ==>")
fn("Formatter::request_repr_alteration", ["F01"], RAW.replace("IDX", "idx").replace("REQ", "requested"),
   [("loops", 1),
    ("start", "proof_decl! { let ghost was = *self; }\n"),
    ("before", "let prev_repr", "proof! { around(was.nav.inner@, idx as int); end_range(was.nav.inner@, idx as int); }\n"),
    ("before", "for d in node", "proof_decl! { let ghost entry = *self; }\n"),
    ("tail", "Ok(())", "proof! { if settled(was) { still_settled(was, *self, idx as int, requested); } }\n"),
    ("before", "let current", "proof! { around(was.nav.inner@, idx + 1 + iter.index()); }\n"),
    ("before", "return Ok(());", "proof! { if settled(was) { unchanged_if_same(was, idx as int); } }\n"),
    ("loop", 0, """iter => invariant
        sized(was), self.nav == was.nav, idx < was.fmts@.len(), node.node == &was.nav.inner@[idx as int], node.nav == &was.nav,
        repr == requested, end(was.nav.inner@, idx as int) <= was.nav.inner@.len(),
        iter.seq().len() == end(was.nav.inner@, idx as int) - idx - 1,
        forall|j: int| 0 <= j < iter.seq().len() ==> (#[trigger] iter.seq()[j]).node == &was.nav.inner@[idx + 1 + j],
        entry.fmts@.len() == was.fmts@.len(), self.fmts@.len() == was.fmts@.len(), self.fmts@[idx as int] == entry.fmts@[idx as int],
        lowered_below(was.fmts@, self.fmts@, idx as int, idx + 1 + iter.index(), requested)"""),
    ])
for m, r in (("inline", "Repr::Inline"), ("concise", "Repr::Concise"), ("verbose", "Repr::Verbose")):
    fn("Formatter::" + m, ["F01"], REQUEST.replace("IDX", "node_idx").replace("REQ", r))

fn("Formatter::new", ["F03"], "ensures settled(ret), topmost(ret), ret.nav.inner@[0].kserd == root",
   [("loops", 2),
    ("after", "let mut fmts", ": Vec<Fmt>"), ("after", "let mut indices", ": Vec<usize>"),
    ("loop", 0, """iter => invariant
        wf(nav.inner@), nav.inner@[0].kserd == root, iter.seq().len() == nav.inner@.len(),
        forall|j: int| 0 <= j < iter.seq().len() ==> (#[trigger] iter.seq()[j]).node == &nav.inner@[j] && iter.seq()[j].nav == &nav,
        fmts@.len() == iter.index(), indices@.len() == iter.index(),
        forall|j: int| 0 <= j < iter.index() ==> #[trigger] indices@[j] == j,
        forall|j: int| 0 <= j < iter.index() ==> (#[trigger] fmts@[j]).line == place_max(nav.inner@, nav.inner@[j])"""),
    ("before", "indices.push", "proof! { around(nav.inner@, iter.index()); }\n"),
    ("before", "match fmtr.nav.root().value()", "proof_decl! { let ghost full = fmtr; }\nproof! { around(fmtr.nav.inner@, 0); }\n"),
    ("before", "for i in indices", "proof! { partly_start(fmtr); capped_start(full, fmtr); }\n"),
    ("loop", 1, """iter => invariant
        sized(fmtr), iter.seq().len() == fmtr.nav.inner@.len(), partly(fmtr, iter.index()), capped(fmtr, iter.index()), fmtr.nav.inner@[0].kserd == root,
        forall|j: int| 0 <= j < iter.seq().len() ==> #[trigger] iter.seq()[j] == j"""),
    ("before", "if let Some(parent_idx)", "proof_decl! { let ghost was = fmtr; }\nproof! { around(fmtr.nav.inner@, i as int); partly_at(fmtr, i as int); }\n"),
    ("endloop", 1, "proof! { partly_step(was, fmtr, i as int); capped_step(was, fmtr, i as int); }\n"),
    ("afterloop", 1, "proof! { partly_all(fmtr); capped_all(fmtr); }\n"),
    ("closure", 0, ["Node"], "Option<Node>", """r => ensures
        $0.node.parent.is_none() ==> r.is_none(),
        $0.node.parent.is_some() ==> r.is_some() == ($0.node.parent.unwrap() < $0.nav.inner@.len()),
        r.is_some() ==> r.unwrap().node == &$0.nav.inner@[$0.node.parent.unwrap() as int] && r.unwrap().nav == $0.nav"""),
    ("closure", 1, ["Node"], "usize", "r => ensures r == $0.node.idx"),
    ])

fn("Deref for Formatter::deref", ["F01"], "ensures ret == self.nav")

# ---------------------------------------------------------------- configurations

for f in ("inline_widths", "concise_widths"):
    fn("in fmt/solver.rs::" + f, ["F03"], "ensures ret@.len() == root.nav.inner@.len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] > 0",
       trusted="counts characters of printed numbers and escaped strings; bounded (F03)")
fn("in fmt/solver.rs::calculate_offset", ["F03"], "", trusted="any offset will do; that it does not panic is bounded (F02)")
fn("in fmt/solver.rs::min_line_repr", ["F03"], """
    requires idx < inline_widths@.len(), idx < concise_widths@.len()
    ensures
        lim.is_none() ==> ret is Inline,
        lim == Some(0usize) && inline_widths@[idx as int] > 0 && concise_widths@[idx as int] > 0 ==> ret is Verbose""")
APPLIED = """
    requires settled(*old(F))
    ensures
        final(F).nav == old(F).nav, settled(*final(F)),
        shown(*final(F), config),
        config.width_limit.is_none() ==> all_inline(*final(F)),
        config.width_limit == Some(0u16) && topmost(*old(F)) ==> topmost(*final(F))"""
fn("in fmt/solver.rs::apply_config", ["F03"], APPLIED.replace("F)", "fmtr)"),
   [("loops", 2),
    ("start", "proof_decl! { let ghost was = *fmtr; }\nproof! { at(was.nav.inner@, 0); }\n"),
    ("loop", 0, """iter => invariant
        sized(was), settled(was), fmtr.nav == was.nav, iter.seq().len() == was.fmts@.len(),
        forall|j: int| 0 <= j < iter.seq().len() ==> #[trigger] iter.seq()[j] == j,
        same_lines(was, *fmtr), shown_upto(*fmtr, config, iter.index())"""),
    ("before", "let id = match", "proof! { around(was.nav.inner@, i as int); }\n"),
    ("before", "let root", "proof! { same_settled(was, *fmtr); }\nproof_decl! { let ghost ready = *fmtr; }\n"),
    ("closure", 0, ["u16"], "usize", "r => ensures r == $0"),
    ("closure", 1, ["Node"], "usize", "r => ensures r == $0.node.idx"),
    ("closure", 2, ["u16"], "usize", "r => ensures r <= $0"),
    ("wrap", "map#1", "map_of"), ("subst", ".collect::<Vec<_>>()", ".collect_list()"),
    ("before", "fmtr.request_repr_alteration(0, repr)", """proof! {
        end_range(was.nav.inner@, 0);
        assert forall|x: int| 0 <= x < was.nav.inner@.len() implies (#[trigger] was.nav.inner@[x]).idx == x by { at(was.nav.inner@, x); }
        assert forall|j: int| 0 <= j < decendants@.len() implies 0 < #[trigger] decendants@[j] < was.fmts@.len() by {}
    }
    """),
    ("before", "for c in decendants", """proof! { around(was.nav.inner@, 0); applied_step(ready, *fmtr, config, 0, repr); }
    """),
    ("loop", 1, """iter => invariant
        sized(was), settled(was), ready.nav == was.nav, fmtr.nav == was.nav, settled(*fmtr), shown(*fmtr, config),
        config.width_limit.is_none() ==> all_inline(*fmtr),
        config.width_limit == Some(0u16) && topmost(ready) ==> topmost(*fmtr),
        inline_widths@.len() == was.fmts@.len(), concise_widths@.len() == was.fmts@.len(),
        forall|j: int| 0 <= j < inline_widths@.len() ==> #[trigger] inline_widths@[j] > 0,
        forall|j: int| 0 <= j < concise_widths@.len() ==> #[trigger] concise_widths@[j] > 0,
        forall|j: int| 0 <= j < iter.seq().len() ==> 0 < #[trigger] iter.seq()[j] < was.fmts@.len()"""),
    ("before", "let offset", "proof_decl! { let ghost prev = *fmtr; }\nproof! { around(was.nav.inner@, c as int); }\n"),
    ("endloop", 1, "proof! { applied_step(prev, *fmtr, config, c as int, repr); }\n"),
   ])
fn("Formatter::apply_config", ["F03"], """
    requires settled(*old(self))
    ensures
        ret.nav == old(self).nav, settled(*ret), shown(*ret, config),
        config.width_limit.is_none() ==> all_inline(*ret),
        config.width_limit == Some(0u16) && topmost(*old(self)) ==> topmost(*ret),
        *final(self) == *final(ret)""")


# ---------------------------------------------------------------- strings and byte arrays

fn("Kstr::as_str", ["V03", "V02"], "ensures ret == cow_ref(self.inner)")
fn("Kstr::to_mut", ["V03"], "ensures data(*ret) == text(*old(self)), final(self).inner == Cow::<'a, str>::Owned(*final(ret))")
fn("Deref for Kstr::deref", ["V03", "V02"], "ensures ret == cow_ref(self.inner)")
fn("Barr::as_bytes", ["V03", "V02"], "ensures ret == cow_ref(self.inner)")
fn("Barr::to_mut", ["V03"], "ensures ret@ == bytes(*old(self)), final(self).inner == Cow::<'a, [u8]>::Owned(*final(ret))")

# ---------------------------------------------------------------- typed access

fn("Number::as_u128", ["N03"], "ensures ret.ok() == to_uint(*self)", trusted="float arithmetic; proved with Kani (N03)")
fn("Number::as_i128", ["N03"], "ensures ret.ok() == to_int(*self)", trusted="float arithmetic; proved with Kani (N03)")
fn("Number::as_f64", ["N03"], "ensures ret == to_float(*self)", trusted="float arithmetic; proved with Kani (N03)")

fn("Value::unit", ["V03"], "ensures ret == (self is Unit)")
for f, v, e in [("bool", "Bool", "v"), ("float", "Num", "to_float(v)")]:
    fn("Value::" + f, ["V03"], "ensures ret == (match *self { Value::%s(v) => Some(%s), _ => None })" % (v, e))
for f, e in [("uint", "to_uint"), ("int", "to_int")]:
    fn("Value::" + f, ["V03"], "ensures ret == (match *self { Value::Num(v) => %s(v), _ => None })" % e)
for f, v, e in [("str", "Str", "r == cow_ref(v.inner)"), ("barr", "Barr", "r == cow_ref(v.inner)"), ("tuple", "Tuple", "*r == v"), ("seq", "Seq", "*r == v"),
                ("cntr", "Cntr", "*r.0 == v"), ("map", "Map", "*r == v")]:
    fn("Value::" + f, ["V03"], "ensures match *self { Value::%s(v) => ret matches Some(r) && %s, _ => ret is None }" % (v, e))
fn("Value::tuple_or_seq", ["V03"], "ensures match *self { Value::Tuple(v) => ret matches Some(r) && *r == v, Value::Seq(v) => ret matches Some(r) && *r == v, _ => ret is None }")
fn("Value::ch", ["V03"], "ensures ret == (match *self { Value::Str(v) if text(v).len() == 1 => Some(text(v)[0]), _ => None })")

SAME = "_ => ret is None && *final(self) == *old(self)"
for f, v in [("bool", "Bool"), ("num", "Num"), ("tuple", "Tuple"), ("seq", "Seq"), ("map", "Map")]:
    fn("Value::%s_mut" % f, ["V03"], "ensures match *old(self) { Value::%s(v) => ret matches Some(r) && *r == v && *final(self) == Value::%s(*final(r)), %s }" % (v, v, SAME))
fn("Value::cntr_mut", ["V03"], "ensures match *old(self) { Value::Cntr(v) => ret matches Some(r) && *r.0 == v && *final(self) == Value::Cntr(*final(r.0)), %s }" % SAME)
fn("Value::str_mut", ["V03"], """ensures match *old(self) {
    Value::Str(v) => ret matches Some(r) && data(*r) == text(v) && *final(self) == Value::Str(Kstr { inner: Cow::Owned(*final(r)) }), %s }""" % SAME)
fn("Value::barr_mut", ["V03"], """ensures match *old(self) {
    Value::Barr(v) => ret matches Some(r) && r@ == bytes(v) && *final(self) == Value::Barr(Barr { inner: Cow::Owned(*final(r)) }), %s }""" % SAME)
fn("Value::tuple_or_seq_mut", ["V03"], """ensures match *old(self) {
    Value::Tuple(v) => ret matches Some(r) && *r == v && *final(self) == Value::Tuple(*final(r)),
    Value::Seq(v) => ret matches Some(r) && *r == v && *final(self) == Value::Seq(*final(r)), %s }""" % SAME, [("split", "Value::Tuple(x)")])

# the field is what the map's own get returns for the name, whatever the name's type
fn("Deref for Kserd::deref", ["V03"], "ensures *ret == self.val")
fn("Deref for Accessor::deref", ["V03"], "ensures *ret == self.0")
FIELD = """requires btree::borrowed_key_ordering_matches::<Kstr<'a>, K>(),
    ensures exists|f: &Fields<'a>, k: Option<&Kserd<'a>>| call_ensures(T::deref, (&self.0,), f)
        && #[trigger] call_ensures(std::collections::BTreeMap::<Kstr<'a>, Kserd<'a>>::get::<K>, (f, name), k)
        && match k { Some(k) => %s, None => ret is None }"""
for f, t, v, e in [("bool", "bool", "Bool", "*got == stored"), ("num", "Number", "Num", "*got == stored"), ("str", "&str", "Str", "got == cow_ref(stored.inner)"),
                   ("barr", "&[u8]", "Barr", "got == cow_ref(stored.inner)"), ("tuple", "&List<'a>", "Tuple", "*got == stored"), ("seq", "&List<'a>", "Seq", "*got == stored"),
                   ("cntr", "Accessor<&Fields<'a>>", "Cntr", "*got.0 == stored"), ("map", "&Map<'a>", "Map", "*got == stored")]:
    if not t.startswith("&") and "Acc" not in t:
        e = "got == stored"
    m = "match %s.val { Value::" + v + "(stored) => %s matches Some(got) && " + e + ", _ => %s is None }"
    fn("Accessor::get_" + f, ["V03"], FIELD % (m % ("k", "ret", "ret")),
       [("closure", 0, ["&Kserd<'a>"], "Option<%s>" % t, "o => ensures " + m % ("$0", "o", "o"))])
m = "match %s.val { Value::Tuple(stored) => %s matches Some(got) && *got == stored, Value::Seq(stored) => %s matches Some(got) && *got == stored, _ => %s is None }"
fn("Accessor::get_tuple_or_seq", ["V03"], FIELD % (m % ("k", "ret", "ret", "ret")),
   [("closure", 0, ["&Kserd<'a>"], "Option<&List<'a>>", "o => ensures " + m % ("$0", "o", "o", "o"))])
fn("Accessor::get_unit", ["V03"], FIELD % "(ret is Some) == (k.val is Unit)",
   [("closure", 0, ["&Kserd<'a>"], "Option<()>", "o => ensures (o is Some) == ($0.val is Unit)")])

fn("DerefMut for Kserd::deref_mut", ["V03"], "ensures *ret == old(self).val, *final(self) == (Kserd { id: old(self).id, val: *final(ret) })")
fn("DerefMut for Accessor::deref_mut", ["V03"], "ensures *ret == old(self).0, final(self).0 == *final(ret)")
KEPT = "_ => RET is None && final(K).val == K.val && final(K).id == K.id }"
FIELD_MUT = """requires btree::borrowed_key_ordering_matches::<Kstr<'a>, K>(),
    ensures exists|m: &mut T, f: &mut Fields<'a>, k: Option<&mut Kserd<'a>>| *m == old(self).0 && *final(m) == final(self).0
        && #[trigger] call_ensures(T::deref_mut, (m,), f)
        && #[trigger] call_ensures(std::collections::BTreeMap::<Kstr<'a>, Kserd<'a>>::get_mut::<K>, (f, name), k)
        && match k { Some(k) => %s, None => ret is None }"""
for f, t, v, e in [("bool", "&mut bool", "Bool", "*got == stored && final(K).val == Value::Bool(*final(got))"),
                   ("num", "&mut Number", "Num", "*got == stored && final(K).val == Value::Num(*final(got))"),
                   ("str", "&mut String", "Str", "data(*got) == text(stored) && final(K).val == Value::Str(Kstr { inner: Cow::Owned(*final(got)) })"),
                   ("barr", "&mut Vec<u8>", "Barr", "got@ == bytes(stored) && final(K).val == Value::Barr(Barr { inner: Cow::Owned(*final(got)) })"),
                   ("tuple", "&mut List<'a>", "Tuple", "*got == stored && final(K).val == Value::Tuple(*final(got))"),
                   ("seq", "&mut List<'a>", "Seq", "*got == stored && final(K).val == Value::Seq(*final(got))"),
                   ("tuple_or_seq", "&mut List<'a>", None, None),
                   ("cntr", "Accessor<&mut Fields<'a>>", "Cntr", "*got.0 == stored && final(K).val == Value::Cntr(*final(got.0))"),
                   ("map", "&mut Map<'a>", "Map", "*got == stored && final(K).val == Value::Map(*final(got))")]:
    m = "Value::%s(stored) => RET matches Some(got) && %s && final(K).id == K.id, "
    m = m % (v, e) if v else "".join(m % (v, "*got == stored && final(K).val == Value::%s(*final(got))" % v) for v in ("Tuple", "Seq"))
    m = "match K.val { " + m + KEPT
    fn("Accessor::get_%s_mut" % f, ["V03"], FIELD_MUT % m.replace("RET", "ret").replace("K.", "k.").replace("(K)", "(k)"),
       [("closure", 0, ["&mut Kserd<'a>"], "Option<%s>" % t, "o => ensures " + m.replace("RET", "o").replace("K.", "old($0).").replace("(K)", "($0)"))])

# ---------------------------------------------------------------- names

fn("Kserd::with_id", ["V04"], """ensures
    exists|id: Kstr<'a>| #[trigger] call_ensures(S::into, (identity,), id) && match ret {
        Ok(k) => id_ok(text(id)) && k == (Kserd { id: Some(id), val: value }),
        Err(_) => !id_ok(text(id)),
    }""",
   [("wrap", "any", "any_of"), ("closure", 0, ["char"], "bool", "r => ensures r == id_bad($0)", "INVALID.contains(")])
fn("InvalidFieldName::validate", ["V04"], "ensures ret.is_ok() == name_ok(s@)",
   [("loops", 1), ("loop", 0, "iter => invariant iter.seq() == s@, name_start(s@), forall|i: int| 0 <= i < iter.index() ==> !name_bad(#[trigger] s@[i])")],
   literals=True, attrs=["#[verifier::loop_isolation(false)]"])

CNTR = """exists|given: I::IntoIter, named: std::iter::Map<I::IntoIter, WITH>, m: Fields<'a>, it: std::collections::btree_map::Iter<Kstr<'a>, Kserd<'a>>|
        #[trigger] call_ensures(I::into_iter, (iter,), given) && #[trigger] gathered(m)
"""
fn("Value::new_cntr", ["V04"], """ensures
    exists|m: Fields<'a>, it: std::collections::btree_map::Iter<Kstr<'a>, Kserd<'a>>| #[trigger] gathered(m) && #[trigger] call_ensures(std::collections::BTreeMap::<Kstr<'a>, Kserd<'a>>::iter, (&m,), it)
    && match ret { Ok(v) => v == Value::Cntr(m) && names_ok(it.remaining()), Err(_) => !names_ok(it.remaining()) }""",
   [("wrap", "collect", "collect_of"), ("wrap", "map", "map_of"), ("loops", 1), ("closure", 0, ["(S, Kserd<'a>)"], "(Kstr<'a>, Kserd<'a>)", "r => ensures call_ensures(S::into, ($0.0,), r.0) && r.1 == $0.1"),
    ("loop", 0, "iter => invariant forall|i: int| 0 <= i < iter.index() ==> name_ok(text(*(#[trigger] iter.seq()[i]).0))")],
   attrs=["#[verifier::loop_isolation(false)]"])

fn("PartialEq for Value::eq", ["V01"], "ensures parts_lawful() ==> ret == value_eq(*self, *b)",
   [("eq", ""), ("start", "proof! { ordering_eq(); if parts_lawful() { value_order_total(*self, *b, *b); } }\n")])
fn("PartialOrd for Value::partial_cmp", ["V01"], "ensures ret == Some(value_cmp(*self, *b))")
fn("Ord for Value::cmp", ["V01"], "ensures ret == value_cmp(*self, *b)", [("fn", "rank", "r => ensures r == rank_of(*v)"), ("wrap", "cmp", "cmp_of")])
fn("PartialEq for Kserd::eq", ["V01"], "ensures parts_lawful() ==> ret == value_eq(self.val, other.val)",
   [("start", "proof! { if parts_lawful() { value_order_total(self.val, other.val, other.val); } }\n")])
fn("PartialOrd for Kserd::partial_cmp", ["V01"], "ensures ret == Some(value_cmp(self.val, other.val))")
fn("Ord for Kserd::cmp", ["V01"], "ensures ret == value_cmp(self.val, other.val)")

for t, k in (("Kstr", "kept_str"), ("Barr", "kept_bytes")):
    fn(t + "::brwed", ["V02"], "ensures ret.inner == Cow::<'a, %s>::Borrowed(%s)" % (("str", "s") if t == "Kstr" else ("[u8]", "bytes")))
    fn(t + "::owned", ["V02"], "ensures ret.inner == Cow::<'static, %s>::Owned(%s)" % (("str", "s") if t == "Kstr" else ("[u8]", "bytes")))
    fn(t + "::into_owned", ["V02"], "ensures %s(1, self, ret)" % k)
fn("Kserd::id", ["V02"], "ensures ret.is_some() == self.id.is_some(), ret.is_some() ==> ret.unwrap() == cow_ref(self.id.unwrap().inner)",
   [("closure", 0, ["&Kstr<'a>"], "&str", "r => ensures r == cow_ref($0.inner)")])
ENDLESS = ["#[verifier::exec_allows_no_decreases_clause]"]
fn("Kserd::into_owned", ["V02"], "ensures copy(1, self, ret)",
   [("closure", 0, ["Kstr<'a>"], "Kstr<'static>", "r => ensures kept_str(1, $0, r)")], attrs=ENDLESS)
fn("Kserd::mk_brw", ["V02"], "ensures copy(2, *self, ret)", attrs=ENDLESS)
LISTED = """iter => invariant v@.len() == iter.index(), iter.seq().len() == seq@.len(), forall|j: int| 0 <= j < seq@.len() ==> %s == seq@[j],
    forall|j: int| 0 <= j < v@.len() ==> copy(%d, seq@[j], #[trigger] v@[j])"""
MAPPED = """iter => invariant inserted(m).len() == iter.index(), iter.seq().len() == entries(%s).len(),
    forall|j: int| 0 <= j < iter.seq().len() ==> %s,
    forall|j: int| 0 <= j < inserted(m).len() ==> %s && copy(%d, entries(%s)[j].1, (#[trigger] inserted(m)[j]).1)"""
def copies(name, mode, self_, own):
    n = "*map" if not own else "map"
    item = "#[trigger] iter.seq()[j]" if own else "*(#[trigger] iter.seq()[j])"
    pair = "#[trigger] iter.seq()[j] == entries(map)[j]" if own else "*(#[trigger] iter.seq()[j]).0 == entries(*map)[j].0 && *iter.seq()[j].1 == entries(*map)[j].1"
    each = "entries_of" if own else "refs_of"
    key = {"Cntr": "kept_str(%d, entries(%s)[j].0, inserted(m)[j].0)" % (mode, n), "Map": "copy(%d, entries(%s)[j].0, inserted(m)[j].0)" % (mode, n)}
    body = [("loops", 4), ("subst", "BTreeMap::new()", "made()"), ("wrap", "insert", "insert_of"), ("each", 1, each), ("each", 3, each)]
    for l in (0, 2):
        body += [("loop", l, LISTED % (item, mode))]
    for l, k in ((1, "Cntr"), (3, "Map")):
        t = "Kstr" if k == "Cntr" else "Kserd"
        body += [("loop", l, MAPPED % (n, pair, key[k], mode, n))]
    fn(name, ["V02"], "ensures copy_value(%d, %s, ret)" % (mode, self_), body, attrs=ENDLESS)
copies("Value::into_owned", 1, "self", True)
copies("Value::mk_brw", 2, "*self", False)
fn("Clone for Value::clone", ["V02"], "ensures copy_value(0, *self, ret)", [("wrap", "clone", "clone_of")])
fn("Clone for Kserd::clone", ["V02"], "ensures copy(0, *self, ret)", [("wrap", "clone", "clone_of")])

# ---------------------------------------------------------------- encoding

def q(s): return '"%s"@' % s
fn("Kserd::new", ["E04"], "ensures ret == (Kserd { id: None, val: value })")
fn("Kserd::new_unit", ["E04"], "ensures ret.id.is_none() && ret.val == Value::Unit")
fn("Kserd::with_id_unchk", ["E04"], "ensures exists|id: Kstr<'a>| #[trigger] call_ensures(S::into, (identity,), id) && ret == (Kserd { id: Some(id), val: value })")
fn("Kserd::new_bool", ["E04"], "ensures named(ret, %s), ret.val == Value::Bool(value)" % q("bool"))
fn("Kserd::new_str", ["E04"], "ensures is_str(ret, %s, string@), ret.val->Str_0.inner is Borrowed" % q("str"))
fn("Kserd::new_string", ["E04"], "ensures is_str(ret, %s, string@), ret.val->Str_0.inner is Owned" % q("String"))
fn("Kserd::new_barr", ["E04"], "ensures is_barr(ret, %s, byte_array@), ret.val->Barr_0.inner is Borrowed" % q("barr"))
fn("Kserd::new_barrv", ["E04"], "ensures is_barr(ret, %s, byte_array@), ret.val->Barr_0.inner is Owned" % q("ByteVec"))
fn("Value::new_str", ["E04"], "ensures ret == Value::Str(Kstr { inner: Cow::<'a, str>::Borrowed(string) })")
fn("Value::new_string", ["E04"], "ensures ret == Value::Str(Kstr { inner: Cow::<'static, str>::Owned(string) })")
fn("Value::new_barr", ["E04"], "ensures ret == Value::Barr(Barr { inner: Cow::<'a, [u8]>::Borrowed(byte_array) })")
fn("Value::new_barrv", ["E04"], "ensures ret == Value::Barr(Barr { inner: Cow::<'static, [u8]>::Owned(byte_array) })")
fn("From<&'a str> for Kstr::from", ["E04"], "ensures ret.inner == Cow::<'a, str>::Borrowed(s)")
fn("From<String> for Kstr::from", ["E04"], "ensures ret.inner == Cow::<'static, str>::Owned(s)")

def enc(name, spec, body=(), trait="Serializer for Encoder"):
    fn(trait + "::" + name, ["E04"], spec, list(body) + [("subst", "map_err(Error::InvalidId)", "map_err(|x: crate::ds::InvalidId| Error::InvalidId(x))")], twin=True)

SER = [("wrap", "serialize", "serialize_of")]
enc("serialize_bool", "ensures ret matches Ok(k) && named(k, %s) && k.val == Value::Bool(v)" % q("bool"))
enc("serialize_str", "ensures ret matches Ok(k) && is_str(k, %s, v@) && k.val->Str_0.inner is Owned" % q("str"))
enc("serialize_bytes", "ensures ret matches Ok(k) && is_barr(k, %s, v@) && k.val->Barr_0.inner is Owned" % q("barr"))
enc("serialize_unit", "ensures ret matches Ok(k) && k.id.is_none() && k.val == Value::Unit")
enc("serialize_none", "ensures ret matches Ok(k) && is_tuple(k, %s, Seq::empty())" % q("None"))
enc("serialize_some", """ensures match encoded(v) {
    Ok(e) => ret matches Ok(k) && is_tuple(k, %s, seq![e]),
    Err(e) => ret == Err::<Kserd<'static>, _>(e) }""" % q("Some"), SER)
enc("serialize_unit_struct", "ensures match ret { Ok(k) => id_ok(name@) && is_tuple(k, name@, Seq::empty()), Err(_) => !id_ok(name@) }")
enc("serialize_unit_variant", "ensures match ret { Ok(k) => id_ok(variant@) && is_tuple(k, variant@, Seq::empty()), Err(_) => !id_ok(variant@) }")
for n, v in (("serialize_newtype_struct", "name"), ("serialize_newtype_variant", "variant")):
    enc(n, """ensures match (encoded(value), ret) {
        (Ok(e), Ok(k)) => id_ok(NAME@) && is_tuple(k, NAME@, seq![e]),
        (Ok(e), Err(_)) => !id_ok(NAME@),
        (Err(e), r) => r == Err::<Kserd<'static>, _>(e) }""".replace("NAME", v), SER)
enc("serialize_seq", "ensures ret matches Ok(s) && s.kserd.id.is_none() && list_is(s.kserd.val, true, Seq::empty())")
enc("serialize_tuple", "ensures ret matches Ok(s) && s.kserd.id.is_none() && list_is(s.kserd.val, false, Seq::empty())")
for n, v in (("serialize_tuple_struct", "name"), ("serialize_tuple_variant", "variant")):
    enc(n, "ensures match ret { Ok(s) => id_ok(NAME@) && is_tuple(s.kserd, NAME@, Seq::empty()), Err(_) => !id_ok(NAME@) }".replace("NAME", v))
enc("serialize_map", "ensures ret matches Ok(s) && s.key.is_none() && s.kserd.id.is_none() && pairs_are(s.kserd.val, Seq::empty())", [("subst", "BTreeMap::new()", "made()")])
for n, v in (("serialize_struct", "name"), ("serialize_struct_variant", "variant")):
    enc(n, "ensures match ret { Ok(s) => id_ok(NAME@) && named(s.kserd, NAME@) && fields_are(s.kserd.val, Seq::empty()), Err(_) => !id_ok(NAME@) }".replace("NAME", v), [("subst", "Fields::new()", "made()")])

for t, ty, m, seq in (("SerializeSeq", "SeqLike", "element", "true"), ("SerializeTuple", "TupleLike", "element", "false"), ("SerializeTupleStruct", "TupleLike", "field", "false"), ("SerializeTupleVariant", "TupleLike", "field", "false")):
    enc("serialize_" + m, """requires old(self).kserd.val is %s
        ensures final(self).kserd.id == old(self).kserd.id, match encoded(value) {
            Ok(e) => ret.is_ok() && list_is(final(self).kserd.val, %s, items(old(self).kserd.val).push(e)),
            Err(e) => ret == Err::<(), _>(e) && final(self).kserd == old(self).kserd }""" % ("Seq" if seq == "true" else "Tuple", seq), SER, t + " for " + ty)
    enc("end", "ensures ret == Ok::<_, Error>(self.kserd)", (), t + " for " + ty)

for t, ty in (("SerializeStruct", "CntrLike"), ("SerializeStructVariant", "CntrLike")):
    enc("serialize_field", """requires old(self).kserd.val is Cntr
        ensures final(self).kserd.id == old(self).kserd.id, match encoded(value) {
            Ok(e) => ret.is_ok() && fields_are(final(self).kserd.val, inserted(old(self).kserd.val->Cntr_0).push((Kstr { inner: Cow::<'static, str>::Borrowed(key) }, e))),
            Err(e) => ret == Err::<(), _>(e) && final(self).kserd == old(self).kserd }""", SER + [("wrap", "insert", "insert_of")], t + " for " + ty)
    enc("end", "ensures ret == Ok::<_, Error>(self.kserd)", (), t + " for " + ty)
MAP = "SerializeMap for MapLike"
enc("serialize_key", """ensures final(self).kserd == old(self).kserd, match encoded(key) {
    Ok(e) => ret.is_ok() && final(self).key == Some(e),
    Err(e) => ret == Err::<(), _>(e) && final(self).key == old(self).key }""", SER, MAP)
enc("serialize_value", """requires old(self).kserd.val is Map
    ensures final(self).kserd.id == old(self).kserd.id, final(self).key.is_none(), match (old(self).key, encoded(value)) {
        (Some(k), Ok(e)) => ret.is_ok() && pairs_are(final(self).kserd.val, inserted(old(self).kserd.val->Map_0).push((k, e))),
        (Some(k), Err(e)) => ret == Err::<(), _>(e) && final(self).kserd == old(self).kserd,
        (None, _) => ret.is_err() && final(self).kserd == old(self).kserd }""", SER + [("wrap", "insert", "insert_of")], MAP)
enc("serialize_entry", """requires old(self).kserd.val is Map
    ensures final(self).kserd.id == old(self).kserd.id, final(self).key == old(self).key, match (encoded(key), encoded(value)) {
        (Ok(k), Ok(e)) => ret.is_ok() && pairs_are(final(self).kserd.val, inserted(old(self).kserd.val->Map_0).push((k, e))),
        (Err(e), _) => ret == Err::<(), _>(e) && final(self).kserd == old(self).kserd,
        (_, Err(e)) => ret == Err::<(), _>(e) && final(self).kserd == old(self).kserd }""", SER + [("wrap", "insert", "insert_of")], MAP)
enc("end", "ensures ret == Ok::<_, Error>(self.kserd)", (), MAP)
enc("serialize_char", "ensures ret matches Ok(k) && is_str(k, %s, seq![v]) && k.val->Str_0.inner is Owned" % q("char"))
fn("Kserd::enc", ["E04"], "ensures ret == encoded(data)", SER)

# the macros that implement numbers, one text for all the types
fn("NumberType for $t::identity", ["E04"], "ensures ret@ == <$t as Primitive>::name()")
fn("in ds/num.rs::f32_to_f64", ["E04"], "ensures ret == widened(f)", trusted="goes through the shortest decimal text of the number; bounded by E04 and N02")
for i in (0, 1):
    fn("From<$t> for Number::from#%d" % i, ["E04"], "ensures ret == x.number()")
fn("From<f32> for Number::from", ["E04"], "ensures ret == x.number()")
fn("From<f64> for Number::from", ["E04"], "ensures ret == x.number()")
fn("Value::new_num", ["E04"], "ensures exists|n: Number| #[trigger] call_ensures(T::into, (value,), n) && ret == Value::Num(n)")
fn("Kserd::new_num", ["E04"], """ensures exists|id: &'static str, n: Number| #[trigger] call_ensures(T::identity, (&value,), id) && #[trigger] call_ensures(T::into, (value,), n)
    && named(ret, id@) && ret.val == Value::Num(n)""")
for t in "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64".split():
    enc("serialize_" + t, "ensures ret matches Ok(k) && named(k, %s) && k.val == Value::Num(v.number())" % q(t))

def conv(typ, spec, body=(), trait="ToKserd", **kw):
    fn("%s for %s::into_kserd" % (trait, typ), ["E04"], spec, body, **kw)

conv("Kserd", "ensures ret == Ok::<_, ToKserdErr>(self)")
conv("$x", "ensures ret matches Ok(k) && named(k, <$x as Primitive>::name()) && k.val == Value::Num(self.number())")
conv("()", "ensures ret matches Ok(k) && k.id.is_none() && k.val == Value::Unit")
conv("bool", "ensures ret matches Ok(k) && named(k, %s) && k.val == Value::Bool(self)" % q("bool"))
conv("char", "ensures ret matches Ok(k) && is_str(k, %s, seq![self])" % q("char"))
conv("String", "ensures ret matches Ok(k) && is_str(k, %s, self@)" % q("String"))
conv("&'a str", "ensures ret matches Ok(k) && is_str(k, %s, self@) && k.val->Str_0.inner is Borrowed" % q("str"))
conv("Box", "ensures call_ensures(T::into_kserd, (*self,), ret)")
conv("Option", "ensures match self { Some(x) => call_ensures(T::into_kserd, (x,), ret), None => ret matches Ok(k) && is_tuple(k, %s, Seq::empty()) }" % q("None"))
conv("Result", """ensures match (self, ret) {
    (Ok(x), Ok(k)) => is_tuple(k, %s, seq![items(k.val)[0]]) && call_ensures(T::into_kserd, (x,), Ok(items(k.val)[0])),
    (Err(x), Ok(k)) => is_tuple(k, %s, seq![items(k.val)[0]]) && call_ensures(E::into_kserd, (x,), Ok(items(k.val)[0])),
    (Ok(x), Err(e)) => call_ensures(T::into_kserd, (x,), Err(e)),
    (Err(x), Err(e)) => call_ensures(E::into_kserd, (x,), Err(e)) }""" % (q("Ok"), q("Err")))
conv("($($element,)*)", """ensures match ret {
    Ok(k) => k.id.is_none() && k.val is Tuple && items(k.val).len() == 0 $(+ one($idx))* $(&& call_ensures($element::into_kserd, (self.$idx,), Ok(items(k.val)[$idx])))*,
    Err(e) => false $(|| call_ensures($element::into_kserd, (self.$idx,), Err(e)))* }""")
EACH = """ensures match ret {
    Ok(k) => named(k, %s) && k.val is Seq && converted(self@, items(k.val), self@.len() as int),
    Err(e) => refused(self@, e) }"""
EACHLOOP = "iter => invariant iter.seq() == self@, v@.len() == iter.index(), converted(self@, v@, iter.index() as int)"
conv("Vec", EACH % q("Vec"), [("loops", 1), ("loop", 0, EACHLOOP)])
conv("[T; $x]", EACH % q("array"), [("loops", 1), ("subst", "Box::new(self)", "boxed(self)"), ("wrap", "into_vec", "into_vec_of"), ("loop", 0, EACHLOOP)])
enc("collect_str", "ensures ret matches Ok(k) && exists|s: String| #[trigger] vstd::string::to_string_from_display_ensures::<T>(value, s) && is_str(k, %s, s@)" % q("str"),
    [("wrap", "serialize_str", "Serializer_serialize_str")])
CONTRACTS[-1]["header"] = [("Self::Ok", "Kserd<'static>"), ("Self::Error", "Error")]

# ---------------------------------------------------------------- decoding

VISITS = "unit bool u64 u128 i64 i128 f32 f64 char borrowed_str string borrowed_bytes byte_buf none some newtype_struct seq map enum".split()
def dec(name, spec, body=(), trait="Deserializer for Decoder", props=("E03",)):
    acts = [("wrap", "visit_" + v, "visit_%s_of" % v) for v in VISITS]
    acts += [("subst", "SeqDeserializer::new", "seq_access"), ("subst", "MapDeserializer::new(map.into_iter().map(", "fields_access(map.entries_of().into_iter().map_of("),
             ("subst", "MapDeserializer::new(map.into_iter())", "pairs_access(map.entries_of().into_iter())"),
             ("subst", "de::Error::invalid_type", "invalid_type"), ("subst", "de::Error::invalid_length", "invalid_length")]
    fn(trait + "::" + name, list(props), spec, acts + list(body), twin=True)

FIELD = ["(Kstr<'de>, Kserd<'de>)"], "(Cow<'de, str>, Kserd<'de>)", "r => ensures r == ($0.0.inner, $0.1)"
dec("deserialize_any", "ensures ret == visited(visitor, dispatch(self.0))",
    [("closure", 0, ["&Kstr<'de>"], "&str", "r => ensures r == cow_ref($0.inner)"), ("closure", 1) + FIELD])

dec("deserialize_f32", "ensures match self.0.val { Value::Num(n) => exists|f: f32| ret == #[trigger] visited(visitor, Call::F32(f)), _ => ret.is_err() }")
dec("deserialize_f64", "ensures match self.0.val { Value::Num(n) => ret == visited(visitor, Call::F64(to_float(n))), _ => ret.is_err() }")
dec("deserialize_char", """ensures match self.0.val {
    Value::Str(s) => if text(s).len() == 1 { ret == visited(visitor, Call::Char(text(s)[0])) } else { ret.is_err() },
    _ => ret.is_err() }""")
dec("deserialize_unit_struct", "ensures if self.0.val is Tuple && items(self.0.val).len() == 0 { ret == visited(visitor, Call::Unit) } else { ret.is_err() }")
dec("deserialize_newtype_struct", """ensures if self.0.val is Tuple && items(self.0.val).len() == 1 { ret == visited(visitor, Call::Newtype(items(self.0.val)[0])) }
    else { ret == visited(visitor, dispatch(self.0)) }""", [("wrap", "deserialize_any", "Deserializer_deserialize_any")])
dec("deserialize_enum", "ensures ret == visited(visitor, Call::Enum(self.0))")
dec("into_deserializer", "ensures ret.0 == self", (), "IntoDeserializer for Kserd")
SEED = [("subst", "seed.deserialize(id.into_deserializer())", "seed.variant_of(id)"), ("wrap", "deserialize", "deserialize_of")]
VA = "VariantAccess for Decoder"
dec("unit_variant", "ensures ret.is_ok() == (self.0.val is Unit || (self.0.val is Tuple && items(self.0.val).len() == 0))", (), VA)
dec("newtype_variant_seed", "ensures if self.0.val is Tuple && items(self.0.val).len() == 1 { ret == seeded(seed, items(self.0.val)[0]) } else { ret.is_err() }", SEED, VA)
dec("tuple_variant", "ensures if self.0.val is Tuple && items(self.0.val).len() == len { ret == visited(visitor, Call::Seq(items(self.0.val))) } else { ret.is_err() }", [("subst", "format!", "text_of!")], VA)
dec("struct_variant", """ensures match self.0.val {
    Value::Cntr(m) => ret == visited(visitor, Call::Fields(entries(m))),
    Value::Tuple(v) => if v@.len() == 0 { ret == visited(visitor, Call::Seq(v@)) } else { ret.is_err() },
    _ => ret.is_err() }""", [("closure", 0) + FIELD], VA)
dec("variant_seed", """ensures match self.0.id {
    Some(id) => match seeded_name(seed, cow_ref(id.inner)) { Ok(v) => ret == Ok::<_, Error>((v, Decoder(self.0))), Err(e) => ret == Err::<(V::Value, Decoder<'de>), _>(e) },
    None => ret.is_err() }""", SEED[:1] + [("closure", 1, ["V::Value"], "(V::Value, Decoder<'de>)", "r => ensures r.0 == $0 && r.1.0 == self.0")], "EnumAccess for Decoder")
CONTRACTS[-1]["header"] = [("Self::Variant", "Decoder<'de>")]
fn("in encode/decoder.rs::unexp_err", ["E03"], "", [])
