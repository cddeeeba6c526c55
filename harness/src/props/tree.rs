//! C13, C14, C21, C22, C26, C27: the live node graph.
use super::*;
use rphtml::parser::{allow_insert, is_content_tag, Attr, NameCase};
use rphtml::util;
use std::collections::HashMap;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        rule: "a case is one accepted document (repairs included); every link of every live node is followed; non-trivial when the tree has at least two nodes",
        quick: 1_200_000,
        thorough: 96_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g13,
        check: c13,
        need: &[("parent_links", 100_000), ("end_tag_links", 30_000), ("repaired_trees", 10_000), ("identity_pairs", 100_000), ("documents_regained", 10_000)],
        extra: None,
        assumptions: &[],
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, with all three repairs",
    },
    Prop {
        id: "C14",
        rule: "a case is one document accepted without repairs; recorded positions are used to slice the source and compared with the reference; non-trivial when it has at least two nodes",
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g14,
        check: c14,
        need: &[("slices_compared", 100_000), ("multi_byte_docs", 3_000), ("end_tag_slices", 20_000)],
        extra: None,
        assumptions: &["begin and end of start tags are only claimed at their first character (the library does not record where a start tag ends)"],
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, default options",
    },
    Prop {
        id: "C21",
        rule: "a case is one node of one document, cloned, compared, edited on either side, and cloned again; non-trivial when the clone has at least two nodes",
        quick: 157_000,
        thorough: 12_560_000,
        threads: 8,
        cpu_limit: 30,
        gen: g21,
        check: c21,
        need: &[("nodes_cloned", 100_000), ("independence_edits", 50_000), ("clones_of_clones", 10_000)],
        extra: None,
        assumptions: &[],
        exhaustive: "",
    },
    Prop {
        id: "C22",
        rule: "a case is one document with ids in many spellings and a set of queries (every id, near-misses, absent strings); non-trivial when an id is present",
        quick: 960_000,
        thorough: 76_800_000,
        threads: 8,
        cpu_limit: 30,
        gen: g22,
        check: c22,
        need: &[("ids_found", 50_000), ("absent_queries", 50_000), ("duplicate_ids", 2_000)],
        extra: None,
        assumptions: &["where several elements carry the same id, any one of them is accepted"],
        exhaustive: "",
    },
    Prop {
        id: "C26",
        rule: "a case is a sequence of top-level constructs; is_document of the root and of every other node is compared with its definition; non-trivial when the root has children",
        quick: 1_200_000,
        thorough: 96_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g26,
        check: c26,
        need: &[("is_document", 10_000), ("not_document", 5_000), ("syntax_wrong", 5_000), ("inner_nodes", 20_000)],
        extra: None,
        assumptions: &[],
        exhaustive: "all sequences of up to 4 of 13 top-level constructs",
    },
    Prop {
        id: "C27",
        rule: "a case is one block of 256 code points (all blocks are covered), or one element name x all node types, or one text; non-trivial when it holds a valid character",
        quick: 480_000,
        thorough: 4_800_000,
        threads: 8,
        cpu_limit: 30,
        gen: g27,
        check: c27,
        need: &[("chars_classified", 1_112_064), ("names_checked", 10_000), ("texts_checked", 5_000)],
        extra: None,
        assumptions: &[],
        exhaustive: "the character predicates on all 1,112,064 Unicode scalar values",
    },
];

// ------------------------------------------------------------------ C13

fn g13(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0b111000, 0, 0);
    }
    match idx % 3 {
        0 => {
            let po = po_any(r) | 0b111000;
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, 0, 0)
        }
        1 => g_hostile_any(idx, r, t),
        _ => g_accept(idx, r, t),
    }
}
pub fn check_links(root: &RefNode, ctx: &mut Ctx) -> Res<usize> {
    let mut count = 0;
    let mut stack = vec![Rc::clone(root)];
    let mut seen = std::collections::HashSet::new();
    while let Some(n) = stack.pop() {
        count += 1;
        if !seen.insert(Rc::as_ptr(&n) as usize) {
            return Err(format!("node {} occurs twice in the tree", where_is(&n.borrow())));
        }
        let b = n.borrow();
        if let Some(e) = &b.end_tag {
            ctx.hit("end_tag_links");
            let eb = e.borrow();
            match eb.parent.as_ref().and_then(|w| w.upgrade()) {
                Some(p) if same(&p, &n) => {}
                _ => return Err(format!("the end tag of {} does not lead back to it", where_is(&b))),
            }
        }
        if let Some(ch) = &b.childs {
            for (i, c) in ch.iter().enumerate() {
                let cb = c.borrow();
                ctx.hit("parent_links");
                match cb.parent.as_ref().and_then(|w| w.upgrade()) {
                    Some(p) if same(&p, &n) => {}
                    Some(p) => return Err(format!("parent of {} is {}, not {}", where_is(&cb), where_is(&p.borrow()), where_is(&b))),
                    None => return Err(format!("{} has no parent link", where_is(&cb))),
                }
                if cb.index != i {
                    return Err(format!("{} has index {} but is child {}", where_is(&cb), cb.index, i));
                }
                match cb.root.as_ref().and_then(|w| w.upgrade()) {
                    Some(p) if same(&p, root) => {}
                    _ => return Err(format!("root link of {} does not lead to the root", where_is(&cb))),
                }
                stack.push(Rc::clone(c));
            }
        }
    }
    Ok(count)
}
/// Node::is_same is true for two ways to the same node and false for different ones
fn identity(root: &RefNode, ctx: &mut Ctx) -> Res<()> {
    let mut all: Vec<RefNode> = vec![];
    let mut stack = vec![Rc::clone(root)];
    while let Some(n) = stack.pop() {
        {
            let b = n.borrow();
            for c in b.childs.iter().flatten() {
                let up = c.borrow().parent.as_ref().and_then(|w| w.upgrade());
                if !up.map(|p| Node::is_same(&p, &n) && Node::is_same(&n, &p)).unwrap_or(false) {
                    return Err(format!("is_same denies that the parent of {} is {}", where_is(&c.borrow()), where_is(&b)));
                }
                stack.push(Rc::clone(c));
            }
            if let Some(e) = &b.end_tag {
                all.push(Rc::clone(e));
            }
        }
        all.push(n);
        if all.len() > 60 {
            break;
        }
    }
    let twin = root.borrow().clone_node();
    for (i, a) in all.iter().enumerate() {
        for (k, b) in all.iter().enumerate().skip(i) {
            ctx.hit("identity_pairs");
            if Node::is_same(a, b) != (i == k) {
                return Err(format!("is_same({}, {}) is {}", where_is(&a.borrow()), where_is(&b.borrow()), i != k));
            }
        }
        if Node::is_same(a, &twin) {
            return Err(format!("is_same takes {} for a clone", where_is(&a.borrow())));
        }
    }
    Ok(())
}
fn c13(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let Ok(doc) = rparse(&c.src, &o) else {
        ctx.hit("rejected");
        return Ok(());
    };
    if !o.is_strict() && rparse(&c.src, &o.strict()).is_err() {
        ctx.hit("repaired_trees");
    }
    let root = doc.get_root_node();
    {
        let b = root.borrow();
        if b.node_type != NodeType::AbstractRoot {
            return Err("the root is not the abstract root".into());
        }
        if b.parent.is_some() {
            return Err("the root has a parent".into());
        }
        match b.root.as_ref().and_then(|w| w.upgrade()) {
            Some(p) if same(&p, &root) => {}
            _ => return Err("the root's root link is not itself".into()),
        }
        match b.document.as_ref().and_then(|w| w.upgrade()) {
            Some(d) => {
                if !same(&d.borrow().root, &root) {
                    return Err("the root's document has another root".into());
                }
            }
            None => return Err("the root has no document".into()),
        }
    }
    if !same(&doc.borrow().root, &root) {
        return Err("get_root_node is not the document's root".into());
    }
    let n = check_links(&root, ctx)?;
    if n > 2 {
        ctx.nontrivial(c);
    }
    identity(&root, ctx)?;
    {
        let again = root.borrow().document.as_ref().and_then(|w| w.upgrade()).map(DocHolder::from);
        match again {
            Some(d) if same(&d.get_root_node(), &root) => ctx.hit("documents_regained"),
            _ => return Err("the handle made from the root's document link has another root".into()),
        }
    }
    drop(doc);
    if root.borrow().document.as_ref().map(|w| w.upgrade().is_some()).unwrap_or(false) {
        return Err("the document is still alive after its handle was dropped".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

fn g14(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0, 0, 0);
    }
    match idx % 4 {
        0 => {
            let (s, _, po) = gen::opaque_doc(r, idx % 100 == 0);
            Case::new(s, po, 0, 0)
        }
        1 => Case::new(gen::spacey(r), 0, 0, 0),
        _ => g_accept(idx, r, t),
    }
}
fn c14(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some(s) = both(c, ctx, false)? else { return Ok(()) };
    if s.real.count() > 2 {
        ctx.nontrivial(c);
    }
    if !c.src.is_ascii() {
        ctx.hit("multi_byte_docs");
    }
    let n = s.chars.len();
    if (s.real.begin, s.real.end) != (0, n) {
        return Err(format!("the root spans {}..{} of {} characters", s.real.begin, s.real.end, n));
    }
    let slice = |a: usize, b: usize| -> Res<String> {
        if a > b || b > n {
            return Err(format!("span {}..{} is not inside the {} characters of the source", a, b, n));
        }
        Ok(st(&s.chars[a..b]))
    };
    let mut stack: Vec<(&Snap, usize, usize)> = vec![(&s.real, 0, n)];
    while let Some((x, lo, hi)) = stack.pop() {
        if x.begin < lo || x.begin > hi {
            return Err(format!("{:?} begins at {} outside of its parent's {}..{}", x.kind, x.begin, lo, hi));
        }
        let content = x.content.as_deref().unwrap_or("");
        let want: Option<String> = match x.kind {
            Kind::Text | Kind::Spaces => Some(content.to_string()),
            Kind::Comment => Some(format!("<!--{}-->", content)),
            _ => None,
        };
        if let Some(w) = want {
            ctx.hit("slices_compared");
            diff(&format!("source slice of {:?} {}..{}", x.kind, x.begin, x.end), &slice(x.begin, x.end)?, &w)?;
        }
        match x.kind {
            Kind::Cdata => {
                ctx.hit("slices_compared");
                let sl = slice(x.begin, x.end)?;
                if !(sl.to_ascii_uppercase().starts_with("<![CDATA[") && sl.ends_with("]]>") && sl.chars().count() == content.chars().count() + 12) {
                    return Err(format!("source slice of CDATA is {:?}", clip(&sl)));
                }
            }
            Kind::Tag => {
                ctx.hit("slices_compared");
                let want = format!("<{}", x.name);
                diff("source at the begin of an element", &slice(x.begin, (x.begin + want.chars().count()).min(n))?, &want)?;
            }
            Kind::Doctype => {
                let want = format!("<!{}", x.name);
                diff("source at the begin of a doctype", &slice(x.begin, (x.begin + want.chars().count()).min(n))?, &want)?;
            }
            _ => {}
        }
        let mut inner_hi = hi;
        if let Some(e) = &x.end_tag {
            ctx.hit("end_tag_slices");
            diff("source slice of an end tag", &slice(e.begin, e.end)?, &format!("</{}>", e.content))?;
            if e.begin < x.begin || e.end > hi {
                return Err(format!("end tag {}..{} is outside of {}..{}", e.begin, e.end, x.begin, hi));
            }
            inner_hi = e.begin;
        }
        let mut at = x.begin;
        for (i, ch) in x.childs.iter().enumerate() {
            if ch.begin < at {
                return Err(format!("child {} of {:?} at {} begins before its predecessor ends ({})", i, x.kind, ch.begin, at));
            }
            at = match (&ch.end_tag, ch.kind) {
                (Some(e), _) => e.end,
                (None, Kind::Tag | Kind::Doctype) => ch.begin + 1,
                _ => ch.end,
            };
            if at > inner_hi {
                return Err(format!("child {} of {:?} ends at {} after its parent's content ({})", i, x.kind, at, inner_hi));
            }
            let next = x.childs.get(i + 1).map(|c| c.begin).unwrap_or(inner_hi);
            stack.push((ch, x.begin, next.max(ch.begin)));
        }
    }
    compare(&s.real, &s.model, Cmp { spans: true, spaces_class: false, ..STRUCT }, "")
}

// ------------------------------------------------------------------ C21

fn g21(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 2 == 0 {
        g_accept(idx, r, t)
    } else {
        let mut c = g_hostile_any(idx, r, t);
        c.po |= 0b111000;
        c
    }
}
/// shift every position of a snapshot down by k (as far as possible)
fn shifted(s: &Snap, k: usize) -> Snap {
    let mut o = clone_shallow(s);
    o.begin = s.begin.saturating_sub(k);
    o.end = s.end.saturating_sub(k);
    if let Some(e) = &mut o.end_tag {
        e.begin = e.begin.saturating_sub(k);
        e.end = e.end.saturating_sub(k);
    }
    o.childs = s.childs.iter().map(|c| shifted(c, k)).collect();
    o
}
const EVERYTHING: Cmp = Cmp { attrs: true, lcmap: true, spans: true, spaces_class: true, index: true, flags: true, tag_ends: true };

fn check_clone_links(clone: &RefNode, index: bool) -> Res<()> {
    let mut stack = vec![Rc::clone(clone)];
    while let Some(n) = stack.pop() {
        let b = n.borrow();
        if let Some(e) = &b.end_tag {
            match e.borrow().parent.as_ref().and_then(|w| w.upgrade()) {
                Some(p) if same(&p, &n) => {}
                _ => return Err(format!("the cloned end tag of {} does not lead to the clone", where_is(&b))),
            }
        }
        if let Some(ch) = &b.childs {
            for (i, c) in ch.iter().enumerate() {
                let cb = c.borrow();
                match cb.parent.as_ref().and_then(|w| w.upgrade()) {
                    Some(p) if same(&p, &n) => {}
                    _ => return Err(format!("parent of cloned {} is not the cloned parent", where_is(&cb))),
                }
                if index && cb.index != i {
                    return Err(format!("cloned {} has index {} but is child {}", where_is(&cb), cb.index, i));
                }
                let prev = cb.prev.as_ref().and_then(|w| w.upgrade());
                let ok = match (i, prev) {
                    (0, None) => true,
                    (0, Some(_)) => false,
                    (_, Some(p)) => same(&p, &ch[i - 1]),
                    (_, None) => false,
                };
                if !ok {
                    return Err(format!("previous-sibling link of cloned {} is wrong", where_is(&cb)));
                }
                stack.push(Rc::clone(c));
            }
        }
    }
    Ok(())
}
/// change something inside a tree
fn scribble(n: &RefNode, r: &mut Rng) {
    let nodes = all_nodes(n);
    for _ in 0..3 {
        let x = &nodes[r.below(nodes.len())];
        let mut b = x.borrow_mut();
        match r.below(6) {
            0 => {
                if let Some(c) = &mut b.content {
                    c.push('!');
                } else {
                    b.content = Some(vec!['?']);
                }
            }
            1 => {
                if let Some(m) = &b.meta {
                    m.borrow_mut().name.push('Q');
                }
            }
            2 => {
                if let Some(m) = &b.meta {
                    let mut m = m.borrow_mut();
                    if let Some(a) = m.attrs.first_mut() {
                        if let Some(v) = &mut a.value {
                            v.content.push('#');
                        }
                        if let Some(k) = &mut a.key {
                            k.content.push('k');
                        }
                    }
                    m.lc_name_map.insert("zz".into(), 99);
                    m.self_closed = !m.self_closed;
                }
            }
            3 => {
                if let Some(ch) = &mut b.childs {
                    match r.below(4) {
                        0 if !ch.is_empty() => {
                            ch.remove(0);
                        }
                        1 => ch.reverse(),
                        2 => ch.insert(0, Rc::new(std::cell::RefCell::new(Node::create_text_node(vec![' ', 'F'], None)))),
                        _ => {
                            ch.pop();
                        }
                    }
                }
            }
            4 => {
                if let Some(e) = &b.end_tag {
                    if let Some(c) = &mut e.borrow_mut().content {
                        c.push('E');
                    }
                }
            }
            _ => {
                b.begin_at += 7;
                b.end_at += 9;
                b.childs.get_or_insert_with(Vec::new).push(Rc::new(std::cell::RefCell::new(Node::create_text_node(vec!['N'], None))));
            }
        }
    }
}
fn c21(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Ok(doc) = rparse(&c.src, &c.p()) else {
        ctx.hit("rejected");
        return Ok(());
    };
    let root = doc.get_root_node();
    let before = snap_rc(&root)?;
    let nodes = all_nodes(&root);
    let mut r = c.rng();
    let ro = ROpts { inner: false, ..c.r() };
    let picks = 1 + nodes.len().min(5);
    for k in 0..picks {
        let n = if k == 0 { Rc::clone(&root) } else { Rc::clone(&nodes[r.below(nodes.len())]) };
        let s = snap_rc(&n)?;
        if s.count() > 1 {
            ctx.nontrivial(c);
        }
        let cl = n.borrow().clone_node();
        ctx.hit("nodes_cloned");
        if same(&cl, &n) {
            return Err("the clone is the node itself".into());
        }
        let cs = snap_rc(&cl)?;
        let mut want = shifted(&s, s.begin);
        want.index = cs.index; // the top node's own index is not part of the claim
        compare(&cs, &want, EVERYTHING, "clone")?;
        if cs.begin != 0 {
            return Err(format!("the clone begins at {}", cs.begin));
        }
        if cl.borrow().parent.is_some() {
            return Err("the clone has a parent".into());
        }
        check_clone_links(&cl, true)?;
        for (x, y) in all_nodes(&cl).iter().zip(&all_nodes(&n)) {
            let flags = |z: &RefNode| z.borrow().meta.as_ref().map(|m| (m.borrow().auto_fix, m.borrow().attrs.iter().map(|a| a.need_quote).collect::<Vec<_>>()));
            let has = |z: &RefNode| (z.borrow().content.is_some(), z.borrow().meta.is_some());
            if has(x) != has(y) {
                return Err(format!("the clone of {} has content and tag data {:?}, the original {:?}", where_is(&y.borrow()), has(x), has(y)));
            }
            if flags(x) != flags(y) {
                return Err(format!("the clone of {} carries the flags {:?}, the original {:?}", where_is(&y.borrow()), flags(x), flags(y)));
            }
        }
        for ro in [ROpts::default(), ro] {
            diff("rendering of the clone", &outer(&cl, &ro), &outer(&n, &ro))?;
        }
        // nothing is shared
        let mut ptrs: std::collections::HashSet<usize> = all_nodes(&n).iter().map(|x| Rc::as_ptr(x) as usize).collect();
        for x in all_nodes(&n) {
            if let Some(e) = &x.borrow().end_tag {
                ptrs.insert(Rc::as_ptr(e) as usize);
            }
        }
        for x in all_nodes(&cl) {
            if ptrs.contains(&(Rc::as_ptr(&x) as usize)) || x.borrow().end_tag.as_ref().map(|e| ptrs.contains(&(Rc::as_ptr(e) as usize))).unwrap_or(false) {
                return Err(format!("the clone shares {} with the original", where_is(&x.borrow())));
            }
        }
        let cl2 = cl.borrow().clone_node();
        ctx.hit("clones_of_clones");
        scribble(&cl, &mut r);
        ctx.hit("independence_edits");
        compare(&snap_rc(&root)?, &before, EVERYTHING, "original after editing the clone")?;
        compare(&snap_rc(&cl2)?, &cs, EVERYTHING, "clone of the clone")?;
        // Clone on a plain node value
        if s.count() < 200 {
            let v: Node = n.borrow().clone();
            let vs = snap(&v)?;
            let mut w = shifted(&s, s.begin);
            w.index = vs.index;
            compare(&vs, &w, EVERYTHING, "Clone::clone")?;
        }
    }
    // edits of the original are not seen by a clone
    let cl = root.borrow().clone_node();
    let cs = snap_rc(&cl)?;
    scribble(&root, &mut r);
    ctx.hit("independence_edits");
    compare(&snap_rc(&cl)?, &cs, EVERYTHING, "clone after editing the original")?;
    // clones of edited nodes, whose recorded indexes and positions may be stale
    let now = all_nodes(&root);
    for k in 0..1 + now.len().min(2) {
        let n = if k == 0 { &root } else { &now[r.below(now.len())] };
        let cl = n.borrow().clone_node();
        ctx.hit("edited_nodes_cloned");
        compare(&snap_edited(&cl)?, &snap_edited(n)?, Cmp { spans: false, index: false, tag_ends: false, ..EVERYTHING }, "clone of an edited node")?;
        check_clone_links(&cl, false)?;
        for ro in [ROpts::default(), ro] {
            diff("rendering of the clone of an edited node", &outer(&cl, &ro), &outer(n, &ro))?;
        }
    }
    drop(now);
    drop(doc);
    drop(root);
    drop(nodes);
    compare(&snap_rc(&cl)?, &cs, EVERYTHING, "clone after dropping the original")
}

// ------------------------------------------------------------------ C22

fn g22(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 4 == 3 {
        return g_hostile_any(idx, r, t);
    }
    let po = po_any(r);
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    let vals = ["a", "A", "b", "main", "x y", "", " ", "é", "1", "id", "a-b", "aa", "#a", "a'b", "中", "/", "a/", "😀", "a\nb"];
    let many = r.chance(1, 40);
    for i in 0..1 + r.below(if many { 150 } else { 8 }) {
        let n = match r.below(8) {
            0 => model::VOIDS[r.below(14)].to_string(),
            1 => model::RAWS[r.below(4)].to_string(),
            2 => "svg".to_string(),
            3 => "pre".to_string(),
            _ => r.pick(gen::NAMES).to_string(),
        };
        let key = r.pick(&["id", "id", "id", "ID", "Id", "iD", "idx", "i", "data-id", "ıd", "id-", "name"]);
        let v: String = if many { format!("n{}", r.below(200)) } else { r.pick(&vals).to_string() };
        let attr = match r.below(4) {
            0 => {
                let u: String = v.chars().filter(|c| !model::ws(*c) && *c != '>').collect();
                if u.is_empty() || u.starts_with(|c| c == '"' || c == '\'') {
                    key.to_string()
                } else {
                    format!("{}{}{}", key, r.pick(&["=", " = ", "= "]), u)
                }
            }
            1 => format!("{}='{}'", key, v.replace('\'', "")),
            _ => format!("{}=\"{}\"", key, v),
        };
        let lead = r.pick(&["", " c=d", " class=\"q\"", " id"]);
        let trail = r.pick(&["", " z", " y='1'", " id=second"]);
        s.push_str(&format!("<{}{} {}{}", n, lead, attr, trail));
        if model::is_void(&n) {
            s.push_str(r.pick(&[">", " />"]));
        } else if model::is_raw(&n) {
            s.push_str(&format!("><i id=\"fake\"></{}>", n));
        } else if stack.iter().any(|x| model::is_special(x)) && r.chance(1, 2) {
            s.push_str(" />");
        } else {
            s.push('>');
            stack.push(n);
        }
        if i % 2 == 0 {
            s.push_str(r.pick(&["t", " ", "<!-- id=\"c\" -->", "id=x"]));
        }
        if r.chance(1, 2) {
            if let Some(n) = stack.pop() {
                s.push_str(&format!("</{}>", n));
            }
        }
    }
    if !(po & 8 != 0 && r.chance(1, 2)) {
        while let Some(n) = stack.pop() {
            s.push_str(&format!("</{}>", n));
        }
    }
    Case::new(s, po, 0, r.u64() >> 16)
}
fn c22(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Ok(doc) = rparse(&c.src, &c.p()) else {
        ctx.hit("rejected");
        return Ok(());
    };
    let root = doc.get_root_node();
    let mut have: HashMap<String, Vec<RefNode>> = HashMap::new();
    for n in all_nodes(&root) {
        if let Some(m) = &n.borrow().meta {
            for a in &m.borrow().attrs {
                if let (Some(k), Some(v)) = (&a.key, &a.value) {
                    if st(&k.content).eq_ignore_ascii_case("id") {
                        have.entry(st(&v.content)).or_default().push(Rc::clone(&n));
                    }
                }
            }
        }
    }
    if !have.is_empty() {
        ctx.nontrivial(c);
    }
    for (id, ns) in &have {
        if ns.len() > 1 {
            ctx.hit("duplicate_ids");
        }
        match doc.get_element_by_id(id) {
            None => return Err(format!("id {:?} is not found", clip(id))),
            Some(x) => {
                ctx.hit("ids_found");
                if !ns.iter().any(|n| same(n, &x)) {
                    return Err(format!("looking up {:?} gives {}, which does not carry that id", clip(id), where_is(&x.borrow())));
                }
            }
        }
    }
    // what the source says, independently of what the tree says
    let chars: Vec<char> = c.src.chars().collect();
    if let (Ok(m), _) = model::parse(&chars, c.p()) {
        let mut stack = vec![&m];
        while let Some(n) = stack.pop() {
            for a in &n.attrs {
                if let (Some(k), Some(v)) = (&a.key, &a.value) {
                    if k.eq_ignore_ascii_case("id") {
                        ctx.hit("ids_of_the_source");
                        if doc.get_element_by_id(v).is_none() {
                            return Err(format!("id {:?} of the source is not found", clip(v)));
                        }
                    }
                }
            }
            stack.extend(&n.childs);
        }
    }
    let mut queries: Vec<String> = vec!["".into(), "fake".into(), "c".into(), "x".into(), "id".into(), "a".into(), "A".into(), " ".into(), "nosuch".into(), "second".into()];
    for id in have.keys().take(20) {
        queries.push(id.to_uppercase());
        queries.push(id.to_lowercase());
        queries.push(format!("{} ", id));
        queries.push(format!("#{}", id));
        queries.push(id.chars().skip(1).collect());
        queries.push(id.trim().to_string());
        let mut t = id.clone();
        t.pop();
        queries.push(t);
    }
    for q in queries {
        if have.contains_key(&q) {
            continue;
        }
        ctx.hit("absent_queries");
        if let Some(x) = doc.get_element_by_id(&q) {
            return Err(format!("looking up {:?}, which no element carries, gives {}", clip(&q), where_is(&x.borrow())));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

const TOP: [&str; 13] = ["<html></html>", "<HTML><p></p></HTML>", "<div></div>", "<!-- c -->", "<!DOCTYPE html>", " ", "x", "<br>", "<script></script>", "<htmls></htmls>", "<htm></htm>", "<svg><g><![CDATA[x]]></g></svg>", "\u{a0}"];

fn g26(idx: u64, r: &mut Rng, t: bool) -> Case {
    // all sequences of up to 4 top-level constructs
    let mut k = idx;
    let mut block = 1u64;
    for len in 0..=4u32 {
        if k < block {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(TOP[(k % 13) as usize]);
                k /= 13;
            }
            return Case::new(s, 0, 0, 0);
        }
        k -= block;
        block *= 13;
    }
    if idx % 3 == 0 {
        return g_hostile_any(idx, r, t);
    }
    let mut s = String::new();
    for _ in 0..r.below(9) {
        match r.below(8) {
            0 | 1 => {
                let n = gen::case_mix(r, "html");
                s.push_str(&format!("<{}{}>{}</{}>", n, r.pick(&["", " lang=en", " "]), r.pick(&["", "x", " ", "<html></html>", "<body></body>"]), n));
            }
            2 => s.push_str(&format!("<h{}></h{}>", r.pick(&["tml2", "TM", "tmk", "1", "tml-x"]), "z").replace("hz", "hz")),
            _ => s.push_str(TOP[r.below(13)]),
        }
    }
    Case::new(s, 0b111000, 0, 0)
}
fn c26(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Ok(doc) = rparse(&c.src, &c.p()) else {
        ctx.hit("rejected");
        return Ok(());
    };
    let root = doc.get_root_node();
    let s = snap_rc(&root)?;
    if !s.childs.is_empty() {
        ctx.nontrivial(c);
    }
    let tags: Vec<&Snap> = s.childs.iter().filter(|x| x.kind == Kind::Tag).collect();
    let want_doc = tags.iter().any(|x| model::lc(&x.name) == "html");
    let others_ok = s.childs.iter().all(|x| matches!(x.kind, Kind::Tag | Kind::Comment | Kind::Spaces | Kind::Doctype));
    let want_ok = !want_doc || (tags.len() == 1 && others_ok);
    let got = root.borrow().is_document();
    ctx.hit(if want_doc { "is_document" } else { "not_document" });
    if !want_ok {
        ctx.hit("syntax_wrong");
    }
    if got != (want_doc, want_ok) {
        return Err(format!("is_document of the root is {:?}, expected {:?} ({})", got, (want_doc, want_ok), brief(&s)));
    }
    for n in all_nodes(&root).iter().skip(1).take(50) {
        ctx.hit("inner_nodes");
        let b = n.borrow();
        if b.is_document().0 {
            return Err(format!("{} claims to be a document", where_is(&b)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

fn g27(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let blocks = 0x11_0000u64 / 256;
    if idx < blocks {
        let mut c = Case::new(String::new(), 0, 0, idx);
        c.tag = "chars".into();
        return c;
    }
    if idx % 2 == 0 {
        let n = match r.below(6) {
            0 => {
                let v = model::VOIDS[r.below(14)];
                gen::case_mix(r, v)
            }
            1 => {
                let v = model::RAWS[r.below(4)];
                gen::case_mix(r, v)
            }
            2 => {
                let v = r.pick(&["svg", "math"]);
                gen::case_mix(r, v)
            }
            3 | 5 if r.chance(1, 2) => {
                let w = &crate::ladder::literals().words;
                let v = if w.is_empty() { "a".to_string() } else { w[r.below(w.len())].clone() };
                gen::case_mix(r, &v)
            }
            3 => r.pick(gen::NEAR).to_string(),
            4 => {
                let v = [&model::VOIDS[..], &model::RAWS[..], &["svg", "math"][..]].concat();
                let v = v[r.below(v.len())];
                gen::mutate(r, v)
            }
            _ => r.pick(gen::NAMES).to_string(),
        };
        let mut c = Case::new(n, 0, 0, 0);
        c.tag = "name".into();
        return c;
    }
    let mut s = String::new();
    if r.chance(1, 12) {
        // long ones
        let k = crate::ladder::steps();
        let n = k[r.below(k.len())].min(5000);
        let u = r.pick(&[" ", "\n", "x", "\t "]);
        s = u.repeat(n);
    }
    for _ in 0..r.below(6) {
        if r.chance(4, 5) {
            s.push_str(r.pick(gen::SPACES));
        } else {
            s.push(gen::weird_char(r));
        }
    }
    let mut c = Case::new(s, 0, 0, r.u64() >> 40);
    c.tag = "text".into();
    c
}
fn c27(c: &Case, ctx: &mut Ctx) -> Res<()> {
    match c.tag.as_str() {
        "chars" => {
            for v in c.aux * 256..c.aux * 256 + 256 {
                let Some(ch) = char::from_u32(v as u32) else { continue };
                ctx.hit("chars_classified");
                let u = v as u32;
                let non = (0xFDD0..=0xFDEF).contains(&u) || (u & 0xFFFE) == 0xFFFE;
                if util::is_non_character(&ch) != non {
                    return Err(format!("is_non_character(U+{:04X}) is not {}", u, non));
                }
                let ascii = u < 128;
                let space = matches!(u, 9 | 10 | 12 | 13 | 32);
                let control = u < 32 || u == 127;
                let alnum = matches!(u, 48..=57 | 65..=90 | 97..=122);
                let name_punct = matches!(ch, '_' | '-' | '.' | ':');
                let key = if ascii { alnum || name_punct } else { !non };
                let _ = control;
                if util::is_char_available_in_key(&ch) != key {
                    return Err(format!("is_char_available_in_key(U+{:04X}) is not {}", u, key));
                }
                let value = !(space || u == 0 || matches!(ch, '"' | '\'' | '<' | '>' | '/' | '=' | '`'));
                if util::is_char_available_in_value(&ch) != value {
                    return Err(format!("is_char_available_in_value(U+{:04X}) is not {}", u, value));
                }
                let quoted = space || matches!(ch, '"' | '\'' | '<' | '>' | '=' | '`');
                if Attr::need_quoted_char(&ch) != quoted {
                    return Err(format!("need_quoted_char(U+{:04X}) is not {}", u, quoted));
                }
            }
            ctx.nontrivial(c);
        }
        "name" => {
            ctx.nontrivial(c);
            let name: Vec<char> = c.src.chars().collect();
            let l = model::lc(&c.src);
            for t in [NodeType::AbstractRoot, NodeType::HTMLDOCTYPE, NodeType::Comment, NodeType::Text, NodeType::SpacesBetweenTag, NodeType::Tag, NodeType::TagEnd, NodeType::XMLCDATA] {
                let text = matches!(t, NodeType::Text | NodeType::SpacesBetweenTag);
                let want = if model::is_void(&l) {
                    false
                } else if l == "title" || l == "textarea" {
                    text
                } else if t == NodeType::XMLCDATA {
                    l == "svg" || l == "math"
                } else {
                    true
                };
                ctx.hit("names_checked");
                if allow_insert(&name, t) != want {
                    return Err(format!("allow_insert({:?}, {:?}) is not {}", c.src, t, want));
                }
            }
            let raw_ci = model::is_raw(&l);
            let raw_exact = model::RAWS.contains(&c.src.as_str());
            if is_content_tag(&name, &Some(NameCase::Lower)) != raw_ci {
                return Err(format!("is_content_tag({:?}, any case) is not {}", c.src, raw_ci));
            }
            if is_content_tag(&name, &None) != raw_exact {
                return Err(format!("is_content_tag({:?}, exact) is not {}", c.src, raw_exact));
            }
        }
        _ => {
            ctx.nontrivial(c);
            ctx.hit("texts_checked");
            let v: Vec<char> = c.src.chars().collect();
            let at = if c.aux % 3 == 0 { None } else { Some(c.aux as usize) };
            let n = Node::create_text_node(v.clone(), at);
            let spaces = v.iter().all(|c| model::ws(*c));
            let want = if spaces { NodeType::SpacesBetweenTag } else { NodeType::Text };
            if n.node_type != want {
                return Err(format!("text node of {:?} is {:?}", c.src, n.node_type));
            }
            if n.content.as_ref() != Some(&v) {
                return Err(format!("text node of {:?} holds {:?}", c.src, n.content));
            }
            if n.begin_at != at.unwrap_or(0) || n.parent.is_some() || n.childs.is_some() {
                return Err("a created text node has a position, parent or children it was not given".into());
            }
            let rn = Rc::new(std::cell::RefCell::new(n));
            diff("rendering of a created text node", &outer(&rn, &ROpts::default()), &c.src)?;
            let n2 = Node::new(NodeType::Comment, c.aux as usize);
            if n2.begin_at != c.aux as usize || n2.node_type != NodeType::Comment || n2.content.is_some() {
                return Err("Node::new does not give an empty node at the position".into());
            }
        }
    }
    Ok(())
}
