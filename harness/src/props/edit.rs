//! C28: histories of edits through the public fields.
use super::*;
use crate::model::Mode;
use rphtml::parser::{Attr, AttrData, TagMeta};

pub static PROPS: &[Prop] = &[Prop {
    id: "C28",
    rule: "a case is one document (and a second one to take nodes from) with a random history of up to 14 edits; after every edit the whole document and, at the end, every node is rendered under random options and compared with the reference serialisation of the fields as they now read; non-trivial when at least three edits changed the tree",
    quick: 270_000,
    thorough: 21_600_000,
    threads: 8,
    cpu_limit: 30,
    gen: g28,
    check: c28,
    need: &[("edits", 150_000), ("renders_compared", 300_000), ("grafts", 10_000), ("attribute_edits", 10_000), ("moves", 5_000), ("node_renders_compared", 100_000)],
    extra: None,
    assumptions: &["an edited attribute's need_quote flag is set as the parser would set it", "edits never make a node its own descendant and keep the content a node type must have"],
    exhaustive: "",
}];

fn g28(idx: u64, r: &mut Rng, t: bool) -> Case {
    let mut c = match idx % 5 {
        0 => Case::new(gen::spacey(r), 0, 0, 0),
        1 => {
            let po = po_repair(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, 0, 0)
        }
        2 => {
            let (s, _, po) = gen::opaque_doc(r, false);
            Case::new(s, po, 0, 0)
        }
        _ => {
            let mut c = g_accept(idx | 1, r, t);
            if c.src.len() > 3000 {
                c.src = gen::spacey(r);
            }
            c
        }
    };
    c.ro = ro_any(r);
    c.aux = r.u64() >> 16;
    c
}

pub fn mk_attr(r: &mut Rng) -> Attr {
    let mut s = SAttr::default();
    if r.chance(7, 8) {
        s.key = Some(r.pick(gen::KEYS).to_string());
    }
    if s.key.is_none() || r.chance(3, 4) {
        s.value = Some(r.pick(gen::VALS).to_string());
        s.quote = match r.below(4) {
            0 => None,
            1 => Some('\''),
            _ => Some('"'),
        };
    }
    Attr { key: s.key.as_ref().map(|k| AttrData { content: k.chars().collect() }), value: s.value.as_ref().map(|k| AttrData { content: k.chars().collect() }), quote: s.quote, need_quote: s.quote.is_some() && model::needs_quote(&s) }
}
pub fn mk_node(r: &mut Rng) -> RefNode {
    let n = match r.below(8) {
        0 | 1 => Node::create_text_node(gen::text(r).chars().collect(), if r.chance(1, 2) { Some(r.below(50)) } else { None }),
        2 => Node::create_text_node(r.pick(gen::SPACES).chars().collect(), None),
        3 => {
            let mut n = Node::new(NodeType::Comment, 0);
            n.content = [None, Some(vec![]), Some("new -- comment".chars().collect())][r.below(3)].clone();
            n
        }
        4 => {
            let mut n = Node::new(NodeType::XMLCDATA, 3);
            n.content = [None, Some(vec![]), Some("c<d".chars().collect())][r.below(3)].clone();
            n
        }
        _ => {
            let mut n = Node::new(NodeType::Tag, 0);
            let name = r.pick(&["div", "PRE", "br", "Script", "p", "x-y", "title", "TextArea"]);
            let mut m = TagMeta::default();
            m.name = name.chars().collect();
            m.is_void = model::is_void(name);
            m.self_closed = r.chance(1, 6);
            for _ in 0..r.below(3) {
                m.attrs.push(mk_attr(r));
            }
            if !m.is_void && !m.self_closed {
                let mut e = Node::new(NodeType::TagEnd, if r.chance(1, 2) { 0 } else { r.below(300) });
                e.content = Some(format!("{}{}", name, r.pick(&["", " ", "\n"])).chars().collect());
                n.end_tag = Some(Rc::new(std::cell::RefCell::new(e)));
                if model::is_raw(name) {
                    n.content = Some("a & b < c".chars().collect());
                } else {
                    n.childs = Some(vec![Rc::new(std::cell::RefCell::new(Node::create_text_node("  in  ".chars().collect(), None)))]);
                }
            }
            n.meta = Some(std::cell::RefCell::new(m));
            n
        }
    };
    Rc::new(std::cell::RefCell::new(n))
}
fn relink(p: &RefNode) {
    let ch: Vec<RefNode> = p.borrow().childs.clone().unwrap_or_default();
    for (i, c) in ch.iter().enumerate() {
        let mut c = c.borrow_mut();
        c.index = i;
        c.parent = Some(Rc::downgrade(p));
    }
}
fn holds(a: &RefNode, b: &RefNode) -> bool {
    all_nodes(a).iter().any(|x| same(x, b))
}

fn c28(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Ok(doc) = rparse(&c.src, &c.p()) else {
        ctx.hit("rejected");
        return Ok(());
    };
    let mut r = c.rng();
    let other = rparse("<ul id=a>\n <li class='x y'>1</li> <li>2 &amp; 3</li></ul><pre> a  b </pre><!-- o --><svg><g><![CDATA[q]]></g></svg><textarea> &lt; </textarea>", &POpts::default()).map_err(|e| format!("the second document is rejected: {}", e))?;
    let root = doc.get_root_node();
    let link = r.chance(1, 2); // half of the histories keep the links in step, half do not
    let steps = 1 + r.below(14);
    let steady = r.chance(1, 2); // half of the histories repeat the same options
    let fixed = ROpts { inner: false, ..c.r() };
    let mut changed = 0;
    let mut removed: Vec<RefNode> = vec![];
    for _ in 0..steps {
        let nodes = all_nodes(&root);
        let parents: Vec<&RefNode> = nodes.iter().filter(|n| matches!(n.borrow().node_type, NodeType::Tag | NodeType::AbstractRoot)).collect();
        let p = Rc::clone(parents[r.below(parents.len())]);
        let n = Rc::clone(&nodes[r.below(nodes.len())]);
        let mut did = true;
        match r.below(18) {
            0 | 1 => {
                let x = mk_node(&mut r);
                let k = r.below(p.borrow().childs.as_ref().map(|v| v.len()).unwrap_or(0) + 1);
                p.borrow_mut().childs.get_or_insert_with(Vec::new).insert(k, x);
                ctx.hit("inserts");
            }
            2 => {
                let len = p.borrow().childs.as_ref().map(|v| v.len()).unwrap_or(0);
                if len > 0 {
                    let k = r.below(len);
                    let x = p.borrow_mut().childs.as_mut().unwrap().remove(k);
                    removed.push(x);
                    ctx.hit("removes");
                } else {
                    did = false;
                }
            }
            3 => {
                // move: a removed node comes back somewhere else
                if let Some(x) = removed.pop() {
                    if !holds(&x, &p) {
                        p.borrow_mut().childs.get_or_insert_with(Vec::new).push(x);
                        ctx.hit("moves");
                    }
                } else {
                    let len = p.borrow().childs.as_ref().map(|v| v.len()).unwrap_or(0);
                    if len > 1 {
                        let (a, b) = (r.below(len), r.below(len));
                        p.borrow_mut().childs.as_mut().unwrap().swap(a, b);
                        ctx.hit("moves");
                    } else {
                        did = false;
                    }
                }
            }
            4 => {
                let cl = n.borrow().clone_node();
                if cl.borrow().node_type != NodeType::AbstractRoot && nodes.len() < 400 {
                    p.borrow_mut().childs.get_or_insert_with(Vec::new).push(cl);
                    ctx.hit("grafts");
                } else {
                    did = false;
                }
            }
            5 => {
                // a node of the other document, or a clone of one
                let on = all_nodes(&other.get_root_node());
                let x = &on[r.below(on.len())];
                if x.borrow().node_type != NodeType::AbstractRoot && !holds(x, &p) {
                    let x = if r.chance(1, 2) { x.borrow().clone_node() } else { Rc::clone(x) };
                    p.borrow_mut().childs.get_or_insert_with(Vec::new).insert(0, x);
                    ctx.hit("grafts");
                } else {
                    did = false;
                }
            }
            6 => {
                let len = p.borrow().childs.as_ref().map(|v| v.len()).unwrap_or(0);
                if len > 0 {
                    let k = r.below(len);
                    let x = mk_node(&mut r);
                    p.borrow_mut().childs.as_mut().unwrap()[k] = x;
                    ctx.hit("replaces");
                } else {
                    did = false;
                }
            }
            7 => {
                p.borrow_mut().childs = if r.chance(1, 2) { None } else { Some(vec![]) };
                ctx.hit("cleared");
            }
            8 | 9 => {
                let mut b = n.borrow_mut();
                if b.content.is_some() {
                    let t = if r.chance(1, 5) {
                        String::new()
                    } else if b.node_type == NodeType::SpacesBetweenTag {
                        r.pick(gen::SPACES).to_string()
                    } else {
                        gen::text(&mut r)
                    };
                    if r.chance(1, 3) {
                        b.content.as_mut().unwrap().extend(t.chars());
                    } else {
                        b.content = Some(t.chars().collect());
                    }
                    if matches!(b.node_type, NodeType::Text | NodeType::SpacesBetweenTag) && r.chance(1, 4) {
                        b.node_type = if b.node_type == NodeType::Text { NodeType::SpacesBetweenTag } else { NodeType::Text };
                    }
                    ctx.hit("content_edits");
                } else {
                    did = false;
                }
            }
            10 => {
                let b = n.borrow();
                if let Some(m) = &b.meta {
                    let nm = r.pick(&["pre", "PRE", "div", "Svg", "script", "TITLE", "textarea", "b", "é", "brr"]);
                    let mut m = m.borrow_mut();
                    m.name = nm.chars().collect();
                    if r.chance(1, 4) {
                        m.is_void = !m.is_void;
                    }
                    if r.chance(1, 4) {
                        m.self_closed = !m.self_closed;
                    }
                    ctx.hit("name_edits");
                } else {
                    did = false;
                }
            }
            11 | 12 => {
                let b = n.borrow();
                if let Some(m) = &b.meta {
                    let mut m = m.borrow_mut();
                    let len = m.attrs.len();
                    match r.below(6) {
                        0 if len > 0 => {
                            let k = r.below(len);
                            m.attrs.remove(k);
                        }
                        1 if len > 0 => {
                            let k = r.below(len);
                            m.attrs[k] = mk_attr(&mut r);
                        }
                        2 => {
                            // the public builders
                            m.add_attr_key();
                            let k = r.pick(gen::KEYS);
                            m.set_attr_key(k.chars().collect());
                            if r.chance(3, 4) {
                                let v = r.pick(gen::VALS);
                                let q = [None, Some('"'), Some('\'')][r.below(3)];
                                m.set_attr_value(v.chars().collect(), q);
                            }
                        }
                        3 if len > 1 => m.attrs.reverse(),
                        4 => m.attrs.clear(),
                        _ => {
                            let k = r.below(len + 1);
                            m.attrs.insert(k, mk_attr(&mut r));
                        }
                    }
                    ctx.hit("attribute_edits");
                } else {
                    did = false;
                }
            }
            13 => {
                let mut b = n.borrow_mut();
                if b.node_type == NodeType::Tag {
                    if b.end_tag.is_some() && r.chance(1, 3) {
                        b.end_tag = None;
                    } else if let Some(e) = &b.end_tag {
                        e.borrow_mut().content = Some(r.pick(&["pre", "PRE ", "div\n", "Zz", "b"]).chars().collect());
                    } else {
                        let mut e = Node::new(NodeType::TagEnd, if r.chance(1, 2) { 0 } else { r.below(300) });
                        e.content = Some("Q ".chars().collect());
                        if r.chance(1, 4) {
                            e.parent = Some(Rc::downgrade(&root));
                        }
                        b.end_tag = Some(Rc::new(std::cell::RefCell::new(e)));
                    }
                    ctx.hit("end_tag_edits");
                } else {
                    did = false;
                }
            }
            16 => {
                // end tags change places, or an element takes over another one's
                let q = parents[r.below(parents.len())];
                if !same(q, &p) && q.borrow().node_type == NodeType::Tag && p.borrow().node_type == NodeType::Tag {
                    let (a, b) = (p.borrow_mut().end_tag.take(), q.borrow_mut().end_tag.take());
                    p.borrow_mut().end_tag = if r.chance(1, 3) { b.as_ref().map(|e| e.borrow().clone_node()) } else { b };
                    q.borrow_mut().end_tag = a;
                    ctx.hit("end_tag_edits");
                } else {
                    did = false;
                }
            }
            17 => {
                // whole child lists change places
                let q = parents[r.below(parents.len())];
                if !holds(&p, q) && !holds(q, &p) {
                    let a = p.borrow_mut().childs.take();
                    let b = std::mem::replace(&mut q.borrow_mut().childs, a);
                    p.borrow_mut().childs = b;
                    if link {
                        relink(q);
                    }
                    ctx.hit("moves");
                } else if let Some(m) = &p.borrow().meta {
                    // duplicate names, as a user may write them
                    let mut m = m.borrow_mut();
                    if let Some(a) = m.attrs.first().cloned() {
                        m.attrs.push(a);
                        ctx.hit("attribute_edits");
                    } else {
                        did = false;
                    }
                } else {
                    did = false;
                }
            }
            14 => {
                // replace the node in place
                if !same(&n, &root) {
                    let x = mk_node(&mut r);
                    let v = x.borrow().clone();
                    *n.borrow_mut() = v;
                    ctx.hit("replaces");
                } else {
                    did = false;
                }
            }
            _ => {
                // positions and links are not part of what is rendered
                let mut b = n.borrow_mut();
                b.begin_at = r.below(1000);
                b.end_at = r.below(1000);
                b.index = r.below(9);
                b.prev = None;
                if !same(&n, &root) && r.chance(1, 2) {
                    b.parent = None;
                    b.root = None;
                    b.document = None;
                }
                if let Some(e) = &b.end_tag {
                    let mut e = e.borrow_mut();
                    e.begin_at = r.below(1000);
                    e.end_at = r.below(1000);
                    e.index = r.below(9);
                    if r.chance(1, 2) {
                        e.parent = None;
                    }
                }
                if let Some(m) = &b.meta {
                    let mut m = m.borrow_mut();
                    if r.chance(1, 2) {
                        m.auto_fix = !m.auto_fix;
                    }
                    if r.chance(1, 2) {
                        m.lc_name_map.clear();
                    } else {
                        let k = r.below(99);
                        m.lc_name_map.insert(r.pick(gen::KEYS).to_string(), k);
                    }
                }
                did = false;
            }
        }
        if link {
            relink(&p);
        }
        ctx.hit("edits");
        if did {
            changed += 1;
        }
        let s = snap_edited(&root)?;
        if s.count() > 3000 {
            break;
        }
        let ro = ROpts { inner: false, ..ROpts::from_bits(r.below(256) as u32) };
        let ro = if steady { fixed } else { ro };
        for o in [ROpts::default(), ro] {
            ctx.hit("renders_compared");
            diff("rendering after an edit", &doc.render(&o.real()), &model::render(&s, &o, Mode::Outer))?;
        }
    }
    if changed >= 3 {
        ctx.nontrivial(c);
    }
    let ro = ROpts { inner: false, ..c.r() };
    let s = snap_edited(&root)?;
    let mut flat: Vec<&Snap> = vec![];
    s.walk(&mut |x| flat.push(x));
    let live = all_nodes(&root);
    let step = 1 + live.len() / 40;
    for (n, s) in live.iter().zip(&flat).step_by(step) {
        ctx.hit("node_renders_compared");
        diff("rendering of a node after the edits", &outer(n, &ro), &model::render(s, &ro, Mode::Outer))?;
        if s.kind == Kind::Tag {
            diff("inner HTML after the edits", &inner_html(n, &ro), &model::render(s, &ro, Mode::Inner))?;
            diff("inner text after the edits", &inner_text(n, &ro), &model::render(s, &ro, Mode::Text))?;
        }
    }
    if tag_children(&s) == 1 {
        let t = s.childs.iter().find(|x| x.kind == Kind::Tag).unwrap();
        diff("inner text of the root after the edits", &doc.render_text(&ro.real()), &model::render(t, &ro, Mode::Text))?;
        diff("inner HTML of the root after the edits", &inner_html(&root, &ro), &model::render(t, &ro, Mode::Inner))?;
    }
    for x in &removed {
        let s = snap_edited(x)?;
        diff("rendering of a removed node", &outer(x, &ro), &model::render(&s, &ro, Mode::Outer))?;
    }
    Ok(())
}
pub fn run(c: &Case) -> Res<()> {
    c28(c, &mut Ctx::default())
}
