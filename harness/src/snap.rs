//! Owned snapshots of the library's tree (observations), and comparators.
use rphtml::parser::{Node, NodeType, RefNode};
use std::rc::Rc;

pub type Res<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Root,
    Doctype,
    Comment,
    Text,
    Spaces,
    Tag,
    TagEnd,
    Cdata,
}

pub fn kind_of(t: NodeType) -> Kind {
    match t {
        NodeType::AbstractRoot => Kind::Root,
        NodeType::HTMLDOCTYPE => Kind::Doctype,
        NodeType::Comment => Kind::Comment,
        NodeType::Text => Kind::Text,
        NodeType::SpacesBetweenTag => Kind::Spaces,
        NodeType::Tag => Kind::Tag,
        NodeType::TagEnd => Kind::TagEnd,
        NodeType::XMLCDATA => Kind::Cdata,
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct SAttr {
    pub key: Option<String>,
    pub value: Option<String>,
    pub quote: Option<char>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SEnd {
    pub content: String,
    pub begin: usize,
    pub end: usize,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Snap {
    pub kind: Kind,
    pub begin: usize,
    pub end: usize,
    pub index: usize,
    pub name: String,
    pub attrs: Vec<SAttr>,
    pub lcmap: Vec<(String, usize)>,
    pub content: Option<String>,
    pub childs: Vec<Snap>,
    pub end_tag: Option<SEnd>,
    pub is_void: bool,
    pub self_closed: bool,
}

impl Snap {
    pub fn new(kind: Kind, begin: usize) -> Snap {
        Snap {
            kind,
            begin,
            end: begin,
            index: 0,
            name: String::new(),
            attrs: vec![],
            lcmap: vec![],
            content: None,
            childs: vec![],
            end_tag: None,
            is_void: false,
            self_closed: false,
        }
    }
    pub fn is_texty(&self) -> bool {
        matches!(self.kind, Kind::Text | Kind::Spaces)
    }
    pub fn count(&self) -> usize {
        1 + self.childs.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.childs.iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Snap)) {
        f(self);
        for c in &self.childs {
            c.walk(f);
        }
    }
}

fn st(v: &[char]) -> String {
    v.iter().collect()
}

/// Take a snapshot; Err when the tree lacks data every node of that type must carry.
pub fn snap(node: &Node) -> Res<Snap> {
    snap_as(node, false)
}
/// the same for an edited tree, where a comment or CDATA section may have been made without content
pub fn snap_edited(node: &RefNode) -> Res<Snap> {
    snap_as(&node.borrow(), true)
}
fn snap_as(node: &Node, edited: bool) -> Res<Snap> {
    let mut s = Snap::new(kind_of(node.node_type), node.begin_at);
    s.end = node.end_at;
    s.index = node.index;
    s.content = node.content.as_ref().map(|c| st(c));
    if let Some(meta) = &node.meta {
        let m = meta.borrow();
        s.name = st(&m.name);
        s.is_void = m.is_void;
        s.self_closed = m.self_closed;
        for a in &m.attrs {
            s.attrs.push(SAttr {
                key: a.key.as_ref().map(|k| st(&k.content)),
                value: a.value.as_ref().map(|k| st(&k.content)),
                quote: a.quote,
            });
        }
        s.lcmap = m.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect();
        s.lcmap.sort();
    } else if matches!(s.kind, Kind::Tag | Kind::Doctype) {
        return Err(format!("{:?} node at {} without tag data", s.kind, s.begin));
    }
    let must = matches!(s.kind, Kind::Text | Kind::Spaces) || (!edited && matches!(s.kind, Kind::Comment | Kind::Cdata));
    if must && s.content.is_none() {
        return Err(format!("{:?} node at {} without content", s.kind, s.begin));
    }
    if let Some(e) = &node.end_tag {
        let e = e.borrow();
        if e.node_type != NodeType::TagEnd {
            return Err(format!("end tag of node at {} has type {:?}", s.begin, e.node_type));
        }
        match &e.content {
            Some(c) => {
                s.end_tag = Some(SEnd {
                    content: st(c),
                    begin: e.begin_at,
                    end: e.end_at,
                })
            }
            None => return Err(format!("end tag of node at {} without name", s.begin)),
        }
    }
    if let Some(ch) = &node.childs {
        for c in ch {
            s.childs.push(snap_as(&c.borrow(), edited)?);
        }
    }
    Ok(s)
}

pub fn snap_rc(node: &RefNode) -> Res<Snap> {
    snap(&node.borrow())
}

fn path_push(p: &str, i: usize) -> String {
    format!("{}/{}", p, i)
}

/// What a comparison looks at.
#[derive(Clone, Copy)]
pub struct Cmp {
    pub attrs: bool,
    pub lcmap: bool,
    pub spans: bool,
    pub spaces_class: bool, // distinguish text from spaces-between-tags
    pub index: bool,
    pub flags: bool,
    pub tag_ends: bool, // end positions of start tags too (the library against itself)
}
pub const STRUCT: Cmp = Cmp { attrs: false, lcmap: false, spans: false, spaces_class: true, index: false, flags: true, tag_ends: false };

pub fn compare(real: &Snap, model: &Snap, c: Cmp, path: &str) -> Res<()> {
    let same_kind = real.kind == model.kind || (!c.spaces_class && real.is_texty() && model.is_texty());
    if !same_kind {
        return Err(format!("node {}: is {:?}, expected {:?} (content {:?}/{:?}, name {:?}/{:?})", path, real.kind, model.kind, clip(real.content.as_deref().unwrap_or("")), clip(model.content.as_deref().unwrap_or("")), clip(&real.name), clip(&model.name)));
    }
    if real.name != model.name {
        return Err(format!("node {}: name {:?}, expected {:?}", path, clip(&real.name), clip(&model.name)));
    }
    if real.content.as_deref().unwrap_or("") != model.content.as_deref().unwrap_or("") {
        return Err(format!("node {} ({:?}): content {:?}, expected {:?}", path, real.kind, clip(real.content.as_deref().unwrap_or("")), clip(model.content.as_deref().unwrap_or(""))));
    }
    if c.flags && real.kind == Kind::Tag && (real.is_void != model.is_void || real.self_closed != model.self_closed) {
        return Err(format!("node {} <{}>: void/self-closed {}/{}, expected {}/{}", path, clip(&real.name), real.is_void, real.self_closed, model.is_void, model.self_closed));
    }
    match (&real.end_tag, &model.end_tag) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            if a.content != b.content {
                return Err(format!("node {} <{}>: end tag {:?}, expected {:?}", path, clip(&real.name), clip(&a.content), clip(&b.content)));
            }
            if c.spans && (a.begin, a.end) != (b.begin, b.end) {
                return Err(format!("end tag of node {} <{}>: span {}..{}, expected {}..{}", path, clip(&real.name), a.begin, a.end, b.begin, b.end));
            }
        }
        (a, b) => return Err(format!("node {} <{}>: end tag {:?}, expected {:?}", path, clip(&real.name), a, b)),
    }
    if c.attrs {
        if real.attrs != model.attrs {
            return Err(format!("node {} <{}>: attributes {}, expected {}", path, clip(&real.name), clip(&format!("{:?}", real.attrs)), clip(&format!("{:?}", model.attrs))));
        }
    }
    if c.lcmap && real.lcmap != model.lcmap {
        return Err(format!("node {} <{}>: attribute name lookup {:?}, expected {:?}", path, clip(&real.name), real.lcmap, model.lcmap));
    }
    if c.spans {
        if real.begin != model.begin {
            return Err(format!("node {} ({:?}): begins at {}, expected {}", path, real.kind, real.begin, model.begin));
        }
        if (c.tag_ends || !matches!(real.kind, Kind::Tag | Kind::Doctype)) && real.end != model.end {
            return Err(format!("node {} ({:?}): ends at {}, expected {}", path, real.kind, real.end, model.end));
        }
    }
    if c.index && real.index != model.index {
        return Err(format!("node {} ({:?}): index {}, expected {}", path, real.kind, real.index, model.index));
    }
    if real.childs.len() != model.childs.len() {
        return Err(format!("node {} ({:?} {}): {} children {:?}, expected {} {:?}", path, real.kind, clip(&real.name), real.childs.len(), brief(real), model.childs.len(), brief(model)));
    }
    for (i, (a, b)) in real.childs.iter().zip(&model.childs).enumerate() {
        compare(a, b, c, &path_push(path, i))?;
    }
    Ok(())
}

pub fn brief(s: &Snap) -> String {
    let v: Vec<String> = s
        .childs
        .iter()
        .take(12)
        .map(|c| match c.kind {
            Kind::Tag => format!("<{}>", clip(&c.name)),
            k => format!("{:?}({})", k, clip(c.content.as_deref().unwrap_or(""))),
        })
        .collect();
    v.join(",")
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 80 {
        s.to_string()
    } else {
        let a: String = s.chars().take(40).collect();
        let n = s.chars().count();
        let b: String = s.chars().skip(n - 30).collect();
        format!("{}…[{} chars]…{}", a, n, b)
    }
}

/// Merge adjacent text nodes (repairs may split one run of text over several nodes); drop empty ones.
pub fn merge_text(s: &Snap) -> Snap {
    let mut out = Snap { childs: vec![], ..clone_shallow(s) };
    for c in &s.childs {
        let c = merge_text(c);
        if c.is_texty() {
            if c.content.as_deref().unwrap_or("").is_empty() {
                continue;
            }
            if let Some(last) = out.childs.last_mut() {
                if last.is_texty() {
                    let mut t = last.content.take().unwrap_or_default();
                    t.push_str(c.content.as_deref().unwrap_or(""));
                    last.content = Some(t);
                    continue;
                }
            }
        }
        out.childs.push(c);
    }
    for (i, c) in out.childs.iter_mut().enumerate() {
        c.index = i;
    }
    out
}

pub fn clone_shallow(s: &Snap) -> Snap {
    Snap {
        kind: s.kind,
        begin: s.begin,
        end: s.end,
        index: s.index,
        name: s.name.clone(),
        attrs: s.attrs.clone(),
        lcmap: s.lcmap.clone(),
        content: s.content.clone(),
        childs: vec![],
        end_tag: s.end_tag.clone(),
        is_void: s.is_void,
        self_closed: s.self_closed,
    }
}

/// All nodes of the tree, pre-order.
pub fn all_nodes(root: &RefNode) -> Vec<RefNode> {
    let mut out = vec![Rc::clone(root)];
    let mut i = 0;
    // breadth-first is fine for our purposes, but keep document order
    fn rec(n: &RefNode, out: &mut Vec<RefNode>) {
        if let Some(ch) = &n.borrow().childs {
            for c in ch {
                out.push(Rc::clone(c));
                rec(c, out);
            }
        }
    }
    let r = Rc::clone(&out[i]);
    i += 1;
    let _ = i;
    rec(&r, &mut out);
    out
}
