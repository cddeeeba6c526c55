use crate::case::*;
use crate::gen;
use crate::model::{self, Notes, POpts, ROpts};
use crate::rng::Rng;
use crate::snap::*;
use rphtml::parser::{Doc, DocHolder, Node, NodeType, RefNode};
use rphtml::types::BoxDynError;
use std::rc::Rc;

mod edit;
mod life;
mod parse;
mod render;
mod tree;

pub use life::{mini_histories, mini_threads, sub};

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(life::PROPS.iter());
    v.extend(parse::PROPS.iter());
    v.extend(tree::PROPS.iter());
    v.extend(render::PROPS.iter());
    v.extend(edit::PROPS.iter());
    v.sort_by_key(|p| p.id);
    v
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

// ------------------------------------------------------------------ shared pieces

pub fn rparse(src: &str, o: &POpts) -> Result<DocHolder, BoxDynError> {
    Doc::parse(src, o.real())
}
pub fn root_snap(d: &DocHolder) -> Res<Snap> {
    snap_rc(&d.get_root_node())
}
pub fn st(v: &[char]) -> String {
    v.iter().collect()
}
pub fn outer(n: &RefNode, o: &ROpts) -> String {
    st(&n.borrow().build(&ROpts { inner: false, ..*o }.real(), false))
}
pub fn inner_html(n: &RefNode, o: &ROpts) -> String {
    st(&n.borrow().build(&ROpts { inner: true, ..*o }.real(), false))
}
pub fn inner_text(n: &RefNode, o: &ROpts) -> String {
    st(&n.borrow().build(&ROpts { inner: false, ..*o }.real(), true))
}
pub fn is_tag(n: &RefNode) -> bool {
    n.borrow().node_type == NodeType::Tag
}
pub fn tag_children(root: &Snap) -> usize {
    root.childs.iter().filter(|c| c.kind == Kind::Tag).count()
}

/// first difference of two texts, readable
pub fn diff(what: &str, got: &str, want: &str) -> Res<()> {
    if got == want {
        return Ok(());
    }
    let a: Vec<char> = got.chars().collect();
    let b: Vec<char> = want.chars().collect();
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let from = k.saturating_sub(15);
    let x: String = a[from..(k + 25).min(a.len())].iter().collect();
    let y: String = b[from..(k + 25).min(b.len())].iter().collect();
    Err(format!("{}: differs at char {} (lengths {}/{}): got …{:?}… expected …{:?}…", what, k, a.len(), b.len(), x, y))
}

/// parse options: mostly plain, every combination reachable
pub fn po_strict(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 | 1 => 0,
        2 => [1, 2, 4][r.below(3)],
        _ => r.below(8) as u32,
    }
}
pub fn po_any(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 0,
        1 => 0b111000,
        2 => [8, 16, 32, 24, 40, 48][r.below(6)] | po_strict(r),
        _ => r.below(64) as u32,
    }
}
pub fn po_repair(r: &mut Rng) -> u32 {
    let b = (1 + r.below(7) as u32) << 3;
    b | po_strict(r)
}
/// outer render options
pub fn ro_any(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 1 << r.below(8),
        1 => (1 << r.below(8)) | (1 << r.below(8)),
        _ => r.below(256) as u32,
    }
}

/// A large document now and then: thresholds, buffer growth, long runs.
pub fn spike(r: &mut Rng) -> (String, u32) {
    match r.below(7) {
        6 => {
            let d = if r.chance(1, 4) { r.range(250, 1100) } else { r.range(60, 270) };
            (gen::deep_rich(r, d), 0)
        }
        0..=2 => {
            let n = [30, 60, 130, 260, 520, 1100][r.below(6)] + r.below(9);
            let (s, o) = gen::shape(r.below(gen::SHAPES), n);
            (s, o.bits())
        }
        3 => {
            let d = r.range(30, 600);
            let nm = ["div", "b", "pre", "svg", "Math", "a"][r.below(6)];
            let t = gen::text(r);
            (gen::nested(nm, d, &t), 0)
        }
        _ => {
            let w = gen::Wf { spiky: true, budget: 40 + r.below(260), depth: 3 + r.below(20), ..gen::Wf::normal(r, &POpts::default()) };
            (gen::well_formed(r, w), 0)
        }
    }
}

/// short token sequences, exhaustively: the first cases of a run
pub fn seq_len(thorough: bool) -> u32 {
    if thorough {
        5
    } else {
        3
    }
}

pub fn g_accept(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let po = po_strict(r);
    let src = if idx % 97 == 0 {
        spike(r).0
    } else {
        gen::acceptable(r, &POpts::from_bits(po))
    };
    Case::new(src, po, ro_any(r), r.u64() >> 16)
}
pub fn g_hostile_any(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let mut po = po_any(r);
    let src = if idx % 97 == 0 {
        let (s, o) = spike(r);
        po |= o;
        s
    } else {
        gen::hostile(r, &POpts::from_bits(po))
    };
    Case::new(src, po, ro_any(r), r.u64() >> 16)
}

pub struct Seen {
    pub doc: DocHolder,
    pub real: Snap,
    pub model: Snap,
    pub notes: Notes,
    pub chars: Vec<char>,
}
/// Run the library and the reference model on one input.
/// Ok(None): both reject. A document only one of them accepts is an error if `strict_accept`,
/// otherwise it is skipped when the library is the one that accepts.
pub fn both(c: &Case, ctx: &mut Ctx, strict_accept: bool) -> Res<Option<Seen>> {
    let o = c.p();
    let chars: Vec<char> = c.src.chars().collect();
    let (m, notes) = model::parse(&chars, o);
    let r = rparse(&c.src, &o);
    match (r, m) {
        (Ok(doc), Ok(model)) => {
            ctx.hit("accepted");
            let real = root_snap(&doc)?;
            Ok(Some(Seen { doc, real, model, notes, chars }))
        }
        (Err(e), Ok(_)) => Err(format!("rejected ({}), but it is well-formed under these options", clip(&e.to_string()))),
        (Ok(_), Err(rej)) => {
            if strict_accept {
                return Err(format!("accepted, but not well-formed: {} at {}..{}", rej.why, rej.lo, rej.hi));
            }
            ctx.hit("skipped");
            Ok(None)
        }
        (Err(_), Err(_)) => {
            ctx.hit("rejected");
            Ok(None)
        }
    }
}

/// the path of positions of a live node, for messages
pub fn where_is(n: &Node) -> String {
    format!("{:?} at {}", n.node_type, n.begin_at)
}
pub fn same(a: &RefNode, b: &RefNode) -> bool {
    Rc::ptr_eq(a, b)
}
