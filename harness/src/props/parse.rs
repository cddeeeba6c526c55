//! C03–C11, C15: what is accepted, what tree it gives, what errors say.
use super::*;
use rphtml::error::{ErrorKind, ParseError};

const MODEL: &[&str] = &["the independent reference model (harness/src/model.rs) states the markup language correctly; it was cross-checked on the repository's tests and sample document"];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C03",
        rule: "a case is one document x non-repairing options, parsed and rendered by the library; non-trivial when accepted with at least two nodes; distinct by source and options",
        quick: 600_000,
        thorough: 48_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g03,
        check: c03,
        need: &[("accepted", 20_000), ("canonical_identity", 3_000), ("seen_attributes", 20_000), ("seen_cdata", 100), ("seen_raw_text", 5_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "",
    },
    Prop {
        id: "C04",
        rule: "a case is one document x non-repairing options; the library's tree is compared node by node with the reference tree; non-trivial when accepted with at least two nodes",
        quick: 818_000,
        thorough: 65_440_000,
        threads: 8,
        cpu_limit: 30,
        gen: g04,
        check: c04,
        need: &[("accepted", 20_000), ("seen_spaces", 10_000), ("seen_text", 20_000), ("seen_comments", 3_000), ("seen_doctypes", 1_000), ("seen_cdata", 100)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, default options",
    },
    Prop {
        id: "C05",
        rule: "a case is one document with attribute syntax under stress; attribute lists and the name index are compared with the reference; non-trivial when accepted with at least one attribute",
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g05,
        check: c05,
        need: &[("accepted", 20_000), ("seen_attributes", 60_000), ("written_lists_compared", 20_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "",
    },
    Prop {
        id: "C06",
        rule: "a case is a document around raw text, comments or CDATA whose content holds markup and near-terminators; compared with the written content itself and with the reference tree",
        quick: 1_200_000,
        thorough: 96_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g06,
        check: c06,
        need: &[("opaque_contents_compared", 30_000), ("seen_cdata", 2_000), ("seen_comments", 10_000), ("seen_raw_text", 10_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "",
    },
    Prop {
        id: "C07",
        rule: "a case is one string x non-repairing options; accept/reject is compared with the reference recogniser; non-trivial when it contains '<'",
        quick: 918_000,
        thorough: 73_440_000,
        threads: 8,
        cpu_limit: 30,
        gen: g07,
        check: c07,
        need: &[("accepted", 20_000), ("rejected", 20_000), ("reject_unclosed", 2_000), ("reject_endtag", 2_000), ("reject_lt", 1_000), ("reject_selfclosing", 500), ("reject_case", 200), ("reject_eq", 200), ("reject_declaration", 500), ("reject_eof", 500)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, default options",
    },
    Prop {
        id: "C08",
        rule: "a case is a document of void, self-closed and near-void elements in and around svg/math; acceptance, flags and placement are compared with the reference",
        quick: 960_000,
        thorough: 76_800_000,
        threads: 8,
        cpu_limit: 30,
        gen: g08,
        check: c_struct_strict,
        need: &[("accepted", 20_000), ("rejected", 5_000), ("seen_void", 20_000), ("seen_self_closed", 10_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "all 14 void and 44 near-void names x 4 letter cases x 6 tag endings x 5 surroundings x 2 options (first cases of the run)",
    },
    Prop {
        id: "C09",
        rule: "a case is a document whose start and end tag names differ in letter case or by look-alike characters, case-sensitive or not; acceptance and tree are compared with the reference",
        quick: 960_000,
        thorough: 76_800_000,
        threads: 8,
        cpu_limit: 30,
        gen: g09,
        check: c09,
        need: &[("accepted", 15_000), ("rejected", 10_000), ("case_sensitive_docs", 10_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "",
    },
    Prop {
        id: "C10",
        rule: "a case is a document accepted with repairs off, parsed again with repairs on by the same library and compared (tree, positions, classification, renderings); non-trivial when it has at least two nodes",
        quick: 514_000,
        thorough: 41_120_000,
        threads: 8,
        cpu_limit: 30,
        gen: g10,
        check: c10,
        need: &[("compared", 25_000), ("seen_spaces", 10_000)],
        extra: None,
        assumptions: &[],
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, with all three repairs",
    },
    Prop {
        id: "C11",
        rule: "a case is a broken document x at least one repair option; result compared with the reference, and its rendering re-parsed strictly; non-trivial when a repair took place",
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g11,
        check: c11,
        need: &[("repaired_unclosed", 5_000), ("repaired_endtag", 5_000), ("repaired_lt", 5_000), ("repaired_two_kinds", 2_000), ("still_rejected", 2_000), ("strictly_reparsed", 10_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, with all three repairs",
    },
    Prop {
        id: "C15",
        rule: "a case is a rejected document; index, line, column, kind and payload of the error are compared with the reference; non-trivial when rejected",
        quick: 1_600_000,
        thorough: 128_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g15,
        check: c15,
        need: &[("errors_compared", 30_000), ("multi_line_errors", 5_000), ("multi_byte_errors", 2_000), ("kind_unclosed", 2_000), ("kind_endtag", 2_000), ("kind_case", 200), ("kind_selfclosing", 300), ("kind_wrongtag", 1_000)],
        extra: None,
        assumptions: MODEL,
        exhaustive: "",
    },
];

// ------------------------------------------------------------------ C03

fn g03(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 3 == 0 {
        let po = po_strict(r);
        let w = gen::Wf { canonical: true, spiky: idx % 60 == 0, budget: 1 + r.below(20), ..gen::Wf::normal(r, &POpts::from_bits(po)) };
        let mut c = Case::new(gen::well_formed(r, w), po, 0, 0);
        c.tag = "canonical".into();
        return c;
    }
    if idx == 1 {
        return Case::new(gen::full_html().to_string(), 0, 0, 0);
    }
    g_accept(idx, r, t)
}
fn c03(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let doc = match rparse(&c.src, &o) {
        Ok(d) => d,
        Err(_) => {
            ctx.hit("rejected");
            return Ok(());
        }
    };
    let got = doc.render(&ROpts::default().real());
    let chars: Vec<char> = c.src.chars().collect();
    let (m, _) = model::parse(&chars, o);
    let m = match m {
        Ok(m) => m,
        Err(_) => {
            ctx.hit("skipped");
            return Ok(());
        }
    };
    ctx.hit("accepted");
    ctx.features(&m);
    if m.count() > 2 {
        ctx.nontrivial(c);
    }
    let want = model::render(&m, &ROpts::default(), model::Mode::Outer);
    diff("default rendering", &got, &want)?;
    if want == c.src {
        ctx.hit("canonical_identity");
    }
    // model-free: outside of '<...' tags nothing may change; compare with all tag separators squeezed
    let a = squeeze(&got);
    let b = squeeze(&c.src);
    if a != b {
        return Err(format!("rendering changed more than separators: {:?} from {:?}", clip(&got), clip(&c.src)));
    }
    Ok(())
}
/// everything but whitespace, slashes and '=', in order (case of CDATA ignored)
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !model::ws(*c) && *c != '/' && *c != '=').map(|c| c.to_ascii_lowercase()).collect()
}

// ------------------------------------------------------------------ C04

fn g04(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0, 0, 0);
    }
    if idx % 4 == 0 {
        // whitespace next to everything
        let po = po_strict(r);
        return Case::new(gen::spacey(r), po, 0, 0);
    }
    g_accept(idx, r, t)
}
fn c04(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some(s) = both(c, ctx, false)? else { return Ok(()) };
    ctx.features(&s.real);
    if s.model.count() > 2 {
        ctx.nontrivial(c);
    }
    compare(&s.real, &s.model, Cmp { index: true, ..STRUCT }, "")
}

// ------------------------------------------------------------------ C05

/// tag ∷ "expect" with the attribute list written into the source, independent of the model
fn g05(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 3 == 0 {
        let (src, list, po) = gen::attr_doc(r, idx % 45 == 0);
        let mut c = Case::new(src, po, 0, 0);
        c.tag = list;
        return c;
    }
    if idx % 3 == 1 {
        let po = po_strict(r);
        return Case::new(gen::tag_soup(r), po, 0, 0);
    }
    g_accept(idx, r, t)
}
fn c05(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some(s) = both(c, ctx, false)? else {
        return Ok(());
    };
    ctx.features(&s.real);
    let mut n = 0;
    s.model.walk(&mut |x| n += x.attrs.len());
    if n > 0 {
        ctx.nontrivial(c);
    }
    compare(&s.real, &s.model, Cmp { attrs: true, lcmap: true, spaces_class: false, ..STRUCT }, "")?;
    if !c.tag.is_empty() {
        let mut found = None;
        s.real.walk(&mut |x| {
            if found.is_none() && x.name == "target" {
                found = Some(x);
            }
        });
        if let Some(x) = found {
            ctx.hit("written_lists_compared");
            diff("attributes as written", &gen::attr_list_text(&x.attrs), &c.tag)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn g06(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 5 == 4 {
        return g_accept(idx, r, t);
    }
    if idx % 5 == 3 {
        return Case::new(gen::declarations(r), po_strict(r), 0, 0);
    }
    let (src, body, po) = gen::opaque_doc(r, idx % 61 == 0);
    let mut c = Case::new(src, po, 0, 0);
    c.tag = format!("={}", body);
    c
}
fn c06(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some(s) = both(c, ctx, true)? else { return Ok(()) };
    ctx.features(&s.real);
    if s.notes.raw > 0 || !c.tag.is_empty() {
        ctx.nontrivial(c);
    }
    compare(&s.real, &s.model, Cmp { spaces_class: false, ..STRUCT }, "")?;
    if let Some(body) = c.tag.strip_prefix('=') {
        // the written body must be the content of the construct
        let opaque = |kind: &Kind, name: &str| matches!(kind, Kind::Comment | Kind::Cdata) || (*kind == Kind::Tag && model::is_raw(name));
        let mut hit = false;
        s.real.walk(&mut |x| {
            if opaque(&x.kind, &x.name) && x.content.as_deref().unwrap_or("") == body {
                hit = true;
            }
        });
        let mut written = false;
        s.model.walk(&mut |x| {
            if opaque(&x.kind, &x.name) && x.content.as_deref().unwrap_or("") == body {
                written = true;
            }
        });
        if written {
            ctx.hit("opaque_contents_compared");
            if !hit {
                return Err(format!("no construct holds the written content {:?}", clip(body)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

fn g07(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0, 0, 0);
    }
    let po = po_strict(r);
    let src = match idx % 8 {
        0 => spike(r).0,
        1 => gen::tag_soup(r),
        2 => {
            let s = spike_small(r);
            gen::mutate(r, &s)
        }
        3 => gen::casey(r),
        4 => gen::declarations(r),
        _ => gen::hostile(r, &POpts::from_bits(po)),
    };
    let src = if idx % 8 == 0 && src.len() > 4000 && idx % 64 != 0 { src.chars().take(900).collect() } else { src };
    Case::new(src, po, 0, 0)
}
fn spike_small(r: &mut Rng) -> String {
    let w = gen::Wf { budget: 10 + r.below(30), depth: 10, ..gen::Wf::normal(r, &POpts::default()) };
    gen::well_formed(r, w)
}
fn c07(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let chars: Vec<char> = c.src.chars().collect();
    let (m, _) = model::parse(&chars, o);
    let r = rparse(&c.src, &o);
    if c.src.contains('<') {
        ctx.nontrivial(c);
    }
    if let Err(rej) = &m {
        ctx.hit(match rej.why {
            "unclosed element" => "reject_unclosed",
            "unexpected end tag" => "reject_endtag",
            "'<' that starts no markup" => "reject_lt",
            "self-closing not allowed" => "reject_selfclosing",
            "end tag in other letter case" => "reject_case",
            "attribute name starts with '='" => "reject_eq",
            w if w.starts_with("input ends") => "reject_eof",
            _ => "reject_declaration",
        });
    }
    match (r, m) {
        (Ok(_), Ok(_)) => {
            ctx.hit("accepted");
            Ok(())
        }
        (Err(_), Err(_)) => {
            ctx.hit("rejected");
            Ok(())
        }
        (Ok(_), Err(rej)) => Err(format!("accepted, but not well-formed: {} at {}..{}", rej.why, rej.lo, rej.hi)),
        (Err(e), Ok(_)) => Err(format!("rejected although well-formed: {}", clip(&e.to_string()))),
    }
}

// ------------------------------------------------------------------ C08

const ENDINGS: [&str; 6] = [">", "/>", " />", " a=b>", " a=\"b\"/>", " //>"];
const AROUND: [(&str, &str); 5] = [("", ""), ("<p>", "</p>"), ("<svg>", "</svg>"), ("<svg><g>", "</g></svg>"), ("<p><math><mi/></math>", "</p>")];

fn g08(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let names = model::VOIDS.len() + gen::NEAR.len();
    let total = names * 4 * ENDINGS.len() * AROUND.len() * 2;
    if (idx as usize) < total {
        let mut k = idx as usize;
        let n = k % names;
        k /= names;
        let cs = k % 4;
        k /= 4;
        let e = ENDINGS[k % ENDINGS.len()];
        k /= ENDINGS.len();
        let (a, b) = AROUND[k % AROUND.len()];
        k /= AROUND.len();
        let name = if n < model::VOIDS.len() { model::VOIDS[n] } else { gen::NEAR[n - model::VOIDS.len()] };
        let name: String = match cs {
            0 => name.to_string(),
            1 => name.to_ascii_uppercase(),
            2 => name.char_indices().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            _ => name.char_indices().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        let tail = if r.chance(1, 2) { format!("x<i></i>{}", b) } else { format!("x</{}>{}", name, b) };
        return Case::new(format!("{}<{}{}{}", a, name, e, tail), if k % 2 == 1 { 4 } else { 0 }, 0, 0);
    }
    let po = if r.chance(1, 3) { 4 } else { 0 } | if r.chance(1, 8) { 1 } else { 0 };
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    for _ in 0..1 + r.below(12) {
        match r.below(10) {
            0..=3 => {
                let v = model::VOIDS[r.below(14)];
                s.push_str(&format!("<{}{}", gen::case_mix(r, v), r.pick(&ENDINGS)));
            }
            4 => {
                let v = if r.chance(1, 2) { gen::near_name(r) } else { r.pick(gen::NEAR).to_string() };
                let v = if v.starts_with(|c: char| c.is_ascii_alphabetic()) { v } else { format!("n{}", v) };
                s.push_str(&format!("<{}>", v));
                stack.push(v);
            }
            5 => {
                let v = r.pick(&["svg", "math", "SVG", "Math", "svg"]).to_string();
                if (po & 4 != 0 || stack.iter().any(|x| model::is_special(x)) || r.chance(1, 12)) && r.chance(1, 3) {
                    s.push_str(&format!("<{}{}", v, r.pick(&["/>", " />", " a=1 />"])));
                } else {
                    s.push_str(&format!("<{}>", v));
                    stack.push(v);
                }
            }
            6 => {
                let v = if r.chance(1, 4) { gen::near_name(r) } else { r.pick(&[gen::NAMES, &["script", "title", "textarea", "style", "pre"][..]].concat()).to_string() };
                // self-closing, allowed or not
                if po & 4 != 0 || stack.iter().any(|x| model::is_special(x)) || r.chance(1, 6) {
                    s.push_str(&format!("<{}{}", v, r.pick(&["/>", " />", " a=\"1\"/>", "//>", " b />"])));
                }
            }
            7 => s.push_str(r.pick(&["x", " ", "<!-- -->", "t t"])),
            8 => {
                if let Some(v) = stack.pop() {
                    s.push_str(&format!("</{}>", v));
                }
            }
            _ => {
                let v = r.pick(&["div", "p", "g", "script", "pre"]).to_string();
                s.push_str(&format!("<{}>", v));
                if v == "script" {
                    s.push_str("</script>");
                } else {
                    stack.push(v);
                }
            }
        }
    }
    if r.chance(1, 20) {
        let v = model::VOIDS[r.below(14)];
        s.push_str(&format!("</{}>", v));
    }
    while let Some(v) = stack.pop() {
        s.push_str(&format!("</{}>", v));
    }
    Case::new(s, po, 0, 0)
}
fn c_struct_strict(c: &Case, ctx: &mut Ctx) -> Res<()> {
    ctx.nontrivial(c);
    let Some(s) = both(c, ctx, true)? else { return Ok(()) };
    ctx.features(&s.real);
    compare(&s.real, &s.model, Cmp { spaces_class: false, ..STRUCT }, "")?;
    let mut bad = None;
    s.real.walk(&mut |x| {
        if x.kind == Kind::Tag && (model::is_void(&x.name) || x.self_closed) && (!x.childs.is_empty() || x.end_tag.is_some()) {
            bad = Some(x.name.clone());
        }
    });
    match bad {
        Some(n) => Err(format!("void or self-closed <{}> has children or an end tag", n)),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C09

fn g09(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let po = (idx % 2) as u32 | if r.chance(1, 10) { 4 } else { 0 };
    Case::new(gen::casey(r), po, ro_any(r) & !64, 0)
}
fn c09(c: &Case, ctx: &mut Ctx) -> Res<()> {
    ctx.nontrivial(c);
    if c.po & 1 == 1 {
        ctx.hit("case_sensitive_docs");
    }
    let Some(s) = both(c, ctx, true)? else { return Ok(()) };
    ctx.features(&s.real);
    compare(&s.real, &s.model, Cmp { attrs: true, spaces_class: false, ..STRUCT }, "")?;
    // special names in any letter case, seen through rendering (pre) and document detection (html)
    let ro = c.r();
    diff("rendering", &s.doc.render(&ROpts { inner: false, ..ro }.real()), &model::render(&s.model, &ro, model::Mode::Outer))
}

// ------------------------------------------------------------------ C10

fn g10(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0b111000, 1, 0);
    }
    let mut c = if idx % 5 == 0 {
        let po = po_strict(r);
        Case::new(gen::spacey(r), po, ro_any(r), 0)
    } else {
        g_accept(idx, r, t)
    };
    c.po = (c.po & 7) | (1 + r.below(7) as u32) << 3;
    c
}
fn c10(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let Ok(a) = rparse(&c.src, &o.strict()) else {
        ctx.hit("rejected");
        return Ok(());
    };
    let b = match rparse(&c.src, &o) {
        Ok(b) => b,
        Err(e) => return Err(format!("rejected with repairs on: {}", clip(&e.to_string()))),
    };
    let sa = root_snap(&a)?;
    let sb = root_snap(&b)?;
    ctx.hit("compared");
    ctx.features(&sa);
    if sa.count() > 2 {
        ctx.nontrivial(c);
    }
    compare(&sb, &sa, Cmp { attrs: true, lcmap: true, spans: true, spaces_class: true, index: true, flags: true, tag_ends: true }, "")?;
    let ro = c.r();
    for ro in [ROpts::default(), ro, ROpts { minify: true, ..Default::default() }] {
        let ro = ROpts { inner: false, ..ro };
        diff("rendering with repairs on", &b.render(&ro.real()), &a.render(&ro.real()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

fn g11(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0b111000, 0, 0);
    }
    let mut po = po_repair(r);
    let src = match idx % 6 {
        0 | 1 => gen::broken(r, &POpts::from_bits(po)),
        2 => {
            let w = gen::Wf::normal(r, &POpts::from_bits(po));
            let s: Vec<char> = gen::well_formed(r, w).chars().collect();
            let k = r.below(s.len() + 1);
            s[..k].iter().collect()
        }
        3 if idx % 60 == 3 => {
            let (s, o) = spike(r);
            po |= o;
            gen::mutate(r, &s)
        }
        _ => gen::hostile(r, &POpts::from_bits(po)),
    };
    Case::new(src, po, 0, 0)
}
fn c11(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let chars: Vec<char> = c.src.chars().collect();
    let (m, notes) = model::parse(&chars, o);
    let r = rparse(&c.src, &o);
    let doc = match (r, &m) {
        (Err(_), Err(_)) => {
            ctx.hit("still_rejected");
            return Ok(());
        }
        (Ok(_), Err(rej)) => return Err(format!("accepted, but not repairable with these options: {} at {}..{}", rej.why, rej.lo, rej.hi)),
        (Err(e), Ok(_)) => return Err(format!("rejected although the enabled repairs cover it: {}", clip(&e.to_string()))),
        (Ok(d), Ok(_)) => d,
    };
    let m = m.unwrap();
    let kinds = (notes.closed_at_eof > 0) as u32 + (notes.dropped_endtags > 0) as u32 + (notes.escaped_lts > 0) as u32;
    if notes.closed_at_eof > 0 {
        ctx.hit("repaired_unclosed");
    }
    if notes.dropped_endtags > 0 {
        ctx.hit("repaired_endtag");
    }
    if notes.escaped_lts > 0 {
        ctx.hit("repaired_lt");
    }
    if kinds >= 2 {
        ctx.hit("repaired_two_kinds");
    }
    if kinds > 0 {
        ctx.nontrivial(c);
    }
    let real = root_snap(&doc)?;
    ctx.features(&real);
    let cmp = Cmp { attrs: true, lcmap: true, spans: false, spaces_class: false, index: false, flags: true, tag_ends: false };
    let rm = merge_text(&real);
    compare(&rm, &merge_text(&m), cmp, "")?;
    // where no end tag was dropped, text is not split and keeps its classification
    if notes.dropped_endtags == 0 && notes.escaped_lts == 0 {
        compare(&real, &m, Cmp { spaces_class: true, index: true, ..cmp }, "")?;
    }
    // whatever was dropped or escaped around it: only whitespace counts as spaces between tags (and may be minified away)
    let mut lost = None;
    real.walk(&mut |x| {
        if x.kind == Kind::Spaces && !x.content.as_deref().unwrap_or("").chars().all(model::ws) {
            lost = x.content.clone();
        }
    });
    if let Some(t) = lost {
        return Err(format!("the text {:?} is recorded as spaces between tags", clip(&t)));
    }
    let sq = |s: &str| s.chars().filter(|c| !model::ws(*c)).collect::<String>();
    let text = doc.render(&ROpts::default().real());
    let mini = doc.render(&ROpts { minify: true, ..ROpts::default() }.real());
    diff("non-whitespace of the minified repaired document", &sq(&mini), &sq(&text))?;
    diff("rendering of the repaired document", &text, &model::render(&m, &ROpts::default(), model::Mode::Outer))?;
    if notes.eq_keys == 0 {
        let again = match rparse(&text, &o.strict()) {
            Ok(d) => d,
            Err(e) => return Err(format!("the repaired document {:?} is not accepted strictly: {}", clip(&text), clip(&e.to_string()))),
        };
        ctx.hit("strictly_reparsed");
        let s2 = merge_text(&root_snap(&again)?);
        compare(&s2, &rm, cmp, "")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

fn g15(idx: u64, r: &mut Rng, t: bool) -> Case {
    let mut c = match idx % 7 {
        0 => Case::new(gen::casey(r), po_any(r), 0, 0),
        1 => Case::new(gen::declarations(r), po_any(r), 0, 0),
        2 => Case::new(gen::tag_soup(r), po_any(r), 0, 0),
        3 | 4 => {
            // one defect somewhere in a multi-line document
            let po = po_strict(r);
            let w = gen::Wf { budget: 3 + r.below(16), ..gen::Wf::normal(r, &POpts::from_bits(po)) };
            let s = gen::well_formed(r, w);
            Case::new(gen::mutate(r, &s), po, 0, 0)
        }
        5 => {
            let po = po_strict(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, 0, 0)
        }
        _ => g_hostile_any(idx, r, t),
    };
    if r.chance(1, 3) {
        // put line breaks and wide characters in front
        let pre: String = (0..r.below(12)).map(|_| r.pick(&["\n", "\r\n", "\r", "é", "中", "😀", "x", " ", "\n\n", "\r\r\n", "\u{2028}", "\x0c", "\u{85}"])).collect();
        c.src = pre + &c.src;
    }
    c
}
fn line_col(chars: &[char], index: usize) -> (usize, usize) {
    // the position after reading every character up to and including `index`
    let upto = (index + 1).min(chars.len());
    let mut line = 1;
    let mut last_break = 0; // first char of the current line
    let mut i = 0;
    while i < upto {
        match chars[i] {
            '\r' => {
                line += 1;
                last_break = i + 1;
                if i + 1 < upto && chars[i + 1] == '\n' {
                    i += 1;
                    last_break = i + 1;
                }
            }
            '\n' => {
                line += 1;
                last_break = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    (line, upto - last_break)
}
fn c15(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let Err(e) = rparse(&c.src, &o) else {
        ctx.hit("accepted");
        return Ok(());
    };
    let chars: Vec<char> = c.src.chars().collect();
    let (m, _) = model::parse(&chars, o);
    let Some(pe) = e.downcast_ref::<ParseError>() else {
        return Err(format!("not a parse error: {}", clip(&e.to_string())));
    };
    let region = pe.region.to_string();
    let nums: Vec<usize> = region.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    if nums.len() != 3 || !region.starts_with("[line:") {
        return Err(format!("position {:?} is not a line, column and index", region));
    }
    let (line, col, index) = (nums[0], nums[1], nums[2]);
    ctx.hit("errors_compared");
    ctx.nontrivial(c);
    if c.src.contains(|c| c == '\n' || c == '\r') {
        ctx.hit("multi_line_errors");
    }
    if !c.src.is_ascii() {
        ctx.hit("multi_byte_errors");
    }
    if index > chars.len() {
        return Err(format!("index {} is outside of the input ({} chars)", index, chars.len()));
    }
    let (l, k) = line_col(&chars, index);
    if (line, col) != (l, k) {
        return Err(format!("error at index {} says line {} column {}, but that is line {} column {}", index, line, col, l, k));
    }
    let text = e.to_string();
    if !text.starts_with(&region) || text.len() <= region.len() {
        return Err(format!("message {:?} does not give the position {:?} and a reason", clip(&text), region));
    }
    let Err(rej) = m else {
        ctx.hit("skipped");
        return Ok(());
    };
    if index < rej.lo || index > rej.hi {
        return Err(format!("error ({}) at index {}, but the offending construct ({}) is at {}..{}", clip(&text), index, rej.why, rej.lo, rej.hi));
    }
    let trim = |s: &String| s.trim_end_matches(model::ws).to_string();
    use ErrorKind::*;
    let (ok, key): (bool, &'static str) = match rej.why {
        "unclosed element" => (matches!(&pe.kind, UnclosedTag(n) if *n == rej.name), "kind_unclosed"),
        "unexpected end tag" => (matches!(&pe.kind, WrongEndTag(n) if trim(n) == rej.name), "kind_endtag"),
        "end tag in other letter case" => (matches!(&pe.kind, WrongCaseSensitive(n) if trim(n) == rej.name), "kind_case"),
        "self-closing not allowed" => (matches!(&pe.kind, WrongSelfClosing(n) if *n == rej.name), "kind_selfclosing"),
        "'<' that starts no markup" => (matches!(&pe.kind, WrongTag(n) if *n == rej.name), "kind_wrongtag"),
        "attribute name starts with '='" => (matches!(&pe.kind, WrongTag(_)), "kind_eq"),
        "unknown declaration" => (matches!(&pe.kind, WrongTag(_) | UnrecognizedTag(..)), "kind_declaration"),
        "malformed doctype" => (matches!(&pe.kind, WrongHtmlDoctype(_)), "kind_doctype"),
        w if w.starts_with("CDATA") => (matches!(&pe.kind, CommonError(_)), "kind_cdata"),
        _ => (matches!(&pe.kind, UnclosedTag(_)), "kind_eof"),
    };
    ctx.hit(key);
    if !ok {
        return Err(format!("the problem is '{}' ({:?}), but the error says {:?}", rej.why, clip(&rej.name), pe.kind));
    }
    Ok(())
}
