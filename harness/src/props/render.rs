//! C12, C16–C20: rendering.
use super::*;
use crate::model::Mode;

const SER: &[&str] = &["the independent serialiser in harness/src/model.rs states the rendering rules correctly; named character references beyond the common ones are looked up in the same entity table crate the library re-exports"];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        rule: "a case is one document x parse options x six markup render options; output re-parsed and re-rendered by the library; non-trivial when the tree has at least two nodes",
        quick: 825_000,
        thorough: 66_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g12,
        check: c12,
        need: &[("default_round_trips", 25_000), ("option_round_trips", 25_000), ("repaired", 5_000)],
        extra: None,
        assumptions: &["documents with attribute names starting with '=' are excluded, and lowercase_tagname together with case-sensitive parsing"],
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, with all three repairs",
    },
    Prop {
        id: "C16",
        rule: "a case is one document rendered with minify_spaces (alone or with other options), compared with the reference serialisation; non-trivial when minification changes it",
        quick: 867_000,
        thorough: 69_360_000,
        threads: 8,
        cpu_limit: 30,
        gen: g16,
        check: c16,
        need: &[("renders_compared", 50_000), ("minified", 20_000), ("with_pre", 10_000)],
        extra: None,
        assumptions: SER,
        exhaustive: "",
    },
    Prop {
        id: "C17",
        rule: "a case is one document rendered with remove_attr_quote, compared with the reference serialisation and re-parsed; non-trivial when it has a quoted attribute",
        quick: 660_000,
        thorough: 52_800_000,
        threads: 8,
        cpu_limit: 30,
        gen: g17,
        check: c17,
        need: &[("reparsed", 25_000), ("quotes_removed", 10_000), ("quotes_kept", 10_000)],
        extra: None,
        assumptions: SER,
        exhaustive: "one attribute holding each single character up to U+2FF in six positions (first cases of the run)",
    },
    Prop {
        id: "C18",
        rule: "a case is one document x a combination of the four options, compared with the reference serialisation and, option by option, with a direct edit of the default rendering; non-trivial when an option has an effect",
        quick: 440_000,
        thorough: 35_200_000,
        threads: 8,
        cpu_limit: 30,
        gen: g18,
        check: c18,
        need: &[("renders_compared", 50_000), ("effect_lowercase", 5_000), ("effect_endtag_space", 3_000), ("effect_comment", 3_000), ("effect_close_void", 5_000)],
        extra: None,
        assumptions: SER,
        exhaustive: "all 16 combinations of the four options on every case",
    },
    Prop {
        id: "C19",
        rule: "a case is one document full of character references and raw text, rendered with decode_entity and/or encode_content and compared with the reference; non-trivial when the option changes something",
        quick: 650_000,
        thorough: 52_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g19,
        check: c19,
        need: &[("renders_compared", 50_000), ("decoded", 20_000), ("encoded", 5_000), ("encoded_reparsed", 5_000)],
        extra: None,
        assumptions: SER,
        exhaustive: "numeric references to every code point 0..0x11FFFF in decimal and both hexadecimal spellings, 256 per case",
    },
    Prop {
        id: "C20",
        rule: "a case is one document whose every node is asked for outer and, where it has one, inner HTML and inner text under random options; compared with the reference and with each other; non-trivial when the tree has at least two nodes",
        quick: 350_000,
        thorough: 28_000_000,
        threads: 8,
        cpu_limit: 30,
        gen: g_r,
        check: c20,
        need: &[("inner_html_compared", 80_000), ("inner_text_compared", 80_000), ("root_inner_compared", 5_000), ("comment_text_compared", 2_000)],
        extra: None,
        assumptions: SER,
        exhaustive: "",
    },
];

fn g_r(idx: u64, r: &mut Rng, t: bool) -> Case {
    match idx % 5 {
        0 => Case::new(gen::spacey(r), 0, ro_any(r), 0),
        1 => {
            let po = po_repair(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, ro_any(r), 0)
        }
        2 => {
            let (s, _, po) = gen::opaque_doc(r, idx % 100 == 2);
            Case::new(s, po, ro_any(r), 0)
        }
        _ => g_accept(idx, r, t),
    }
}

/// the expected tree: from the source by the reference model when nothing was repaired (end to end),
/// otherwise the observed tree itself (text may be split differently by repairs)
fn expected(c: &Case, ctx: &mut Ctx) -> Res<Option<(DocHolder, Snap, bool)>> {
    let o = c.p();
    let Ok(doc) = rparse(&c.src, &o) else {
        ctx.hit("rejected");
        return Ok(None);
    };
    let chars: Vec<char> = c.src.chars().collect();
    let (m, _) = model::parse(&chars, o.strict());
    match m {
        Ok(m) => {
            ctx.hit("end_to_end");
            Ok(Some((doc, m, true)))
        }
        Err(_) => {
            let s = root_snap(&doc)?;
            Ok(Some((doc, s, false)))
        }
    }
}

// ------------------------------------------------------------------ C12

fn g12(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx, seq_len(t)) {
        return Case::new(s, 0b111000, (idx % 64) as u32, 0);
    }
    let mut c = match idx % 4 {
        0 => g_hostile_any(idx, r, t),
        1 => {
            let (s, _, po) = gen::attr_doc(r, idx % 80 == 1);
            Case::new(s, po, 0, 0)
        }
        _ => g_r(idx, r, t),
    };
    c.po = (c.po & !2) | if r.chance(1, 2) { (r.below(8) as u32) << 3 } else { 0 };
    c.ro = r.below(64) as u32;
    c
}
fn c12(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let Ok(doc) = rparse(&c.src, &o) else {
        ctx.hit("rejected");
        return Ok(());
    };
    if !o.is_strict() && rparse(&c.src, &o.strict()).is_err() {
        ctx.hit("repaired");
    }
    let s = root_snap(&doc)?;
    if s.count() > 2 {
        ctx.nontrivial(c);
    }
    let cmp = Cmp { attrs: true, lcmap: true, spans: false, spaces_class: false, index: false, flags: true, tag_ends: false };
    let t1 = doc.render(&ROpts::default().real());
    let d2 = match rparse(&t1, &o) {
        Ok(d) => d,
        Err(e) => return Err(format!("the rendering {:?} is rejected: {}", clip(&t1), clip(&e.to_string()))),
    };
    ctx.hit("default_round_trips");
    let s2 = root_snap(&d2)?;
    compare(&merge_text(&s2), &merge_text(&s), cmp, "re-parsed")?;
    diff("second rendering", &d2.render(&ROpts::default().real()), &t1)?;
    let ro = ROpts { decode: false, encode: false, inner: false, lower: c.r().lower && !o.cs, ..c.r() };
    let t2 = doc.render(&ro.real());
    let d3 = match rparse(&t2, &o) {
        Ok(d) => d,
        Err(e) => return Err(format!("the rendering {:?} with {:?} is rejected: {}", clip(&t2), on_r(ro.bits()), clip(&e.to_string()))),
    };
    ctx.hit("option_round_trips");
    if !(ro.minify && ro.nocomment) && o.is_strict() {
        diff(&format!("second rendering with {:?}", on_r(ro.bits())), &d3.render(&ro.real()), &t2)?;
    } else if !ro.minify {
        diff(&format!("second rendering with {:?}", on_r(ro.bits())), &d3.render(&ro.real()), &t2)?;
    }
    if !ro.minify && !ro.nocomment {
        // same structure whatever the spelling
        let s3 = root_snap(&d3)?;
        compare(&normal(&merge_text(&s3)), &normal(&merge_text(&s)), Cmp { flags: false, ..cmp }, "re-parsed with options")?;
    }
    Ok(())
}
/// forget spelling: letter case of names, end tag spaces, quotes
fn normal(s: &Snap) -> Snap {
    let mut o = clone_shallow(s);
    if o.kind == Kind::Tag {
        o.name = model::lc(&o.name);
    }
    for a in &mut o.attrs {
        a.quote = None;
    }
    if let Some(e) = &mut o.end_tag {
        e.content = model::lc(e.content.trim_end_matches(model::ws));
    }
    o.childs = s.childs.iter().map(normal).collect();
    o
}

// ------------------------------------------------------------------ C16

fn g16(idx: u64, r: &mut Rng, t: bool) -> Case {
    let mut c = match idx % 3 {
        0 => {
            // nests and sequences of pre
            let mut s = String::new();
            let mut stack: Vec<String> = vec![];
            for _ in 0..2 + r.below(16) {
                s.push_str(r.pick(&["", " ", "  ", "\n  ", "a  b", " x\t\ty ", "\r\n\r\n", "\u{a0} \u{a0}", "\u{2003}\u{2003}", "a\x0c\x0cb", "\u{0b}\u{0b}", " \n\n &nbsp;  "]));
                match r.below(9) {
                    0..=2 => {
                        let n = gen::case_mix(r, "pre");
                        s.push_str(&format!("<{}{}>", n, r.pick(&["", " class=\"a  b\"", " x"])));
                        stack.push(n);
                    }
                    3 => {
                        let n = r.pick(&["b", "div", "prefix", "p", "code", "svg", "PRES"]).to_string();
                        s.push_str(&format!("<{}>", n));
                        stack.push(n);
                    }
                    4 | 5 | 6 => {
                        if let Some(n) = stack.pop() {
                            s.push_str(&format!("</{}{}>", n, r.pick(&["", "", " ", "\n"])));
                        }
                    }
                    7 => s.push_str(r.pick(&["<!--  c  -->", "<br>", "<script> a  b </script>", "<textarea>  \n </textarea>", "<title>  t  </title>", "<style>  </style>", "<img alt=\"a  b\">"])),
                    _ => {
                        if stack.iter().any(|n| model::is_special(n)) {
                            s.push_str("<pre/>");
                        }
                    }
                }
            }
            while let Some(n) = stack.pop() {
                s.push_str(&format!("</{}>", n));
                s.push_str(r.pick(&["", "  ", " z  z "]));
            }
            Case::new(s, if r.chance(1, 4) { 4 } else { 0 }, 0, 0)
        }
        1 => Case::new(gen::spacey(r), 0, 0, 0),
        _ => g_r(idx, r, t),
    };
    c.ro = 1 | if r.chance(1, 2) { r.below(256) as u32 } else { 0 };
    c
}
/// some nodes on their own: their markup, inner markup and inner text under the same options
fn parts(c: &Case, root: &RefNode, ro: &ROpts, ctx: &mut Ctx) -> Res<()> {
    let nodes = all_nodes(root);
    let mut r = c.rng();
    for _ in 0..nodes.len().min(3) {
        let n = &nodes[r.below(nodes.len())];
        let s = snap_rc(n)?;
        if s.count() > 400 {
            continue;
        }
        ctx.hit("parts_compared");
        diff("node rendering", &outer(n, ro), &model::render(&s, ro, Mode::Outer))?;
        if s.kind == Kind::Tag {
            let ri = ROpts { inner: true, ..*ro };
            diff("inner html of a node", &inner_html(n, ro), &model::render(&s, &ri, Mode::Inner))?;
            diff("inner text of a node", &inner_text(n, ro), &model::render(&s, ro, Mode::Text))?;
        }
    }
    Ok(())
}
fn c16(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some((doc, m, _)) = expected(c, ctx)? else { return Ok(()) };
    let ro = ROpts { inner: false, minify: true, ..c.r() };
    let got = doc.render(&ro.real());
    let want = model::render(&m, &ro, Mode::Outer);
    ctx.hit("renders_compared");
    let plain = model::render(&m, &ROpts { minify: false, ..ro }, Mode::Outer);
    if plain != want {
        ctx.hit("minified");
        ctx.nontrivial(c);
    }
    let mut pre = false;
    m.walk(&mut |x| pre |= x.kind == Kind::Tag && model::lc(&x.name) == "pre");
    if pre {
        ctx.hit("with_pre");
    }
    diff(&format!("rendering with {:?}", on_r(ro.bits())), &got, &want)?;
    if !ro.decode {
        // model-free: only whitespace is removed
        let sq = |s: &str| s.chars().filter(|c| !model::ws(*c)).collect::<String>();
        let full = doc.render(&ROpts { minify: false, ..ro }.real());
        diff("non-whitespace of the minified rendering", &sq(&got), &sq(&full))?;
    }
    // every node on its own
    let root = doc.get_root_node();
    let real = snap_rc(&root)?;
    for n in all_nodes(&root).iter().skip(1).take(6) {
        let s = snap_rc(n)?;
        diff("node rendering", &outer(n, &ro), &model::render(&s, &ro, Mode::Outer))?;
    }
    parts(c, &root, &ro, ctx)?;
    diff("rendering of the observed tree", &got, &model::render(&real, &ro, Mode::Outer))
}

// ------------------------------------------------------------------ C17

fn g17(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx < 0x300 * 6 {
        let ch = char::from_u32((idx / 6) as u32).unwrap_or('x');
        let q = if ch == '"' { '\'' } else { '"' };
        let v = match idx % 6 {
            0 => format!("{}", ch),
            1 => format!("{}a", ch),
            2 => format!("a{}", ch),
            3 => format!("a{}b", ch),
            4 => format!("a/{}", ch),
            _ => format!("{}{}", ch, ch),
        };
        let end = [">", "/>", " />", " x>"][(idx as usize / 7) % 4];
        return Case::new(format!("<br a={}{}{}{}<i></i>", q, v, q, end), 0, 8, 0);
    }
    let mut c = match idx % 3 {
        0 | 1 => {
            let (s, _, po) = gen::attr_doc(r, idx % 90 == 0);
            Case::new(s, po & !2, 0, 0)
        }
        _ => g_accept(idx, r, t),
    };
    c.po &= !2;
    c.ro = 8 | if r.chance(1, 3) { r.below(64) as u32 } else { 0 };
    c
}
fn c17(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some((doc, m, _)) = expected(c, ctx)? else { return Ok(()) };
    let ro = ROpts { inner: false, noquote: true, ..c.r() };
    let got = doc.render(&ro.real());
    parts(c, &doc.get_root_node(), &ro, ctx)?;
    let want = model::render(&m, &ro, Mode::Outer);
    let mut quoted = 0;
    m.walk(&mut |x| {
        for a in &x.attrs {
            if a.quote.is_some() {
                quoted += 1;
                ctx.hit(if model::needs_quote(a) { "quotes_kept" } else { "quotes_removed" });
            }
        }
    });
    if quoted > 0 {
        ctx.nontrivial(c);
    }
    diff(&format!("rendering with {:?}", on_r(ro.bits())), &got, &want)?;
    let plain = ROpts { noquote: true, ..Default::default() };
    let text = doc.render(&plain.real());
    let d2 = match rparse(&text, &c.p()) {
        Ok(d) => d,
        Err(e) => return Err(format!("without quotes {:?} is rejected: {}", clip(&text), clip(&e.to_string()))),
    };
    ctx.hit("reparsed");
    let strip = |s: &Snap| normal_quotes(&merge_text(s));
    compare(&strip(&root_snap(&d2)?), &strip(&root_snap(&doc)?), Cmp { attrs: true, lcmap: true, spans: false, spaces_class: false, index: false, flags: true, tag_ends: false }, "re-parsed without quotes")
}
fn normal_quotes(s: &Snap) -> Snap {
    let mut o = clone_shallow(s);
    for a in &mut o.attrs {
        a.quote = None;
    }
    o.childs = s.childs.iter().map(normal_quotes).collect();
    o
}

// ------------------------------------------------------------------ C18

fn g18(idx: u64, r: &mut Rng, t: bool) -> Case {
    let mut c = match idx % 3 {
        0 => Case::new(gen::casey(r), 0b111000, 0, 0),
        _ => g_r(idx, r, t),
    };
    c.ro = if r.chance(1, 3) { [0, 1, 8, 64, 128, 9, 73][r.below(7)] } else { 0 };
    c
}
fn c18(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some((doc, m, _)) = expected(c, ctx)? else { return Ok(()) };
    let base = ROpts { inner: false, lower: false, endspace: false, nocomment: false, closevoid: false, ..c.r() };
    let plain = doc.render(&base.real());
    for k in 0..16u32 {
        let ro = ROpts { lower: k & 1 != 0, endspace: k & 2 != 0, nocomment: k & 4 != 0, closevoid: k & 8 != 0, ..base };
        let got = doc.render(&ro.real());
        ctx.hit("renders_compared");
        let want = model::render(&m, &ro, Mode::Outer);
        diff(&format!("rendering with {:?}", on_r(ro.bits())), &got, &want)?;
        if k.count_ones() == 1 && got != plain {
            ctx.nontrivial(c);
            ctx.hit(match k {
                1 => "effect_lowercase",
                2 => "effect_endtag_space",
                4 => "effect_comment",
                _ => "effect_close_void",
            });
        }
        // model-free consequences
        match k {
            1 if !got.eq_ignore_ascii_case(&plain) => return Err("lowercase_tagname changed more than letter case".into()),
            2 => {
                let sq = |s: &str| s.chars().filter(|c| !model::ws(*c)).collect::<String>();
                if sq(&got) != sq(&plain) || got.len() > plain.len() {
                    return Err("remove_endtag_space changed more than whitespace".into());
                }
            }
            4 if got.contains("<!--") && !plain_has_fake_comment(&m) => return Err("a comment is left with remove_comment".into()),
            8 => {
                let sq = |s: &str| s.replace(" /", "");
                if sq(&got) != sq(&plain) {
                    return Err("always_close_void changed more than ' /'".into());
                }
            }
            _ => {}
        }
    }
    let mut r = c.rng();
    let k = r.below(16) as u32;
    parts(c, &doc.get_root_node(), &ROpts { lower: k & 1 != 0, endspace: k & 2 != 0, nocomment: k & 4 != 0, closevoid: k & 8 != 0, ..base }, ctx)?;
    Ok(())
}
/// "<!--" inside raw text, CDATA or attribute values
fn plain_has_fake_comment(m: &Snap) -> bool {
    let mut f = false;
    m.walk(&mut |x| {
        f |= (x.kind == Kind::Tag || x.kind == Kind::Cdata || x.kind == Kind::Text) && x.content.as_deref().unwrap_or("").contains("<!--");
        f |= (x.kind == Kind::Tag || x.kind == Kind::Doctype) && (x.name.contains("<!--") || x.attrs.iter().any(|a| a.key.as_deref().unwrap_or("").contains("<!--") || a.value.as_deref().unwrap_or("").contains("<!--")));
        f |= x.end_tag.as_ref().map(|e| e.content.contains("<!--")).unwrap_or(false);
        // text decoded into markup characters
        f |= x.is_texty() && x.content.as_deref().unwrap_or("").contains('&');
    });
    f || m.name.ends_with('<')
}

// ------------------------------------------------------------------ C19

fn g19(idx: u64, r: &mut Rng, t: bool) -> Case {
    let span = 0x12_0000u64 / 256;
    if idx < span * 3 {
        let base = (idx / 3) * 256;
        let mut s = String::new();
        for v in base..base + 256 {
            match idx % 3 {
                0 => s.push_str(&format!("&#{};", v)),
                1 => s.push_str(&format!("&#x{:x};", v)),
                _ => s.push_str(&format!("&#X{:X};", v)),
            }
        }
        return Case::new(s, 0, 64, 0);
    }
    let mut c = match idx % 4 {
        0 | 1 => {
            let mut s = String::new();
            for _ in 0..1 + r.below(6) {
                match r.below(5) {
                    0 => {
                        let k = r.below(4);
                        let n = gen::case_mix(r, model::RAWS[k]);
                        let body: String = (0..r.below(5)).map(|_| r.pick(&["<b>", "</b>", "&", "&amp;", "<", ">", "x", "\"", "'", "é", "&lt;", "</titl", "</textarea x>", "]]>", "-->", " ", "&#60;", "\u{a0}", "<title>"])).collect();
                        let low = model::lc(&body);
                        if !low.contains(&format!("</{}", model::lc(&n))) {
                            s.push_str(&format!("<{}>{}</{}>", n, body, n));
                        }
                    }
                    1 => {
                        let v = r.pick(&["a=\"&lt;\"", "b='&amp;'", "c=&gt;", "d"]);
                        let i: String = entity_text(r);
                        s.push_str(&format!("<p {}>{}</p>", v, i));
                    }
                    2 => s.push_str(r.pick(&["<!-- &lt; -->", "<pre>  &gt;  </pre>", "<svg><g><![CDATA[&amp;]]></g></svg>", "<!DOCTYPE a '&lt;'>", "<br title='&copy;'>"])),
                    _ => {
                        let e = entity_text(r);
                        s.push_str(&e)
                    }
                }
            }
            Case::new(s, 0, 0, 0)
        }
        _ => g_r(idx, r, t),
    };
    c.ro = [64, 128, 192, 65, 193, 64, 128][r.below(7)] | if r.chance(1, 4) { r.below(64) as u32 } else { 0 };
    c
}
fn entity_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(6) {
        match r.below(10) {
            0 => s.push_str(&format!("&#{};", r.below(0x11_2000))),
            1 => s.push_str(&format!("&#x{:x};", r.below(0x11_2000))),
            2 => s.push_str(r.pick(&["&", ";", "#", "&#", "&#x", "&&", ";;", "&;", "& ", " &", "&#x;", "&#-1;", "&#1e3;", "&#xg;", "&#00065;", "&#x0000000041;", "&#65", "&#x41 ;", "&#4294967361;"])),
            3 => s.push_str(r.pick(&["&lt", "&ltt;", "&lt;", "&LT;", "&Lt;", "&gT;", "&AMP;", "&amp", "&amp;amp;", "&amp;lt;", "&ampx;"])),
            4 => s.push_str(r.pick(&["&Aacute;", "&aacute;", "&alpha;", "&Alpha;", "&rarr;", "&euro;", "&zwj;", "&Omega;", "&not;", "&notin;", "&thetasym;", "&fflig;", "&NotEqualTilde;"])),
            5 => s.push_str(r.pick(gen::SPACES)),
            6 => {
                let c = gen::weird_char(r);
                if c != '<' {
                    s.push(c);
                }
            }
            7 => s.push_str(r.pick(&["text", "a  b", "x", "1 > 0"])),
            _ => {
                let w = r.pick(gen::TEXT_WORDS);
                s.push_str(w)
            }
        }
    }
    s
}
fn c19(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some((doc, m, _)) = expected(c, ctx)? else { return Ok(()) };
    let ro = ROpts { inner: false, ..c.r() };
    let got = doc.render(&ro.real());
    parts(c, &doc.get_root_node(), &ro, ctx)?;
    ctx.hit("renders_compared");
    let want = model::render(&m, &ro, Mode::Outer);
    diff(&format!("rendering with {:?}", on_r(ro.bits())), &got, &want)?;
    let nodec = model::render(&m, &ROpts { decode: false, ..ro }, Mode::Outer);
    if ro.decode && nodec != want {
        ctx.hit("decoded");
        ctx.nontrivial(c);
    }
    let noenc = model::render(&m, &ROpts { encode: false, ..ro }, Mode::Outer);
    if ro.encode && noenc != want {
        ctx.hit("encoded");
        ctx.nontrivial(c);
        // encoding cannot change the structure
        let enc = ROpts { encode: true, ..Default::default() };
        let text = doc.render(&enc.real());
        if !c.p().eq {
            let d2 = match rparse(&text, &c.p()) {
                Ok(d) => d,
                Err(e) => return Err(format!("encoded rendering {:?} is rejected: {}", clip(&text), clip(&e.to_string()))),
            };
            ctx.hit("encoded_reparsed");
            let enc_tree = |s: &Snap| encode_raw(&merge_text(s));
            compare(&merge_text(&root_snap(&d2)?), &enc_tree(&root_snap(&doc)?), Cmp { attrs: true, spaces_class: false, ..STRUCT }, "encoded and re-parsed")?;
        }
    }
    // text of single nodes
    let root = doc.get_root_node();
    for n in all_nodes(&root).iter().skip(1).take(8) {
        let s = snap_rc(n)?;
        if s.kind == Kind::Tag {
            diff("inner text", &inner_text(n, &ro), &model::render(&s, &ro, Mode::Text))?;
        }
    }
    Ok(())
}
fn encode_raw(s: &Snap) -> Snap {
    let mut o = clone_shallow(s);
    let l = model::lc(&o.name);
    if o.kind == Kind::Tag && (l == "title" || l == "textarea") {
        o.content = o.content.map(|c| model::encode(&c));
    }
    o.childs = s.childs.iter().map(encode_raw).collect();
    o
}

// ------------------------------------------------------------------ C20

fn c20(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let Some((doc, m, e2e)) = expected(c, ctx)? else { return Ok(()) };
    if m.count() > 2 {
        ctx.nontrivial(c);
    }
    let ro = ROpts { inner: false, ..c.r() };
    let root = doc.get_root_node();
    let live = all_nodes(&root);
    let mut flat: Vec<&Snap> = vec![];
    m.walk(&mut |x| flat.push(x));
    let real = snap_rc(&root)?;
    let mut rflat: Vec<&Snap> = vec![];
    real.walk(&mut |x| rflat.push(x));
    let use_model = e2e && flat.len() == live.len();
    let step = 1 + live.len() / 40;
    for (i, n) in live.iter().enumerate().skip(1).step_by(step) {
        let s: &Snap = if use_model { flat[i] } else { rflat[i] };
        let k = s.kind;
        for o in [ROpts::default(), ro] {
            let out = outer(n, &o);
            diff("outer rendering of a node", &out, &model::render(s, &o, Mode::Outer))?;
            if k == Kind::Tag {
                let inn = inner_html(n, &o);
                ctx.hit("inner_html_compared");
                diff("inner HTML", &inn, &model::render(s, &o, Mode::Inner))?;
                // outer = start tag + inner + end tag
                let start = model::start_tag_text(s, &o);
                if !(out.starts_with(&start) && out[start.len()..].starts_with(&inn)) {
                    return Err(format!("outer {:?} is not start tag {:?} + inner {:?}", clip(&out), clip(&start), clip(&inn)));
                }
                let rest = &out[start.len() + inn.len()..];
                let end_ok = match &s.end_tag {
                    None => rest.is_empty(),
                    Some(_) => rest.starts_with("</") && rest.ends_with('>'),
                };
                if !end_ok {
                    return Err(format!("after the inner HTML of <{}> comes {:?}", clip(&s.name), clip(rest)));
                }
            }
            if matches!(k, Kind::Tag | Kind::Comment | Kind::Cdata) {
                ctx.hit("inner_text_compared");
                if k == Kind::Comment {
                    ctx.hit("comment_text_compared");
                }
                diff("inner text", &inner_text(n, &o), &model::render(s, &o, Mode::Text))?;
            }
        }
    }
    let top: &Snap = if e2e { &m } else { &real };
    let tags: Vec<&Snap> = top.childs.iter().filter(|x| x.kind == Kind::Tag).collect();
    if tags.len() == 1 {
        for o in [ROpts::default(), ro] {
            ctx.hit("root_inner_compared");
            diff("inner HTML of the root", &doc.render(&ROpts { inner: true, ..o }.real()), &model::render(tags[0], &o, Mode::Inner))?;
            diff("inner text of the root", &doc.render_text(&o.real()), &model::render(tags[0], &o, Mode::Text))?;
        }
    }
    if top.childs.is_empty() {
        diff("inner text of an empty document", &doc.render_text(&ro.real()), "")?;
    }
    Ok(())
}
