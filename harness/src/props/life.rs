//! C01, C02, C23, C24, C25: robustness, memory, files, determinism, cost.
use super::*;
use crate::alloc;
use crate::model::Mode;
use crate::rng::{hash_str, mix};
use crate::runner::{guarded, thread_cpu_ns};
use rphtml::parser::AttrData;
use std::cell::{Cell, RefCell};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Weak;
use std::sync::{Arc, Barrier};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "a case is one input x parse options; it is parsed (short ones also at every prefix), and every accepted document is rendered with several option sets, read as inner HTML/text where defined, searched, cloned, printed and dropped under a panic, abort and CPU-time monitor; non-trivial when the input holds a '<'",
        quick: 218_000,
        thorough: 17_440_000,
        threads: 8,
        cpu_limit: 30,
        gen: g01,
        check: c01,
        need: &[("accepted", 40_000), ("rejected", 20_000), ("renders", 200_000), ("prefixes", 100_000), ("deep_documents", 5)],
        extra: Some(x01),
        assumptions: &["a case that uses 30 s of CPU time without finishing is a hang (documents are at most a few hundred thousand characters)", "the library is built with overflow checks and debug assertions"],
        exhaustive: "all sequences of up to 3 (thorough: 5) of 29 markup tokens, alternating between no repairs and all repairs",
    },
    Prop {
        id: "C02",
        rule: "a case is one history of parse, clone, edit, graft, render and drop in random order, with the live bytes of the thread (counting allocator) and weak references to every node observed before and after; non-trivial when at least two nodes were created; plus the same kind of histories under AddressSanitizer with LeakSanitizer and under Miri",
        quick: 90_000,
        thorough: 3_600_000,
        threads: 8,
        cpu_limit: 30,
        gen: g02,
        check: c02,
        need: &[("histories", 50_000), ("failed_parses", 5_000), ("nodes_watched", 200_000), ("handles_used_after_drop", 20_000), ("asan_histories", 500), ("miri_histories", 5)],
        extra: Some(x02),
        assumptions: &["edits that make a node its own descendant are not part of the workload"],
        exhaustive: "",
    },
    Prop {
        id: "C23",
        rule: "a case is one text written to a scratch file and read back with parse_file by absolute and relative path, or one path that cannot be read as UTF-8 text; the outcome is compared with Doc::parse of the same text; non-trivial when the file is not empty",
        quick: 125_000,
        thorough: 3_750_000,
        threads: 8,
        cpu_limit: 30,
        gen: g23,
        check: c23,
        need: &[("files_compared", 15_000), ("errors_compared", 2_000), ("unreadable", 1_000), ("no_final_newline", 2_000), ("crlf", 1_000), ("relative_in_own_cwd", 10)],
        extra: Some(x23),
        assumptions: &["runs as root, so a file without read permission cannot be simulated; missing, directory, non-directory parent, dangling link, link loop and non-UTF-8 stand in for unreadable"],
        exhaustive: "",
    },
    Prop {
        id: "C24",
        rule: "a case is one input x options whose outcome is fingerprinted before and after a random history of other calls, on the same thread and (one in 40) on a fresh one, with the tree compared before and after reading; then sets of inputs are fingerprinted in fresh processes in different orders, environments, after long pasts of one sort of document (large, rejected, deep, ...), and by 8 threads started together; near copies of equal length are parsed with the memory of the former one free and taken; non-trivial when the input holds a '<'",
        quick: 70_000,
        thorough: 3_500_000,
        threads: 8,
        cpu_limit: 30,
        gen: g24,
        check: c24,
        need: &[("histories", 50_000), ("failed_in_history", 20_000), ("fresh_threads", 500), ("process_runs", 10), ("threaded_runs", 4), ("near_copies", 20_000), ("long_pasts", 30), ("miri_thread_seeds", 1)],
        extra: Some(x24),
        assumptions: &["the interleavings seen are those of the operating system (8 threads, barrier) and of Miri's seeded scheduler"],
        exhaustive: "",
    },
    Prop {
        id: "C25",
        rule: "a case is one family of documents growing with a factor n; bytes allocated, allocation calls and peak memory of parse and render are compared at n and 8n (deterministic), and for the timed families thread CPU time at n and 16n; non-trivial when the larger document has at least 20,000 characters",
        quick: 6_500,
        thorough: 65_000,
        threads: 4,
        cpu_limit: 120,
        gen: g25,
        check: c25,
        need: &[("alloc_families", 700), ("timed_families", 40), ("chars_timed", 10_000_000)],
        extra: None,
        assumptions: &["linear means: 8 times the input costs at most 20 times the allocation, 16 times the input at most 56 times the CPU time (quadratic: 64 and 256), confirmed by repetition"],
        exhaustive: "",
    },
];

// ------------------------------------------------------------------ C01

fn g01(idx: u64, r: &mut Rng, t: bool) -> Case {
    if let Some(s) = gen::nth_sequence(idx / 2, seq_len(t)) {
        return Case::new(s, if idx % 2 == 0 { 0 } else { 0b111000 }, (idx % 256) as u32, idx);
    }
    match idx % 10 {
        0 => {
            let po = po_repair(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, ro_any(r), r.u64() >> 16)
        }
        1 => Case::new(gen::declarations(r), po_any(r), ro_any(r), r.u64() >> 16),
        2 => {
            let (s, _, po) = gen::attr_doc(r, idx % 100 == 2);
            let s = if r.chance(1, 2) { gen::mutate(r, &s) } else { s };
            Case::new(s, po | po_any(r), ro_any(r), r.u64() >> 16)
        }
        3 => {
            let (s, _, po) = gen::opaque_doc(r, idx % 100 == 3);
            let s = if r.chance(1, 2) { gen::mutate(r, &s) } else { s };
            Case::new(s, po | po_any(r), ro_any(r), r.u64() >> 16)
        }
        _ => g_hostile_any(idx, r, t),
    }
}

/// everything that can be asked of a document, without judging the answers
fn exercise(doc: &DocHolder, c: &Case, light: bool) -> u64 {
    let mut r = c.rng();
    let mut renders = 0;
    let root = doc.get_root_node();
    let opts = [ROpts::default(), ROpts { inner: false, ..c.r() }, ROpts::from_bits(255), ROpts::from_bits(r.below(256) as u32)];
    for o in &opts[..if light { 2 } else { 4 }] {
        let _ = doc.render(&o.real());
        renders += 1;
    }
    if light {
        return renders;
    }
    let tags = root.borrow().childs.as_ref().map(|v| v.iter().filter(|x| is_tag(x)).count()).unwrap_or(0);
    let empty = root.borrow().childs.as_ref().map(|v| v.is_empty()).unwrap_or(true);
    if tags == 1 || (empty && root.borrow().childs.is_none()) {
        let _ = doc.render_text(&opts[1].real());
        let _ = inner_html(&root, &opts[1]);
        renders += 2;
    }
    let nodes = all_nodes(&root);
    for _ in 0..nodes.len().min(6) {
        let n = &nodes[r.below(nodes.len())];
        let o = &opts[r.below(4)];
        let _ = outer(n, o);
        renders += 1;
        match n.borrow().node_type {
            NodeType::Tag => {
                let _ = inner_html(n, o);
                let _ = inner_text(n, o);
                renders += 2;
            }
            NodeType::Comment | NodeType::XMLCDATA => {
                let _ = inner_text(n, o);
                renders += 1;
            }
            _ => {}
        }
        let cl = n.borrow().clone_node();
        let _ = outer(&cl, o);
        let _ = n.borrow().is_document();
        let _ = Node::is_same(n, &cl);
        if nodes.len() < 300 {
            let _ = format!("{:?}", cl.borrow());
        }
        let v: Node = n.borrow().clone();
        drop(v);
    }
    for id in ["a", "", "x y", "1", "main", "\u{0}"] {
        let _ = doc.get_element_by_id(id);
    }
    let _ = root.borrow().is_document();
    let cl = root.borrow().clone_node();
    drop(root);
    drop(nodes);
    let _ = outer(&cl, &opts[1]);
    renders + 1
}

fn c01(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    if c.src.contains('<') {
        ctx.nontrivial(c);
    }
    match rparse(&c.src, &o) {
        Ok(doc) => {
            ctx.hit("accepted");
            let n = exercise(&doc, c, false);
            ctx.add("renders", n);
            ctx.max("max_chars", c.src.len() as u64);
            // the tree goes on without the document handle
            let root = doc.get_root_node();
            drop(doc);
            let _ = outer(&root, &ROpts { inner: false, ..c.r() });
            let _ = root.borrow().is_document();
            let cl = root.borrow().clone_node();
            drop(root);
            let again = cl.borrow().clone_node();
            drop(cl);
            let _ = outer(&again, &ROpts { inner: false, ..c.r() });
            ctx.add("renders", 2);
        }
        Err(e) => {
            ctx.hit("rejected");
            let _ = e.to_string();
            let _ = format!("{:?}", e);
        }
    }
    if c.src.len() <= 80 {
        let ends: Vec<usize> = c.src.char_indices().map(|x| x.0).collect();
        for k in ends {
            ctx.hit("prefixes");
            if let Ok(doc) = rparse(&c.src[..k], &o) {
                let n = exercise(&doc, c, true);
                ctx.add("renders", n);
            }
        }
    }
    Ok(())
}

pub const DEEP_KINDS: &[&str] = &["closed", "unclosed", "svg", "pre", "mixed", "rejected", "attrs"];
fn deep_doc(kind: &str, n: usize) -> (String, POpts, bool) {
    let mut o = POpts::default();
    match kind {
        "closed" => (gen::nested("div", n, "x"), o, true),
        "unclosed" => {
            o.fix_unclosed = true;
            ("<div>".repeat(n), o, true)
        }
        "svg" => (gen::nested("svg", n, " <g/> "), o, true),
        "pre" => (gen::nested("pre", n, "  \n"), o, true),
        "rejected" => ("<div>".repeat(n), o, false),
        "attrs" => ("<a b=\"c d\" id=x>".repeat(n) + &"</A >".repeat(n), o, true),
        _ => {
            let names = ["div", "b", "svg", "PRE", "Math", "x-y"];
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("<{}> ", names[i % 6]));
            }
            for i in (0..n).rev() {
                s.push_str(&format!("</{}>\n", names[i % 6]));
            }
            (s, o, true)
        }
    }
}

/// a document of the given nesting depth on a thread with the default 8 MB main-thread stack
fn sub_deep(kind: &str, n: usize) -> i32 {
    let (s, o, ok) = deep_doc(kind, n);
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match rparse(&s, &o) {
            Ok(doc) => {
                let root = doc.get_root_node();
                for b in [0u32, 1, 255] {
                    let _ = doc.render(&ROpts::from_bits(b).real());
                }
                if kind_is_single(&root) {
                    let _ = doc.render_text(&ROpts::default().real());
                }
                let cl = root.borrow().clone_node();
                let a = outer(&cl, &ROpts::default());
                let b = doc.render(&ROpts::default().real());
                let _ = doc.get_element_by_id("x");
                let _ = root.borrow().is_document();
                drop(root);
                drop(doc);
                drop(cl);
                ok && a == b
            }
            Err(e) => {
                let _ = e.to_string();
                !ok
            }
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(true)) => 0,
        Ok(Ok(false)) => 3,
        _ => 4,
    }
}
fn kind_is_single(root: &RefNode) -> bool {
    root.borrow().childs.as_ref().map(|v| v.iter().filter(|x| is_tag(x)).count() == 1).unwrap_or(false)
}

/// the committed list of defects that are known and not repaired
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let s = std::fs::read_to_string(Path::new(&root).join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (key, what) = rest.strip_prefix("key=")?.split_once(' ')?;
            if p == id {
                Some((key.to_string(), what.to_string()))
            } else {
                None
            }
        })
        .collect()
}

fn x01(env: &Env, ctx: &mut Ctx) -> Res<()> {
    let run = |kind: &str, n: usize| -> Res<Option<String>> {
        let o = Command::new(&env.exe).args(["sub", "deep", kind, &n.to_string()]).stdout(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| format!("INCONCLUSIVE cannot start a subprocess: {}", e))?;
        if o.status.code() == Some(0) {
            return Ok(None);
        }
        let err = String::from_utf8_lossy(&o.stderr);
        Ok(Some(format!("{}{}", match (o.status.code(), o.status.signal()) {
            (Some(3), _) => "wrong outcome".into(),
            (Some(4), _) => "panic".into(),
            (c, s) => format!("process died (code {:?}, signal {:?})", c, s),
        }, if err.contains("overflowed its stack") { ", stack overflow" } else { "" })))
    };
    for kind in DEEP_KINDS {
        ctx.evals += 1;
        for n in [100, 1000, 2000] {
            if let Some(m) = run(kind, n)? {
                return Err(format!("{} elements nested ({}): {}", n, kind, m));
            }
        }
        ctx.hit("deep_documents");
        ctx.distinct.insert(mix(hash_str(kind, 3)));
    }
    let listed = known_findings("C01");
    for (key, kind) in [("nest-1000000-closed", "closed"), ("nest-1000000-rejected", "rejected")] {
        if let Some(m) = run(kind, 1_000_000)? {
            match listed.iter().find(|(k, _)| k == key) {
                Some((_, what)) => println!("KNOWN-FINDING: property=C01 {} ({})", what, m),
                None => return Err(format!("1000000 elements nested ({}): {}", kind, m)),
            }
        }
        ctx.hit("very_deep_documents");
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn g02(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 5 == 4 {
        let mut c = g_accept(idx, r, t);
        c.aux = r.u64() >> 16;
        return c;
    }
    g_hostile_any(idx, r, t)
}

#[derive(Default, Clone, Copy)]
pub struct HStats {
    pub failed: u64,
    pub nodes: u64,
    pub after_drop: u64,
    pub grafts: u64,
}

/// One history of handles. Everything it makes is gone when it returns; nothing is stored elsewhere.
pub fn history(src: &str, po: u32, ro: u32, aux: u64) -> Res<HStats> {
    let mut st = HStats::default();
    let mut r = Rng::from_parts(&[aux, 4711]);
    let o = POpts::from_bits(po);
    let ro = ROpts { inner: false, ..ROpts::from_bits(ro) };
    let doc = match rparse(src, &o) {
        Ok(d) => d,
        Err(e) => {
            let _ = e.to_string();
            st.failed = 1;
            return Ok(st);
        }
    };
    let mut weak: Vec<Weak<RefCell<Node>>> = vec![];
    let watch = |n: &RefNode, weak: &mut Vec<Weak<RefCell<Node>>>| {
        for x in all_nodes(n) {
            weak.push(Rc::downgrade(&x));
            if let Some(e) = &x.borrow().end_tag {
                weak.push(Rc::downgrade(e));
            }
        }
    };
    let root = doc.get_root_node();
    watch(&root, &mut weak);
    let wdoc = root.borrow().document.clone();
    let nodes = all_nodes(&root);
    // handles with what they show now
    let mut held: Vec<(RefNode, String, Snap)> = vec![];
    for _ in 0..1 + r.below(3) {
        let n = Rc::clone(&nodes[r.below(nodes.len())]);
        let s = outer(&n, &ro);
        let sn = snap_rc(&n)?;
        held.push((n, s, sn));
    }
    let mut clones: Vec<RefNode> = vec![];
    for _ in 0..r.below(3) {
        let n = &nodes[r.below(nodes.len())];
        let cl = n.borrow().clone_node();
        watch(&cl, &mut weak);
        clones.push(cl);
    }
    let id = r.pick(&["a", "x y", "1", "main", ""]);
    let by_id = doc.get_element_by_id(id);
    let _ = doc.get_element_by_id(&format!("q{:x}", aux));
    let second = if r.chance(1, 3) { rparse("<p id=a> q <b>r</b></p><!--s-->", &POpts::default()).ok() } else { None };
    let _ = doc.render(&ro.real());
    let _ = root.borrow().is_document();
    if r.chance(1, 4) {
        // Clone on a plain value
        let v: Node = nodes[r.below(nodes.len())].borrow().clone();
        let _ = v.build(&ro.real(), false);
    }
    drop(nodes);
    let mut root = Some(root);
    let mut doc = Some(doc);
    for step in 0..6 {
        match (step + r.below(6)) % 6 {
            0 => {
                root = None;
            }
            1 => {
                doc = None;
            }
            2 => {
                // graft a clone into another clone or into a document of its own
                if clones.len() >= 2 {
                    let a = clones.pop().unwrap();
                    let b = &clones[0];
                    if b.borrow().node_type == NodeType::Tag || b.borrow().node_type == NodeType::AbstractRoot {
                        a.borrow_mut().parent = Some(Rc::downgrade(b));
                        b.borrow_mut().childs.get_or_insert_with(Vec::new).push(a);
                        st.grafts += 1;
                    }
                }
            }
            3 => {
                if let Some(d2) = &second {
                    let r2 = d2.get_root_node();
                    let taken = r2.borrow_mut().childs.as_mut().and_then(|v| v.pop());
                    if let Some(t) = taken {
                        watch(&t, &mut weak);
                        clones.push(t);
                    }
                }
            }
            4 => {
                if let Some(c) = clones.last() {
                    let _ = outer(c, &ro);
                    if let Some(m) = &c.borrow().meta {
                        m.borrow_mut().name = "zz".chars().collect();
                    }
                }
            }
            _ => {
                if held.len() > 1 {
                    let k = r.below(held.len());
                    held.swap_remove(k);
                }
            }
        }
    }
    drop(doc.take());
    drop(second);
    if let Some(n) = &by_id {
        let _ = outer(n, &ro);
    }
    drop(by_id);
    drop(root.take());
    // the document is gone: what is held works as before
    if let Some(w) = &wdoc {
        if w.upgrade().is_some() {
            return Err("the document is still alive after its last handle was dropped".into());
        }
    }
    for (n, s, sn) in &held {
        st.after_drop += 1;
        diff("a node after its document was dropped", &outer(n, &ro), s)?;
        compare(&snap_rc(n)?, sn, Cmp { attrs: true, lcmap: true, spans: true, index: true, ..STRUCT }, "held")?;
        let cl = n.borrow().clone_node();
        watch(&cl, &mut weak);
        let cs = outer(&cl, &ro);
        diff("a clone made after the document was dropped", &cs, s)?;
        let b = n.borrow();
        // links may be dead, following them must be harmless
        for l in [&b.parent, &b.root, &b.prev] {
            if let Some(x) = l.as_ref().and_then(|w| w.upgrade()) {
                let _ = Rc::strong_count(&x);
            }
        }
        if sn.count() < 50 {
            let _ = format!("{:?}", b);
        }
    }
    drop(held);
    drop(clones);
    st.nodes = weak.len() as u64;
    let alive = weak.iter().filter(|w| w.upgrade().is_some()).count();
    if alive > 0 {
        return Err(format!("{} of {} nodes are still alive after the last handle was dropped", alive, weak.len()));
    }
    Ok(st)
}

thread_local! {
    static WARM: Cell<bool> = const { Cell::new(false) };
}
/// a document nobody has seen before, of the same make
fn variant(src: &str, k: u64) -> String {
    let tag = format!("v{:x}q", k);
    let mut out = String::new();
    let mut word = String::new();
    let flush = |w: &mut String, out: &mut String| {
        let l = model::lc(w);
        let fixed = model::is_void(&l) || model::is_raw(&l) || model::is_special(&l) || ["pre", "doctype", "cdata", "id", "html"].contains(&l.as_str());
        out.push_str(w);
        if !w.is_empty() && !fixed {
            out.push_str(&tag);
        }
        w.clear();
    };
    for c in src.chars() {
        if c.is_ascii_alphabetic() {
            word.push(c);
        } else {
            flush(&mut word, &mut out);
            out.push(c);
        }
    }
    flush(&mut word, &mut out);
    out
}

/// documents and errors that come from files leave nothing behind either
fn files_released(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let f = file_dir().join("leak.html");
    let once = |path: &Path| -> i64 {
        let a = alloc::now().live;
        match Doc::parse_file(path, c.p().real()) {
            Ok(d) => drop(d.render(&Default::default())),
            Err(e) => drop(e.to_string()),
        }
        alloc::now().live - a
    };
    let mut bad = 0;
    const N: u64 = 12;
    for k in 0..N {
        let v = if k < 2 { c.src.clone() } else { variant(&c.src, c.aux ^ k << 20) };
        let mut bytes = v.into_bytes();
        if c.aux % 32 == 0 {
            bytes.push(0xff); // not UTF-8
        }
        if std::fs::write(&f, &bytes).is_err() {
            return Err("INCONCLUSIVE cannot write a scratch file".into());
        }
        ctx.hit("file_parses");
        let grown = if c.aux % 64 == 8 { once(&file_dir().join("missing.html")) } else { once(&f) };
        if grown > 0 {
            bad += 1;
        } else if k >= 3 && bad == 0 {
            break;
        }
    }
    if bad >= N / 2 {
        return Err(format!("{} of {} files of this make leave memory behind after parse_file and dropping the result", bad, N));
    }
    Ok(())
}

fn c02(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if !WARM.with(|w| w.replace(true)) {
        for i in 0..200u64 {
            let mut r = Rng::from_parts(&[i, 99]);
            let w = g_hostile_any(1, &mut r, false);
            let _ = guarded(|| history(&w.src, w.po, w.ro, w.aux));
        }
    }
    if c.aux % 8 == 0 {
        files_released(c, ctx)?;
    }
    let live0 = alloc::now().live;
    let out = history(&c.src, c.po, c.ro, c.aux);
    let (st, err) = match out {
        Ok(s) => (s, None),
        Err(e) => (HStats::default(), Some(e)),
    };
    let grown = alloc::now().live - live0;
    if let Some(e) = err {
        return Err(e);
    }
    ctx.hit("histories");
    ctx.add("failed_parses", st.failed);
    ctx.add("nodes_watched", st.nodes);
    ctx.add("handles_used_after_drop", st.after_drop);
    ctx.add("grafts", st.grafts);
    if st.nodes > 2 {
        ctx.nontrivial(c);
    }
    if grown != 0 {
        // once is not accumulation: look at fresh documents of the same make
        ctx.hit("growth_rechecked");
        let mut grew = 0;
        let mut bytes = 0;
        const N: u64 = 48;
        for k in 0..N {
            let v = variant(&c.src, c.aux ^ (k + 1) << 20);
            let a = alloc::now().live;
            let h = history(&v, c.po, c.ro, c.aux.wrapping_add(k));
            drop(h);
            let b = alloc::now().live;
            drop(v);
            if b > a {
                grew += 1;
                bytes += b - a;
            }
        }
        let mut same_grew = 0;
        for k in 0..N {
            let a = alloc::now().live;
            let h = history(&c.src, c.po, c.ro, c.aux.wrapping_add(k * 7));
            drop(h);
            if alloc::now().live > a {
                same_grew += 1;
            }
        }
        if grew >= N / 3 || same_grew >= N / 3 {
            return Err(format!("{} bytes stay allocated after every handle is gone; {} of {} further documents of this make leave memory behind ({} bytes), {} of {} repetitions of the same one", grown, grew, N, bytes, same_grew, N));
        }
        // nothing accumulates, but is the last document kept? then memory follows its size up and down
        let chars: Vec<char> = c.src.chars().collect();
        let mut r = c.rng();
        for k in 0..24u64 {
            if chars.is_empty() {
                break;
            }
            ctx.hit("retention_rechecked");
            let at = r.below(chars.len() + 1);
            let mut big: String = chars[..at].iter().collect();
            big.extend(std::iter::repeat('q').take(400));
            big.extend(&chars[at..]);
            let aux = if k % 2 == 0 { c.aux } else { r.u64() >> 16 };
            let level = |s: &str| {
                let _ = history(s, c.po, c.ro, aux);
                alloc::now().live
            };
            let mut follows = true;
            let mut last = 0;
            for _ in 0..6 {
                let (a, b) = (level(&big), level(&c.src));
                last = a - b;
                if last < 400 {
                    follows = false;
                    break;
                }
            }
            if follows {
                return Err(format!("memory of a document whose handles are all gone is still held: {} bytes more after a longer document than after a shorter one, every time", last));
            }
        }
    }
    Ok(())
}

/// run the sanitizer script; it prints "OBSERVED name=count" lines
fn sanitizer(env: &Env, ctx: &mut Ctx, mode: &str, key: &'static str) -> Res<()> {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let o = Command::new("bash")
        .arg(Path::new(&root).join("sanitize.sh"))
        .args([mode, &env.seed.to_string(), if env.thorough { "thorough" } else { "quick" }])
        .output()
        .map_err(|e| format!("INCONCLUSIVE cannot run sanitize.sh: {}", e))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut n = 0;
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("OBSERVED ") {
            n += x.parse::<u64>().unwrap_or(0);
        }
    }
    ctx.add(key, n);
    ctx.evals += n;
    match o.status.code() {
        Some(0) => Ok(()),
        Some(1) => {
            let txt: Vec<&str> = out.lines().filter(|l| l.starts_with("REPORT ")).take(12).collect();
            Err(format!("{}: {}", mode, txt.join(" | ")))
        }
        c => Err(format!("INCONCLUSIVE sanitize.sh {} ended with {:?}: {}", mode, c, out.lines().rev().take(5).collect::<Vec<_>>().join(" | "))),
    }
}
fn x02(env: &Env, ctx: &mut Ctx) -> Res<()> {
    sanitizer(env, ctx, "asan", "asan_histories")?;
    sanitizer(env, ctx, "miri", "miri_histories")
}

// ------------------------------------------------------------------ C23

fn file_dir() -> PathBuf {
    thread_local! {
        static D: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    }
    D.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let id = format!("{:?}", std::thread::current().id());
                let p = std::env::temp_dir().join(format!("rphtml-files-{}-{}", std::process::id(), id.chars().filter(|c| c.is_ascii_digit()).collect::<String>()));
                let _ = std::fs::create_dir_all(&p);
                p
            })
            .clone()
    })
}
fn g23(idx: u64, r: &mut Rng, t: bool) -> Case {
    let mut c = match idx % 6 {
        0 => {
            let po = po_any(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, ro_any(r), 0)
        }
        1 | 2 => g_accept(idx, r, t),
        3 => {
            let c = gen::corpus();
            let s = c[r.below(c.len())].clone();
            Case::new(s, po_any(r), 0, 0)
        }
        _ => g_hostile_any(idx, r, t),
    };
    // line-break styles and file endings
    match r.below(12) {
        9 => {
            // what files begin with
            let head = r.pick(&["<?xml version=\"1.0\"?>\n", "<?xml version='1.0' encoding='latin1'?>", "#!/bin/sh\n", "---\ntitle: x\n---\n", "%PDF-1.4\n", "<?php echo 1 ?>\n", "<%@ page %>\n", "@charset 'x';\n", "\u{feff}\u{feff}", "\u{feff}\n", "\0", "\n\n", "\r\n\r\n", " \t", "// c\n", "/* c */", "{{ x }}\n", "<!-- saved from url=(0014)about:internet -->\n", "\u{c}", "\u{1b}[0m", "\u{fffe}", "HTTP/1.1 200 OK\r\n\r\n", "From x\n\n", ")]}'\n", "\u{2028}", "<!-->", "<!DOCTYPE html>\r\n"]);
            c.src.insert_str(0, head);
        }
        10 => {
            // what files end with
            let tail = r.pick(&["\u{1a}", "\0", "\0\0\0\0", "\n\n", "\r", "\n\r", " ", "\t\n", "\u{feff}", "\u{2029}", "\u{85}", "\u{4}", "\\", "\\\n", "<!-- vim: set ft=html : -->\n", "\u{a0}", "\u{c}", "\n.\n", "<", "&", "EOF\n"]);
            c.src.push_str(tail);
        }
        11 => {
            // inside
            let k = r.below(c.src.chars().count() + 1);
            let at = c.src.char_indices().nth(k).map(|x| x.0).unwrap_or(c.src.len());
            let mid = r.pick(&["\u{feff}", "\0", "\u{1a}", "\r\r\n", "\u{2028}", "\u{85}", "\u{b}", "\u{fffd}", "\n\n\n", "\\\n", "\r", "\u{8}"]);
            c.src.insert_str(at, mid);
        }
        0 => c.src = c.src.replace('\n', "\r\n"),
        1 => c.src = c.src.replace('\n', "\r"),
        2 => c.src.push('\n'),
        3 => c.src.push_str("\r\n"),
        4 => c.src.insert(0, '\u{feff}'),
        5 => c.src = format!("<p>\r\na\r\n\r\n</p>{}", c.src),
        6 if r.chance(1, 8) => c.src = String::new(),
        7 if r.chance(1, 10) => {
            let unit = r.pick(&["<p>é\r\n</p>\n", "<b>x</b>", "\n", "a\r", "<i>中</i>\n"]);
            c.src = unit.repeat(r.range(500, 9000));
        }
        _ => {}
    }
    if idx % 4001 == 7 {
        // past every usual buffer and limit
        let unit = r.pick(&["<p>é\r\n</p>\n", "<b>x</b> t", "中文\n", "<!-- c -->\n"]);
        let bytes = [70_000, 270_000, 1_100_000, 2_200_000, 4_300_000][(idx / 4001) as usize % 5] + r.below(1000);
        c.src = unit.repeat(bytes / unit.len() + 1);
        if r.chance(1, 2) {
            c.src.push_str("<i id=end>");
        }
    }
    c.aux = r.u64() >> 16;
    c
}
fn outcome(r: Result<DocHolder, BoxDynError>) -> Res<Result<(Snap, String, DocHolder), String>> {
    Ok(match r {
        Ok(d) => {
            let s = root_snap(&d)?;
            let t = d.render(&ROpts::default().real());
            Ok((s, t, d))
        }
        Err(e) => Err(format!("{} / {:?}", e, e)),
    })
}
pub const ALL: Cmp = Cmp { attrs: true, lcmap: true, spans: true, spaces_class: true, index: true, flags: true, tag_ends: true };
fn same_outcome(what: &str, a: &Result<(Snap, String, DocHolder), String>, b: &Result<(Snap, String, DocHolder), String>) -> Res<()> {
    match (a, b) {
        (Ok((s, t, _)), Ok((s2, t2, _))) => {
            compare(s, s2, ALL, what)?;
            diff(what, t, t2)
        }
        (Err(x), Err(y)) => {
            if x == y {
                Ok(())
            } else {
                Err(format!("{}: error {:?}, expected {:?}", what, clip(x), clip(y)))
            }
        }
        (Ok(_), Err(y)) => Err(format!("{}: accepted, but the text is rejected: {}", what, clip(y))),
        (Err(x), Ok(_)) => Err(format!("{}: rejected ({}), but the text is accepted", what, clip(x))),
    }
}
fn c23(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let o = c.p();
    let dir = file_dir();
    let mut r = c.rng();
    let f = dir.join(r.pick(&["a.html", "b", "ü x.htm", "c.tar.gz", ".hidden", "d.xhtml", "e.xml", "f.svg", "g.HTML", "h.txt", "i.md", "j.php", "k.js", "l.vue", "m.mml", "n.shtml", "o.tmp", "p~"]));
    let mut bytes = c.src.clone().into_bytes();
    if r.chance(1, 12) {
        // not UTF-8
        let bad: &[u8] = r.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xed\xa0\x80"[..], &b"\xf8\x88\x80\x80\x80"[..], &b"\xc0\xaf"[..]]);
        let at = match r.below(3) {
            0 => 0,
            1 => bytes.len(),
            _ => r.below(bytes.len() + 1),
        };
        // splitting a character is fine: it is invalid either way
        bytes.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&bytes).is_ok() {
            return Ok(());
        }
        std::fs::write(&f, &bytes).map_err(|e| format!("INCONCLUSIVE {}", e))?;
        ctx.hit("unreadable");
        let got = Doc::parse_file(&f, o.real());
        let _ = std::fs::remove_file(&f);
        return match got {
            Ok(_) => Err(format!("a file that is not UTF-8 (byte {}) gave a document", at)),
            Err(_) => Ok(()),
        };
    }
    if r.chance(1, 12) {
        ctx.hit("unreadable");
        let p: PathBuf = match r.below(6) {
            0 => dir.join("no-such-file"),
            1 => dir.clone(),
            2 => {
                std::fs::write(&f, &bytes).map_err(|e| format!("INCONCLUSIVE {}", e))?;
                f.join("below")
            }
            3 => {
                let l = dir.join("dangling");
                let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &l);
                l
            }
            4 => {
                let l = dir.join("loop");
                let _ = std::os::unix::fs::symlink(&l, &l);
                l
            }
            _ => dir.join("no-such-dir").join("x.html"),
        };
        let rel = up_path(&p);
        let (a, b) = (Doc::parse_file(&p, o.real()).is_ok(), Doc::parse_file(&rel, o.real()).is_ok() || Doc::parse_file("", o.real()).is_ok());
        let _ = std::fs::remove_file(&f);
        if a || b {
            return Err(format!("a path that cannot be read gave a document (kind {:?})", p.file_name()));
        }
        return Ok(());
    }
    std::fs::write(&f, &bytes).map_err(|e| format!("INCONCLUSIVE {}", e))?;
    let want = outcome(rparse(&c.src, &o))?;
    if want.is_err() {
        ctx.hit("errors_compared");
    }
    if !c.src.ends_with('\n') {
        ctx.hit("no_final_newline");
    }
    if c.src.contains("\r\n") {
        ctx.hit("crlf");
    }
    if !c.src.is_empty() {
        ctx.nontrivial(c);
    }
    let got = outcome(Doc::parse_file(&f, o.real()))?;
    same_outcome("parse_file by absolute path", &got, &want)?;
    ctx.hit("files_compared");
    if r.chance(1, 3) {
        let got = outcome(Doc::parse_file(up_path(&f), o.real()))?;
        same_outcome("parse_file by relative path", &got, &want)?;
        ctx.hit("files_compared");
    }
    if r.chance(1, 10) {
        let l = dir.join("link");
        let _ = std::fs::remove_file(&l);
        let _ = std::os::unix::fs::symlink(&f, &l);
        let got = outcome(Doc::parse_file(l.to_str().unwrap_or(""), o.real()))?;
        same_outcome("parse_file through a link", &got, &want)?;
        let _ = std::fs::remove_file(&l);
    }
    if let (Ok((s, _, d)), Ok((_, _, d2))) = (&got, &want) {
        // the file is only read, the document lives on without it
        let _ = std::fs::remove_file(&f);
        compare(&root_snap(d)?, s, ALL, "after the file is gone")?;
        let ro = ROpts { inner: false, ..c.r() };
        diff("rendering of the file's document", &d.render(&ro.real()), &d2.render(&ro.real()))?;
        return Ok(());
    }
    let _ = std::fs::remove_file(&f);
    Ok(())
}
/// the same file, relative to the current directory
fn up_path(p: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap_or_default();
    let mut s = PathBuf::new();
    for _ in cwd.components().skip(1) {
        s.push("..");
    }
    if s.as_os_str().is_empty() {
        s.push(".");
    }
    s.join(p.strip_prefix("/").unwrap_or(p))
}
/// in a process whose current directory is the scratch directory: plain relative names
fn sub_relfile() -> i32 {
    let docs = ["<p>\r\na</p>\r\n", "x", "", "<a b='c'>\n", "\u{feff}<i> </i>", "<b>é\r</b>", "<!--\n-->\n\n"];
    let _ = std::fs::create_dir_all("sub");
    let mut n = 0;
    for (i, d) in docs.iter().enumerate() {
        for name in ["a.html", "./a.html", "sub/b c.html", "sub/../ü.html", "./sub/./x"] {
            let base = Path::new(name).file_name().unwrap_or_default().to_os_string();
            for decoy in [Path::new(".").join(&base), Path::new("sub").join(&base), Path::new("..").join(&base)] {
                if std::fs::write(decoy, "<decoy>not this one</decoy>").is_err() {
                    return 2;
                }
            }
            if std::fs::write(name, d).is_err() {
                return 2;
            }
            let a = outcome(Doc::parse_file(name, Default::default()));
            let b = outcome(rparse(d, &POpts::default()));
            let ok = match (a, b) {
                (Ok(a), Ok(b)) => same_outcome("relative", &a, &b).is_ok(),
                _ => false,
            };
            if !ok {
                println!("REPORT document {} read as {:?} differs", i, name);
                return 1;
            }
            n += 1;
        }
    }
    // names that must be taken literally, each by relative and by absolute path, with decoys at the places a wrong
    // reading would lead to
    let report = |what: &str, name: &Path| {
        println!("REPORT {}: {:?} differs", what, name);
        1
    };
    let same = |path: &Path, text: &str| -> bool {
        match (outcome(Doc::parse_file(path, Default::default())), outcome(rparse(text, &POpts::default()))) {
            (Ok(a), Ok(b)) => same_outcome("file", &a, &b).is_ok(),
            _ => false,
        }
    };
    let Ok(cwd) = std::env::current_dir() else { return 2 };
    let put = |p: &Path, t: &str| std::fs::write(p, t).is_ok();
    let _ = std::fs::create_dir_all("deep/inner/low");
    let _ = std::fs::create_dir_all("inner");
    let _ = std::os::unix::fs::symlink("deep/inner", "lnk");
    let _ = std::os::unix::fs::symlink(cwd.join("deep"), "lnk2");
    let _ = std::os::unix::fs::symlink("../../sub", "deep/inner/back");
    use std::os::unix::ffi::OsStrExt;
    let odd = std::ffi::OsStr::from_bytes(b"n\xffm.html");
    let long = "n".repeat(250);
    let names: Vec<(&str, &str)> = vec![
        ("lnk/../z.html", "z.html"),
        ("lnk/low/../../z.html", "z.html"),
        ("lnk2/inner/../y.html", "y.html"),
        ("deep/inner/back/../t.html", "deep/inner/t.html"),
        ("lnk/back/w.html", "lnk/w.html"),
        ("deep//inner///d.html", "inner/d.html"),
        ("./deep/./inner/./e.html", "inner/e.html"),
        ("a%20b.html", "a b.html"),
        ("q.html?x=1", "q.html"),
        ("h.html#top", "h.html"),
        (" s.html", "s.html"),
        ("u.html ", "u.html"),
        ("~", "sub/~"),
        ("$HOME", "sub/$HOME"),
        ("~root", "sub/~root"),
        ("back\\slash.html", "slash.html"),
        ("noext", "noext.html"),
        ("noext.html", "noext"),
        ("CASE.html", "case.html"),
        ("case.html", "CASE.html"),
        ("*.html", "g.html"),
        ("-", "sub/-"),
        ("file:f.html", "f.html"),
        ("sub/.", ""),
        ("e\u{301}.html", "\u{e9}.html"),
        ("x.html.gz", "x.html"),
        (long.as_str(), "nn"),
    ];
    for (name, decoy) in &names {
        if decoy.is_empty() {
            continue;
        }
        for k in 0..2 {
            let name = Path::new(name);
            let text = format!("<i k={}>{}</i>\r\n", k, name.display().to_string().replace('<', ""));
            let _ = std::fs::remove_file(decoy);
            if k == 0 && !put(Path::new(decoy), "<decoy>not this one</decoy>") {
                return 2;
            }
            if !put(name, &text) {
                return 2;
            }
            for p in [name.to_path_buf(), cwd.join(name), Path::new("sub/..").join(name), cwd.join("lnk2/..").join(name)] {
                if !same(&p, &text) {
                    return report("by name", &p);
                }
                n += 1;
            }
        }
    }
    if put(Path::new(odd), "<b>odd</b>") {
        for p in [PathBuf::from(odd), cwd.join(odd)] {
            if !same(&p, "<b>odd</b>") {
                return report("not a UTF-8 name", &p);
            }
            n += 1;
        }
    }
    // the content at the time of the call counts, also when length and time stamp are those of the time before
    let stamp = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    for (k, t) in ["<p>one</p>", "<p>two</p>", "<b>two</b>", "<b>tw\n</b>", "<p>one</p>", "0123456789"].iter().enumerate() {
        for name in ["again.html", "sub/again.html"] {
            if !put(Path::new(name), t) {
                return 2;
            }
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(name) {
                let _ = f.set_modified(stamp);
            }
            let p = if k % 2 == 0 { PathBuf::from(name) } else { cwd.join(name) };
            if !same(&p, t) {
                return report("rewritten file", &p);
            }
            n += 1;
        }
    }
    // another current directory, the same relative name
    for (d, t) in [("sub", "<p>one</p>"), ("deep", "<p>two</p>"), ("deep/inner", "<p>six</p>"), ("inner", "<p>ten</p>")] {
        if std::env::set_current_dir(cwd.join(d)).is_err() || !put(Path::new("here.html"), t) {
            return 2;
        }
        if !same(Path::new("here.html"), t) || !same(Path::new("./here.html"), t) {
            return report("after changing the directory", Path::new(d));
        }
        n += 2;
    }
    if std::env::set_current_dir(&cwd).is_err() {
        return 2;
    }
    // files whose recorded size says nothing
    for p in ["/proc/sys/kernel/ostype", "/proc/sys/kernel/osrelease", "/proc/self/comm"] {
        if let Ok(t) = std::fs::read_to_string(p) {
            if !same(Path::new(p), &t) {
                return report("file of unknown size", Path::new(p));
            }
            n += 1;
        }
    }
    // the name's ending says nothing: every kind with everything the options decide about
    for ext in ["html", "htm", "xhtml", "xht", "xml", "svg", "mml", "txt", "md", "php", "vue", "js", "css", "HTML", "XML", "tmp", "bak", "gz", ""] {
        for (k, t) in ["<p/>x", "<a></A>", "<a =b></a>", "<p>x", "x</p>", "a < 1", "<g><![CDATA[x]]></g>", "<svg><g/></svg>", "<br>", "<BR/>", "<?xml version='1.0'?><p></p>", "<script>a<b</script>", "<title><b></title>", "&amp;", " <p> </p> ", "<!DOCTYPE html>\n", "# h\n\n* <b>x</b>"].iter().enumerate() {
            let name = if ext.is_empty() { format!("k{}", k) } else { format!("k{}.{}", k, ext) };
            if !put(Path::new(&name), t) {
                return 2;
            }
            if !same(Path::new(&name), t) || (k % 4 == 0 && !same(&cwd.join(&name), t)) {
                return report("by the name's ending", Path::new(&name));
            }
            n += 1;
            let _ = std::fs::remove_file(&name);
        }
    }
    // read-only and hard linked files
    if put(Path::new("ro.html"), "<p>ro</p>") {
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions("ro.html", std::fs::Permissions::from_mode(0o444));
        let _ = std::fs::hard_link("ro.html", "hard.html");
        for p in ["ro.html", "hard.html"] {
            if Path::new(p).exists() {
                if !same(Path::new(p), "<p>ro</p>") {
                    return report("read-only file", Path::new(p));
                }
                n += 1;
            }
        }
    }
    for name in ["nope.html", "sub", "sub/none/x", "a.html/x"] {
        if Doc::parse_file(name, Default::default()).is_ok() {
            println!("REPORT {:?} gave a document", name);
            return 1;
        }
        n += 1;
    }
    println!("OBSERVED {}", n);
    0
}
fn x23(env: &Env, ctx: &mut Ctx) -> Res<()> {
    let d = env.scratch.join("rel").join("cwd");
    let _ = std::fs::create_dir_all(&d);
    let o = Command::new(&env.exe).args(["sub", "relfile"]).current_dir(&d).stderr(Stdio::null()).output().map_err(|e| format!("INCONCLUSIVE {}", e))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    match o.status.code() {
        Some(0) => {
            let n = out.lines().filter_map(|l| l.strip_prefix("OBSERVED ")).filter_map(|x| x.parse::<u64>().ok()).sum();
            ctx.add("relative_in_own_cwd", n);
            ctx.evals += n;
            Ok(())
        }
        Some(1) | Some(101) => Err(format!("relative paths: {}", out.trim())),
        c => Err(format!("INCONCLUSIVE relfile ended with {:?} {:?}", c, o.status.signal())),
    }
}

// ------------------------------------------------------------------ C24

fn g24(idx: u64, r: &mut Rng, t: bool) -> Case {
    if idx % 401 == 17 {
        // long lists of elements with ids
        let n = [20, 70, 140, 300, 700][r.below(5)] + r.below(9);
        let (a, b) = [("", ""), ("<ul>", "</ul>"), ("<svg><g>", "</g></svg>"), ("<div>x<p></p>", "</div>")][r.below(4)];
        let mut s = String::from(a);
        for k in 0..n {
            s.push_str(&format!("<li id={}{}>{}</li>{}", r.pick(&["", "k", "x-"]), k, r.pick(&["", "t", "<b id=q></b>"]), r.pick(&["", "", " ", "<!---->"])));
        }
        s.push_str(b);
        return Case::new(s, po_any(r), ro_any(r), r.u64() >> 16);
    }
    match idx % 4 {
        0 => {
            let po = po_any(r);
            Case::new(gen::broken(r, &POpts::from_bits(po)), po, ro_any(r), r.u64() >> 16)
        }
        1 => Case::new(gen::casey(r), po_any(r), ro_any(r), r.u64() >> 16),
        _ => g_hostile_any(idx, r, t),
    }
}
fn snap_hash(s: &Snap) -> u64 {
    hash_str(&format!("{:?}", s), 11)
}
pub fn digest(src: &str, po: u32, ro: u32) -> u64 {
    match rparse(src, &POpts::from_bits(po)) {
        Err(e) => hash_str(&format!("{} / {:?}", e, e), 1),
        Ok(d) => {
            let ro = ROpts { inner: false, ..ROpts::from_bits(ro) };
            let a = d.render(&ro.real());
            let s = root_snap(&d).map(|s| snap_hash(&s)).unwrap_or(7);
            let b = d.render(&ROpts::default().real());
            let root = d.get_root_node();
            let cl = outer(&root.borrow().clone_node(), &ro);
            let is = root.borrow().is_document();
            let id = ["a", "1", "main", "x y", "x"].iter().map(|i| d.get_element_by_id(i).map(|n| n.borrow().begin_at + 1).unwrap_or(0)).fold(0u64, |h, v| mix(h ^ v as u64));
            let cfg = (rphtml::util::is_char_available_in_key(&'a'), rphtml::parser::allow_insert(&['B', 'r'], NodeType::Tag));
            mix(s ^ hash_str(&a, 2) ^ mix(hash_str(&b, 3)) ^ mix(id ^ hash_str(&cl, 4)) ^ hash_str(&format!("{:?}{:?}", is, cfg), 5))
        }
    }
}
/// the input with one letter or digit changed
fn near_copy(s: &str, r: &mut Rng) -> Option<String> {
    let mut b = s.as_bytes().to_vec();
    if b.is_empty() || b.len() > 20_000 {
        return None;
    }
    let st = r.below(b.len());
    let k = (0..b.len()).map(|k| (st + k) % b.len()).find(|k| b[*k].is_ascii_alphanumeric())?;
    b[k] = match b[k] {
        b'z' => b'y',
        b'Z' => b'Y',
        b'9' => b'8',
        x => x + 1,
    };
    String::from_utf8(b).ok()
}
fn c24(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.src.contains('<') {
        ctx.nontrivial(c);
    }
    let d1 = digest(&c.src, c.po, c.ro);
    let mut r = c.rng();
    // reading changes nothing
    if let Ok(doc) = rparse(&c.src, &c.p()) {
        let ro = ROpts { inner: false, ..c.r() };
        let first = root_snap(&doc)?;
        let t0 = doc.render(&ROpts::default().real());
        let t1 = doc.render(&ro.real());
        let mut ids: Vec<String> = vec![];
        first.walk(&mut |x| ids.extend(x.attrs.iter().filter(|a| a.key.as_deref().map(|k| k.eq_ignore_ascii_case("id")).unwrap_or(false)).filter_map(|a| a.value.clone())));
        for k in 0..3 {
            let o = ROpts::from_bits(r.below(256) as u32);
            let _ = doc.render(&o.real());
            let _ = doc.get_element_by_id(r.pick(&["a", "1", "q"]));
            for _ in 0..ids.len().min(3) {
                let _ = doc.get_element_by_id(&ids[r.below(ids.len())]);
                ctx.hit("lookups");
            }
            if let Some(last) = ids.last() {
                let _ = doc.get_element_by_id(last);
            }
            let root = doc.get_root_node();
            let _ = root.borrow().is_document();
            let cl = root.borrow().clone_node();
            if k == 1 && cl.borrow().childs.is_some() {
                cl.borrow_mut().childs = None;
            }
            if let Some(ch) = &root.borrow().childs {
                for n in ch.iter().take(4) {
                    let _ = outer(n, &o);
                    if is_tag(n) {
                        let _ = inner_text(n, &o);
                        let _ = inner_html(n, &o);
                    }
                }
            };
        }
        ctx.hit("reread");
        compare(&root_snap(&doc)?, &first, ALL, "the tree after reading")?;
        diff("the default rendering after other renderings", &doc.render(&ROpts::default().real()), &t0)?;
        diff("the rendering after other renderings", &doc.render(&ro.real()), &t1)?;
        // another document, edited, while this one is alive
        if let Ok(d2) = rparse(&c.src, &c.p()) {
            let r2 = d2.get_root_node();
            for n in all_nodes(&r2).iter().take(8) {
                if let Some(m) = &n.borrow().meta {
                    m.borrow_mut().attrs.push(rphtml::parser::Attr { key: Some(AttrData { content: vec!['z'] }), ..Default::default() });
                }
            }
            r2.borrow_mut().childs = None;
            compare(&root_snap(&doc)?, &first, ALL, "the tree after editing another document")?;
        }
    }
    // a near copy of the same length: right after the first was dropped (its memory is free again),
    // and while another one is alive; whatever is remembered of one must not show in the other
    if let Some(near) = near_copy(&c.src, &mut r) {
        ctx.hit("near_copies");
        let again = digest(&c.src, c.po, c.ro);
        let n1 = digest(&near, c.po, c.ro);
        let a1 = digest(&c.src, c.po, c.ro);
        let alive = rparse(&c.src, &c.p());
        let n2 = digest(&near, c.po, c.ro);
        if again != d1 || a1 != d1 {
            return Err("the outcome differs when the input is parsed again".into());
        }
        if n1 != n2 {
            return Err(format!("the outcome for {:?} depends on whether the document before was dropped", clip(&near)));
        }
        drop(alive);
    }
    ctx.hit("histories");
    let mut keep = vec![];
    for _ in 0..1 + r.below(4) {
        let (s, o) = match r.below(4) {
            0 => {
                let o = po_any(&mut r);
                (gen::broken(&mut r, &POpts::from_bits(o)), o)
            }
            1 => {
                let o = r.below(64) as u32;
                let k = r.below(c.src.chars().count() + 1);
                (c.src.chars().take(k).collect(), o)
            }
            2 => (gen::declarations(&mut r), r.below(64) as u32),
            _ => {
                let o = po_any(&mut r);
                (gen::hostile(&mut r, &POpts::from_bits(o)), o)
            }
        };
        match rparse(&s, &POpts::from_bits(o)) {
            Ok(d) => {
                let _ = d.render(&ROpts::from_bits(r.below(256) as u32).real());
                if r.chance(1, 2) {
                    keep.push(d);
                }
            }
            Err(_) => ctx.hit("failed_in_history"),
        }
    }
    let d2 = digest(&c.src, c.po, c.ro);
    if d1 != d2 {
        return Err("the outcome differs after other documents were parsed".into());
    }
    drop(keep);
    if c.aux % 40 == 0 {
        ctx.hit("fresh_threads");
        let (s, po, ro) = (c.src.clone(), c.po, c.ro);
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || digest(&s, po, ro)).map_err(|e| format!("INCONCLUSIVE {}", e))?;
        match h.join() {
            Ok(d3) if d3 == d1 => {}
            Ok(_) => return Err("the outcome differs on a fresh thread".into()),
            Err(_) => return Err("panic on a fresh thread".into()),
        }
    }
    Ok(())
}
fn digest_case(seed: u64, i: u64) -> Case {
    let mut r = Rng::from_parts(&[seed, 24, i]);
    if i < 24 {
        // first uses of every table: names of all classes, entities, characters
        let docs = [
            "<br><IMG/>", "<svg><g/></svg>", "<script>a</script>", "<title>&lt;<b></title>", "<pre>  x </pre>", "&amp;&#60;&copy;", "<!DOCTYPE html>", "<math><mi><![CDATA[x]]></mi></math>", "<a b=c d='e f'>", "<a></A>", "</x>", "<p>a < b", "<textarea></textarea >", "<!-- -->", "<input disabled>", "<style></style>", "<p/>x", "<a =b></a>", "<P></p>", "<p>", "</p>", "<svg><![CDATA[", "<!x>", "<a b=c/>",
        ];
        return Case::new(docs[i as usize].into(), if i < 16 && i % 3 == 0 { 0b111000 } else { 0 }, [0, 1, 255, 64, 128][i as usize % 5], 0);
    }
    if i < 24 + 48 {
        // every beginning with every kind of thing the options decide about
        let k = i as usize - 24;
        let start = ["<!-- a comment -->", "<!doctype html>", "some text ", "<br>", "<svg><g/></svg>", "<p>x</p>", "\n ", "&amp;", "<a id=x>y</a>", "<![CDATA[", "</x>", "<script>1</script>"][k / 4];
        let tail = [" and a < b or c << d, and so on for more than forty characters", "</x> and then the text goes on for more than forty characters", "<p><b>never closed, and the text goes on for more than forty", "<B id=a class='c d'>fine,   and the text</b > goes on <!-- c --><br/>"][k % 4];
        return Case::new(format!("{}{}", start, tail), 0, [0, 17, 255, 64, 128][i as usize % 5], 0);
    }
    g24(i, &mut r, false)
}
/// documents to have been parsed before: large, deep, wide, rejected, ...
fn past(k: u64, i: u64) -> (String, u32) {
    let mut r = Rng::from_parts(&[k, i, 2401]);
    let big = if k % 3 == 0 { 12_000 } else { 60 };
    let po = if i % 4 == 0 { 0b111000 } else { po_any(&mut r) };
    let n = big / 10;
    let s = match (k / 3) % 10 {
        0 => "some text ".repeat(n),
        1 => "<b id=a>x</b>\n ".repeat(n),
        2 => format!("{}</nope>", "<i>x</i>".repeat(n)),
        3 => format!("{}x{}", "<div>".repeat(n.min(200)), "</div>".repeat(n.min(200))),
        4 => "a < b &lt; &#60; ".repeat(n),
        5 => "<!-- c --><!doctype html>".repeat(n),
        6 => format!("<p{}>", " k='v w'".repeat(n)),
        7 => format!("<svg>{}</svg>", "<g/><![CDATA[x]]>".repeat(n)),
        8 => format!("<script>{}</script><title>{}</title>", "a<b;".repeat(n), "x ".repeat(n)),
        _ => gen::hostile(&mut r, &POpts::from_bits(po)),
    };
    (s, po)
}
fn sub_digest(seed: u64, mode: &str, count: u64) -> i32 {
    let one = |i: u64| {
        let c = digest_case(seed, i);
        guarded(|| digest(&c.src, c.po, c.ro)).unwrap_or(0)
    };
    let mut order: Vec<u64> = (0..count).collect();
    crate::runner::install_hook();
    match mode {
        "forward" => {}
        "reverse" => order.reverse(),
        m if m.starts_with("after") => {
            // a long past: many documents of one sort, kept or dropped, then the sample
            let k: u64 = m[5..].parse().unwrap_or(0);
            let mut kept = vec![];
            for i in 0..[40, 300, 1500][k as usize % 3] {
                let (s, po) = past(k, i);
                if let Ok(Ok(d)) = guarded(|| rparse(&s, &POpts::from_bits(po)).map(|d| { let _ = guarded(|| d.render(&ROpts::from_bits((k as u32 * 37) & 0xff).real())); d })) {
                    if (k / 3) % 2 == 0 && i < 40 {
                        kept.push(d);
                    }
                }
            }
            std::mem::forget(kept);
        }
        m if m.starts_with("rot") => {
            let k: usize = m[3..].parse().unwrap_or(0);
            order.rotate_left(k % count as usize);
        }
        m if m.starts_with("threads") => {
            let salt: u64 = m[7..].parse().unwrap_or(0);
            // a spinning barrier: all threads are running when the first use begins
            let b = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let mut hs = vec![];
            for t in 0..8u64 {
                let b = b.clone();
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || {
                            let mut ord: Vec<u64> = (0..count).collect();
                            let mut r = Rng::from_parts(&[salt, t]);
                            for i in (1..ord.len()).rev() {
                                ord.swap(i, r.below(i + 1));
                            }
                            if salt % 2 == 0 {
                                // everybody begins with the same input
                                let first = salt % count;
                                let p = ord.iter().position(|x| *x == first).unwrap();
                                ord.swap(0, p);
                            }
                            let cases: Vec<Case> = ord.iter().map(|i| digest_case(seed, *i)).collect();
                            b.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let mut spins = 0u64;
                            while b.load(std::sync::atomic::Ordering::SeqCst) < 8 {
                                spins += 1;
                                if spins % 20_000 == 0 {
                                    std::thread::yield_now();
                                }
                                std::hint::spin_loop();
                            }
                            ord.iter().zip(&cases).map(|(i, c)| (*i, guarded(|| digest(&c.src, c.po, c.ro)).unwrap_or(0))).collect::<Vec<_>>()
                        })
                        .unwrap(),
                );
            }
            let mut seen: Vec<Option<u64>> = vec![None; count as usize];
            for h in hs {
                for (i, d) in h.join().unwrap_or_default() {
                    match seen[i as usize] {
                        None => seen[i as usize] = Some(d),
                        Some(x) if x == d => {}
                        Some(_) => {
                            println!("REPORT two threads disagree on {}", digest_case(seed, i).show());
                            return 1;
                        }
                    }
                }
            }
            for (i, d) in seen.iter().enumerate() {
                println!("D {} {:?}", i, d.unwrap_or(0));
            }
            return 0;
        }
        _ => return 2,
    }
    let mut v: Vec<(u64, u64)> = order.iter().map(|i| (*i, one(*i))).collect();
    v.sort();
    for (i, d) in v {
        println!("D {} {}", i, d);
    }
    0
}
fn x24(env: &Env, ctx: &mut Ctx) -> Res<()> {
    let count: u64 = if env.thorough { 3000 } else { 400 };
    let run = |mode: &str, weird: bool, count: u64| -> Res<Vec<String>> {
        let mut c = Command::new(&env.exe);
        c.args(["sub", "digest", &env.seed.to_string(), mode, &count.to_string()]);
        if weird {
            c.current_dir("/").env_clear().env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo");
        }
        let o = c.stderr(Stdio::null()).output().map_err(|e| format!("INCONCLUSIVE {}", e))?;
        let s = String::from_utf8_lossy(&o.stdout).into_owned();
        match o.status.code() {
            Some(0) => Ok(s.lines().map(|l| l.to_string()).collect()),
            Some(1) => Err(s.lines().last().unwrap_or("").to_string()),
            c => Err(format!("a process parsing the sample ({}) ended with {:?} {:?}", mode, c, o.status.signal())),
        }
    };
    let base = run("forward", false, count)?;
    let mut modes: Vec<String> = vec!["reverse".into()];
    for k in 0..if env.thorough { 64 } else { 18 } {
        modes.push(format!("rot{}", 1 + k * if k < 16 { 1 } else { 13 }));
    }
    for k in 0..if env.thorough { 64 } else { 20 } {
        modes.push(format!("threads{}", k));
    }
    for k in 0..if env.thorough { 240 } else { 60 } {
        modes.push(format!("after{}", k));
    }
    for (i, m) in modes.iter().enumerate() {
        let got = run(m, i % 3 == 1, count)?;
        ctx.evals += got.len() as u64;
        ctx.distinct.insert(hash_str(m, 77));
        if m.starts_with("threads") {
            ctx.hit("threaded_runs");
        } else if m.starts_with("after") {
            ctx.hit("long_pasts");
        } else {
            ctx.hit("process_runs");
        }
        if got != base {
            let k = got.iter().zip(&base).position(|(a, b)| a != b).unwrap_or(0) as u64;
            return Err(format!("the outcome in a fresh process ({}) differs: {}", m, digest_case(env.seed, k).show()));
        }
    }
    // many short processes: only the first uses, all threads at once
    for k in 0..if env.thorough { 2000 } else { 250 } {
        let got = run(&format!("threads{}", 1000 + k), false, 24)?;
        ctx.evals += got.len() as u64;
        ctx.hit("first_use_races");
        if let Some(i) = got.iter().zip(&base).position(|(a, b)| a != b) {
            return Err(format!("the outcome in a fresh process with 8 threads differs: {}", digest_case(env.seed, i as u64).show()));
        }
    }
    sanitizer(env, ctx, "miri-threads", "miri_thread_seeds")
}

// ------------------------------------------------------------------ C25

const WRAPS: &[(&str, &str)] = &[
    ("", ""),
    ("<div>", "</div>"),
    ("<script>", "</script>"),
    ("<!--", "-->"),
    ("<a b=\"", "\"></a>"),
    ("<title>", "</title>"),
    ("<pre>", "</pre>"),
    ("<svg><g>", "</g></svg>"),
    ("<a ", "></a>"),
    ("<a b=", "></a>"),
    ("<svg><g><![CDATA[", "]]></g></svg>"),
    ("<!DOCTYPE ", ">"),
    ("<textarea>", "</textarea >"),
    ("x</", "><b></b>"),
    ("<", "></q>"),
    ("<style>", ""),
    ("<p>", ""),
];
const UNITS: &[&str] = &[
    "x", " ", "\n", "\r\n", "<", "</", "</s", "</script", "</script x", "</script ", "</title <", "--", "-->", "- ", "]]", "]]>", "]", ">", "=", "\"", "'", "/", "&", "&amp;", "&#60;", "&;", ";", "a=b ", "a=\"b\" ", "a ", "=a ", "id=x ", "é", "😀", "<b></b>", "<br>", "<g/>", "</x>", "< ", "<1", "<<", "<!---->", "<!-- -- -->", "<i id=q></i>", "a\n<b> </b>\n", "<svg></svg>", "<pre> </pre>",
    "<SCRIPT></SCRIPT>", "<a b=c d='e'>t</a>", "<!DOCTYPE html>", "&lt", "a  b", "<p>a</P >", "< /b>", "<title></title>", "</style", "</textarea>", "<a/>", "K", "<b>&amp;</b> ", "a&b;c ",
];
fn g25(idx: u64, r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::new(String::new(), 0, 0, 0);
    let nu = UNITS.len() as u64;
    let nw = WRAPS.len() as u64;
    let sh = gen::SHAPES as u64;
    if idx < sh {
        c.tag = format!("time shape {}", idx);
        return c;
    }
    if idx < sh + 34 {
        // timed: wrapped units
        let w = (idx - sh) % nw;
        c.tag = format!("time wrap {}", w);
        c.src = UNITS[r.below(nu as usize)].to_string();
        c.po = po_any(r) | if idx % 2 == 0 { 0b110000 } else { 0 };
        return c;
    }
    if idx < 2 * sh + 34 {
        c.tag = format!("alloc shape {}", idx - sh - 34);
        return c;
    }
    let k = idx - (2 * sh + 34);
    c.tag = format!("alloc wrap {}", k % nw);
    c.po = match r.below(3) {
        0 => 0,
        1 => 0b110000,
        _ => po_any(r),
    };
    c.src = if k < nu * nw {
        UNITS[(k / nw) as usize].to_string()
    } else {
        match r.below(4) {
            0 => format!("{}{}", r.pick(UNITS), r.pick(UNITS)),
            1 => {
                let w = gen::Wf { budget: 1 + r.below(5), ..gen::Wf::normal(r, &c.p()) };
                gen::well_formed(r, w)
            }
            2 => {
                let s = gen::hostile(r, &c.p());
                s.chars().take(40).collect()
            }
            _ => {
                let mut s = String::new();
                for _ in 0..3 {
                    s.push_str(r.pick(UNITS));
                }
                s
            }
        }
    };
    if r.chance(1, 40) && k >= nu * nw {
        c.tag = c.tag.replace("alloc", "time");
    }
    c
}
fn family(c: &Case, n: usize) -> (String, POpts) {
    let f: Vec<&str> = c.tag.split(' ').collect();
    let k: usize = f.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    if f.get(1) == Some(&"shape") {
        gen::shape(k, n / 8 + 1)
    } else {
        let w = WRAPS[k % WRAPS.len()];
        let u = if c.src.is_empty() { "x" } else { &c.src };
        // 1 more than a multiple of 12 at every size: a unit with an odd quote in
        // it then leaves the document in the same state at every size
        let reps = (n / u.chars().count() / 12).max(1) * 12 + 1;
        (format!("{}{}{}", w.0, u.repeat(reps), w.1), c.p())
    }
}
fn render_set() -> [ROpts; 3] {
    [ROpts::default(), ROpts::from_bits(0b1111_1111), ROpts { minify: true, decode: true, ..ROpts::default() }]
}
struct Cost {
    accepted: bool,
    parse: (u64, u64, u64), // bytes, calls, peak
    render: (u64, u64, u64),
}
fn cost(src: &str, o: &POpts) -> Cost {
    let measure = |f: &mut dyn FnMut()| {
        let a = alloc::now();
        alloc::reset_peak();
        f();
        let b = alloc::now();
        (b.total - a.total, b.calls - a.calls, (b.peak - a.live).max(0) as u64)
    };
    let mut doc = None;
    let parse = measure(&mut || doc = rparse(src, o).ok());
    let mut render = (0, 0, 0);
    if let Some(d) = &doc {
        for ro in render_set() {
            let x = measure(&mut || {
                let _ = d.render(&ro.real());
            });
            render = (render.0 + x.0, render.1 + x.1, render.2.max(x.2));
        }
    }
    Cost { accepted: doc.is_some(), parse, render }
}
fn times(src: &str, o: &POpts, reps: usize) -> (u64, u64) {
    let mut best = (u64::MAX, u64::MAX);
    for _ in 0..reps {
        let t = thread_cpu_ns();
        let d = rparse(src, o).ok();
        best.0 = best.0.min(thread_cpu_ns() - t);
        let t = thread_cpu_ns();
        if let Some(d) = &d {
            for ro in render_set() {
                let _ = d.render(&ro.real());
            }
        }
        best.1 = best.1.min(thread_cpu_ns() - t);
    }
    best
}
fn c25(c: &Case, ctx: &mut Ctx) -> Res<()> {
    // bounded depth only: does nesting grow with n?
    let depth = |n: usize| {
        let (s, o) = family(c, n);
        let v: Vec<char> = s.chars().collect();
        model::parse(&v, POpts { fix_unclosed: true, ..o }).0.map(|t| t.depth()).unwrap_or(0)
    };
    let unit = c.src.chars().count().max(8);
    if depth(unit * 36) > depth(unit * 12) {
        ctx.hit("skipped_deep");
        return Ok(());
    }
    if c.tag.starts_with("alloc") {
        let n = unit.max(250) * 12;
        let (a, o) = family(c, n);
        let (b, _) = family(c, n * 8);
        let _ = rparse("<a>", &o); // first use
        let x = cost(&a, &o);
        let y = cost(&b, &o);
        ctx.hit("alloc_families");
        ctx.add("bytes_observed", x.parse.0 + y.parse.0 + x.render.0 + y.render.0);
        if b.chars().count() >= 20_000 {
            ctx.nontrivial(c);
        }
        let slack = [64 * 1024, 400, 64 * 1024];
        if x.accepted != y.accepted {
            ctx.hit("accepted_at_one_size_only");
        }
        for (what, p, q) in [("parse", x.parse, y.parse), ("render", x.render, y.render)] {
            // nothing was rendered at the smaller size: nothing to compare with
            if what == "render" && !x.accepted {
                continue;
            }
            for (i, (k, u, v)) in [("bytes allocated", p.0, q.0), ("allocation calls", p.1, q.1), ("peak bytes", p.2, q.2)].iter().enumerate() {
                if *v > u * 20 + slack[i] {
                    return Err(format!("{}: {} grow from {} to {} ({:.1} times) when the input grows 8 times from {} to {} characters", what, k, u, v, *v as f64 / (*u).max(1) as f64, a.chars().count(), b.chars().count()));
                }
            }
        }
        return Ok(());
    }
    let n = (unit * 12).max(40_000);
    let (a, o) = family(c, n);
    let (b, _) = family(c, n * 16);
    let _ = times(&a[..0], &o, 1);
    let x = times(&a, &o, 3);
    let rendered = rparse(&a, &o).is_ok();
    // far off already at 4 times the size: no need to wait for 16 times
    let (m, _) = family(c, n * 4);
    let z = times(&m, &o, 1);
    for (what, p, q) in [("parse", x.0, z.0), ("render", x.1, z.1)] {
        if what == "render" && !rendered {
            continue;
        }
        let off = |p: u64, q: u64| q > 400_000_000 && q > p.max(20_000) * 11;
        if off(p, q) {
            ctx.hit("time_rechecked");
            let (xs, zs) = (times(&a, &o, 3), times(&m, &o, 2));
            let (p, q) = if what == "parse" { (xs.0, zs.0) } else { (xs.1, zs.1) };
            if off(p, q) {
                return Err(format!("{}: CPU time grows from {:.2} ms to {:.2} ms ({:.0} times) when the input grows 4 times from {} to {} characters", what, p as f64 / 1e6, q as f64 / 1e6, q as f64 / p.max(1) as f64, a.chars().count(), m.chars().count()));
            }
        }
    }
    let y = times(&b, &o, 1);
    ctx.hit("timed_families");
    ctx.add("chars_timed", (a.len() + b.len()) as u64);
    ctx.nontrivial(c);
    let bad = |x: u64, y: u64| y > 50_000_000 && y > x.max(20_000) * 56;
    for (i, what) in ["parse", "render"].iter().enumerate() {
        let (p, q) = if i == 0 { (x.0, y.0) } else { (x.1, y.1) };
        if i == 1 && !rendered {
            continue;
        }
        if bad(p, q) {
            ctx.hit("time_rechecked");
            let (xs, ys) = (times(&a, &o, 6), times(&b, &o, 3));
            let (p, q) = if i == 0 { (xs.0, ys.0) } else { (xs.1, ys.1) };
            if bad(p, q) {
                return Err(format!("{}: CPU time grows from {:.2} ms to {:.2} ms ({:.0} times) when the input grows 16 times from {} to {} characters", what, p as f64 / 1e6, q as f64 / 1e6, q as f64 / p.max(1) as f64, a.chars().count(), b.chars().count()));
            }
        }
    }
    let _ = Mode::Outer;
    Ok(())
}

// ------------------------------------------------------------------ subprocess entry points

pub fn sub(a: &[String]) -> i32 {
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    match s(0) {
        "deep" => sub_deep(s(1), s(2).parse().unwrap_or(1)),
        "relfile" => sub_relfile(),
        "digest" => sub_digest(s(1).parse().unwrap_or(1), s(2), s(3).parse().unwrap_or(10)),
        _ => 2,
    }
}

// ------------------------------------------------------------------ workload for the sanitizers

pub fn mini_histories(n: u64, seed: u64) -> i32 {
    let fixed = [
        ("<!DOCTYPE html><html><head><title>a&b</title></head><body id=a class='x y'><p>x<br>y</p><!-- c --></body></html>", 0u32),
        ("<svg><g id=1><![CDATA[<]]></g><r/></svg><pre> a <b>c</b></pre>", 0),
        ("a < b </x><p>q<i a=\"b", 0b111000),
        ("<script>if (a<b) {}</script ><textarea></textarea>é😀&amp;&#60;", 0),
        ("<a><b></a>", 0),
        ("<a b='c", 0),
    ];
    let mut seen = 0;
    let mut nodes = 0;
    for i in 0..n {
        let mut r = Rng::from_parts(&[seed, 602, i]);
        let (src, po) = if (i as usize) < fixed.len() {
            (fixed[i as usize].0.to_string(), fixed[i as usize].1)
        } else {
            let po = po_any(&mut r);
            let s = gen::hostile(&mut r, &POpts::from_bits(po));
            (if cfg!(miri) { s.chars().take(160).collect() } else { s }, po)
        };
        let ro = ro_any(&mut r);
        match history(&src, po, ro, r.u64() >> 16) {
            Ok(s) => nodes += s.nodes,
            Err(e) => {
                println!("REPORT {} on {:?}", e, clip(&src));
                return 1;
            }
        }
        if let Ok(d) = rparse(&src, &POpts::from_bits(po)) {
            let c = Case::new(src.clone(), po, ro, i);
            exercise(&d, &c, cfg!(miri) && i % 3 != 0);
        }
        let _ = digest(&src, po, ro);
        let c = Case::new(src, po & 0b111, ro, i);
        if i % 2 == 0 {
            // edits through the public fields
            if let Err(e) = super::edit::run(&c) {
                println!("REPORT {} on {}", e, c.show());
                return 1;
            }
        }
        seen += 1;
    }
    println!("NODES {}", nodes);
    println!("OBSERVED {}", seen);
    0
}

/// several threads whose first use of the library coincides
pub fn mini_threads(seed: u64) -> i32 {
    let docs: Vec<(&str, u32, u32)> = vec![("<br><IMG a='b c'/>&amp;", 0, 255), ("<svg><g/></svg><pre> x</pre>", 0, 1), ("a < b</x><title>t", 0b111000, 64), ("<title>&lt;</title><A></a>", 0, 128)];
    let b = Arc::new(Barrier::new(3));
    let mut hs = vec![];
    for t in 0..3usize {
        let b = b.clone();
        let docs = docs.clone();
        hs.push(std::thread::spawn(move || {
            b.wait();
            let k = (t * seed as usize) % docs.len();
            (0..docs.len()).map(|i| docs[(i + k) % docs.len()]).map(|(s, p, r)| (s, digest(s, p, r))).collect::<Vec<_>>()
        }));
    }
    let mut all: std::collections::BTreeMap<&str, u64> = Default::default();
    for h in hs {
        let Ok(v) = h.join() else {
            println!("REPORT a thread panicked");
            return 1;
        };
        for (s, d) in v {
            if *all.entry(s).or_insert(d) != d {
                println!("REPORT threads disagree on {:?}", s);
                return 1;
            }
        }
    }
    println!("OBSERVED 1");
    0
}
