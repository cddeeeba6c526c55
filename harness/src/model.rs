//! Independent executable model of the markup language the library documents and its tests describe:
//! an index-scanning recogniser (the library is a char-fed state machine), and a serialiser.
use crate::snap::*;
use rphtml::config::{ParseOptions, RenderOptions};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct POpts {
    pub cs: bool,
    pub eq: bool,
    pub sc: bool,
    pub fix_unclosed: bool,
    pub fix_endtag: bool,
    pub fix_lt: bool,
}
impl POpts {
    pub fn from_bits(b: u32) -> POpts {
        POpts {
            cs: b & 1 != 0,
            eq: b & 2 != 0,
            sc: b & 4 != 0,
            fix_unclosed: b & 8 != 0,
            fix_endtag: b & 16 != 0,
            fix_lt: b & 32 != 0,
        }
    }
    pub fn bits(&self) -> u32 {
        self.cs as u32 | (self.eq as u32) << 1 | (self.sc as u32) << 2 | (self.fix_unclosed as u32) << 3 | (self.fix_endtag as u32) << 4 | (self.fix_lt as u32) << 5
    }
    pub fn strict(&self) -> POpts {
        POpts { fix_unclosed: false, fix_endtag: false, fix_lt: false, ..*self }
    }
    pub fn is_strict(&self) -> bool {
        !self.fix_unclosed && !self.fix_endtag && !self.fix_lt
    }
    pub fn real(&self) -> ParseOptions {
        // on top of the defaults, as users write them: the defaults must be "off"
        let mut o = ParseOptions::default();
        o.case_sensitive_tagname |= self.cs;
        o.allow_attr_key_starts_with_equal_sign |= self.eq;
        o.allow_self_closing |= self.sc;
        o.auto_fix_unclosed_tag |= self.fix_unclosed;
        o.auto_fix_unexpected_endtag |= self.fix_endtag;
        o.auto_fix_unescaped_lt |= self.fix_lt;
        o
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct ROpts {
    pub minify: bool,
    pub lower: bool,
    pub endspace: bool,
    pub noquote: bool,
    pub nocomment: bool,
    pub closevoid: bool,
    pub inner: bool,
    pub decode: bool,
    pub encode: bool,
}
impl ROpts {
    pub fn from_bits(b: u32) -> ROpts {
        ROpts {
            minify: b & 1 != 0,
            lower: b & 2 != 0,
            endspace: b & 4 != 0,
            noquote: b & 8 != 0,
            nocomment: b & 16 != 0,
            closevoid: b & 32 != 0,
            decode: b & 64 != 0,
            encode: b & 128 != 0,
            inner: b & 256 != 0,
        }
    }
    pub fn bits(&self) -> u32 {
        self.minify as u32
            | (self.lower as u32) << 1
            | (self.endspace as u32) << 2
            | (self.noquote as u32) << 3
            | (self.nocomment as u32) << 4
            | (self.closevoid as u32) << 5
            | (self.decode as u32) << 6
            | (self.encode as u32) << 7
            | (self.inner as u32) << 8
    }
    pub fn real(&self) -> RenderOptions {
        let mut o = RenderOptions::default();
        o.minify_spaces |= self.minify;
        o.lowercase_tagname |= self.lower;
        o.remove_endtag_space |= self.endspace;
        o.remove_attr_quote |= self.noquote;
        o.remove_comment |= self.nocomment;
        o.always_close_void |= self.closevoid;
        o.inner_html |= self.inner;
        o.decode_entity |= self.decode;
        o.encode_content |= self.encode;
        o
    }
}

pub const VOIDS: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
pub const RAWS: [&str; 4] = ["script", "style", "textarea", "title"];

/// A rejection: what was wrong and between which source indices the offending construct lies.
#[derive(Clone, Debug, PartialEq)]
pub struct Reject {
    pub why: &'static str,
    pub lo: usize,
    pub hi: usize,
    pub name: String, // the name or character the error is about, where there is one
}

/// Facts the model noticed about the input while scanning (used for coverage and domain limits).
#[derive(Clone, Debug, Default)]
pub struct Notes {
    pub dropped_endtags: usize,
    pub escaped_lts: usize,
    pub closed_at_eof: usize,
    pub eq_keys: usize,
    pub raw: usize,
    pub special: usize,
}

pub fn ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0c'
}
pub fn lc(s: &str) -> String {
    s.chars().map(|c| if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c }).collect()
}
pub fn same_name_ci(a: &str, b: &str) -> bool {
    lc(a) == lc(b)
}
fn rtrim(s: &str) -> &str {
    s.trim_end_matches(ws)
}
pub fn is_void(n: &str) -> bool {
    VOIDS.contains(&lc(n).as_str())
}
pub fn is_raw(n: &str) -> bool {
    RAWS.contains(&lc(n).as_str())
}
pub fn is_special(n: &str) -> bool {
    let l = lc(n);
    l == "svg" || l == "math"
}

pub fn lookup_of(attrs: &[SAttr]) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![];
    for (i, a) in attrs.iter().enumerate() {
        if let Some(k) = &a.key {
            let k = lc(k);
            if !v.iter().any(|(x, _)| *x == k) {
                v.push((k, i));
            }
        }
    }
    v.sort();
    v
}

struct P<'a> {
    s: &'a [char],
    o: POpts,
    notes: Notes,
    stack: Vec<Snap>, // [root, open elements...]
}

enum AttrEnd {
    Closed { at: usize, slash: bool },
    Eof,
}

pub fn parse(src: &[char], o: POpts) -> (Result<Snap, Reject>, Notes) {
    let mut p = P { s: src, o, notes: Notes::default(), stack: vec![Snap::new(Kind::Root, 0)] };
    let r = p.document();
    let notes = p.notes.clone();
    (r.map(|_| {
        let mut root = p.stack.pop().unwrap();
        root.end = src.len();
        root
    }), notes)
}

impl<'a> P<'a> {
    fn str(&self, a: usize, b: usize) -> String {
        self.s[a..b].iter().collect()
    }
    fn rej<T>(&self, why: &'static str, lo: usize, hi: usize) -> Result<T, Reject> {
        Err(Reject { why, lo, hi, name: String::new() })
    }
    fn rej_name<T>(&self, why: &'static str, lo: usize, hi: usize, name: &str) -> Result<T, Reject> {
        Err(Reject { why, lo, hi, name: name.to_string() })
    }
    fn innermost_name(&self) -> String {
        self.stack.last().unwrap().name.clone()
    }
    fn add(&mut self, mut n: Snap) {
        let top = self.stack.last_mut().unwrap();
        n.index = top.childs.len();
        top.childs.push(n);
    }
    /// a whitespace-only text directly before `what comes next` is spaces between tags
    fn settle_spaces(&mut self, sole_child_stays: bool) {
        let top = self.stack.last_mut().unwrap();
        if sole_child_stays && top.childs.len() == 1 {
            return;
        }
        if let Some(last) = top.childs.last_mut() {
            if last.kind == Kind::Text && last.content.as_ref().unwrap().chars().all(ws) {
                last.kind = Kind::Spaces;
            }
        }
    }
    fn innermost_begin(&self) -> usize {
        self.stack.last().unwrap().begin
    }
    /// end of input reached inside a construct that cannot be repaired
    fn eof_in<T>(&self, why: &'static str, at: usize) -> Result<T, Reject> {
        if self.stack.len() > 1 && !self.o.fix_unclosed {
            let b = self.innermost_begin();
            return self.rej_name("unclosed element", b, b, &self.innermost_name());
        }
        self.rej(why, at, at)
    }
    fn in_special(&self) -> bool {
        self.stack[1..].iter().any(|e| is_special(&e.name))
    }

    fn document(&mut self) -> Result<(), Reject> {
        let n = self.s.len();
        let mut i = 0;
        let mut text: Option<(usize, String)> = None; // begin, collected
        loop {
            if i >= n || self.s[i] == '<' {
                // does this '<' start markup?
                if i < n {
                    let c = self.s.get(i + 1).copied();
                    let markup = match c {
                        Some(c) => c.is_ascii_alphabetic() || c == '/' || c == '!',
                        None => false,
                    };
                    if !markup {
                        match c {
                            None => return self.eof_in("input ends after '<'", i),
                            Some(c) if !self.o.fix_lt => return self.rej_name("'<' that starts no markup", i, i + 1, &c.to_string()),
                            Some(_) => {
                                self.notes.escaped_lts += 1;
                                let t = text.get_or_insert((i, String::new()));
                                t.1.push_str("&lt;");
                                i += 1;
                                // the character after it is plain text, unless it is itself a '<'
                                if self.s[i] != '<' {
                                    t.1.push(self.s[i]);
                                    i += 1;
                                }
                                continue;
                            }
                        }
                    }
                }
                if let Some((b, t)) = text.take() {
                    let mut node = Snap::new(Kind::Text, b);
                    node.end = i;
                    node.content = Some(t);
                    self.add(node);
                }
                if i >= n {
                    self.settle_spaces(false);
                    break;
                }
                i = match self.s[i + 1] {
                    '/' => self.end_tag(i)?,
                    '!' => self.declaration(i)?,
                    _ => self.start_tag(i)?,
                };
            } else {
                let t = text.get_or_insert((i, String::new()));
                t.1.push(self.s[i]);
                i += 1;
            }
        }
        // end of input
        if self.stack.len() > 1 {
            if !self.o.fix_unclosed {
                let b = self.innermost_begin();
                return self.rej_name("unclosed element", b, b, &self.innermost_name());
            }
            while self.stack.len() > 1 {
                let mut e = self.stack.pop().unwrap();
                self.notes.closed_at_eof += 1;
                if !e.is_void {
                    e.end_tag = Some(SEnd { content: e.name.clone(), begin: n, end: n });
                }
                self.add(e);
            }
        }
        Ok(())
    }

    fn end_tag(&mut self, at: usize) -> Result<usize, Reject> {
        let n = self.s.len();
        let mut j = at + 2;
        while j < n && self.s[j] != '>' {
            j += 1;
        }
        if j >= n {
            return self.eof_in("input ends in an end tag", at);
        }
        let content = self.str(at + 2, j);
        let name = rtrim(&content).to_string();
        if self.stack.len() > 1 && same_name_ci(&self.stack.last().unwrap().name, &name) {
            if self.o.cs && self.stack.last().unwrap().name != name {
                return self.rej_name("end tag in other letter case", at, j, &name);
            }
            self.settle_spaces(true);
            let mut e = self.stack.pop().unwrap();
            e.end_tag = Some(SEnd { content, begin: at, end: j + 1 });
            self.add(e);
        } else {
            if !self.o.fix_endtag {
                return self.rej_name("unexpected end tag", at, j, &name);
            }
            self.notes.dropped_endtags += 1;
        }
        Ok(j + 1)
    }

    fn start_tag(&mut self, at: usize) -> Result<usize, Reject> {
        let n = self.s.len();
        self.settle_spaces(false);
        let mut j = at + 1;
        while j < n && self.s[j] != '>' && self.s[j] != '/' && !ws(self.s[j]) {
            j += 1;
        }
        let mut e = Snap::new(Kind::Tag, at);
        e.name = self.str(at + 1, j);
        e.is_void = is_void(&e.name);
        let special = self.in_special();
        let end = match self.attributes(&mut e, j, false) {
            Ok(x) => x,
            Err(r) => return Err(r),
        };
        match end {
            AttrEnd::Eof => {
                if !self.o.fix_unclosed {
                    return self.rej_name("unclosed element", at, at, &e.name);
                }
                self.stack.push(e); // closed by the caller at end of input
                Ok(n)
            }
            AttrEnd::Closed { at: gt, slash } => {
                if slash {
                    if !(self.o.sc || e.is_void || special) {
                        return self.rej_name("self-closing not allowed", at, gt, &e.name);
                    }
                    e.self_closed = true;
                    self.add(e);
                    return Ok(gt + 1);
                }
                if e.is_void {
                    self.add(e);
                    return Ok(gt + 1);
                }
                if is_raw(&e.name) {
                    self.notes.raw += 1;
                    return self.raw(e, gt + 1);
                }
                if is_special(&e.name) {
                    self.notes.special += 1;
                }
                self.stack.push(e);
                Ok(gt + 1)
            }
        }
    }

    fn raw(&mut self, mut e: Snap, from: usize) -> Result<usize, Reject> {
        let n = self.s.len();
        let name: Vec<char> = e.name.chars().collect();
        let begin = e.begin;
        // candidates: every "</name" followed by optional whitespace and '>'
        let mut i = from;
        while i < n {
            if self.s[i] == '<' && i + 1 < n && self.s[i + 1] == '/' && i + 2 + name.len() < n {
                let cand = &self.s[i + 2..i + 2 + name.len()];
                let ok = cand.iter().zip(&name).all(|(a, b)| a == b || (!self.o.cs && a.eq_ignore_ascii_case(b)));
                if ok {
                    let mut k = i + 2 + name.len();
                    while k < n && ws(self.s[k]) {
                        k += 1;
                    }
                    if k < n && self.s[k] == '>' {
                        e.content = Some(self.str(from, i));
                        e.end_tag = Some(SEnd { content: self.str(i + 2, k), begin: i, end: k + 1 });
                        self.add(e);
                        return Ok(k + 1);
                    }
                }
            }
            i += 1;
        }
        if !self.o.fix_unclosed {
            return self.rej_name("unclosed element", begin, begin, &e.name);
        }
        self.rej("input ends in raw text", begin, begin)
    }

    fn attributes(&mut self, e: &mut Snap, from: usize, doctype: bool) -> Result<AttrEnd, Reject> {
        let n = self.s.len();
        let mut j = from;
        let mut slash = false;
        let mut may_assign = false; // a key was just read and a '=' would belong to it
        let r = loop {
            // skip separators
            if j >= n {
                break AttrEnd::Eof;
            }
            let c = self.s[j];
            if ws(c) {
                j += 1;
                continue;
            }
            if c == '>' {
                break AttrEnd::Closed { at: j, slash };
            }
            if c == '/' {
                slash = true;
                j += 1;
                continue;
            }
            slash = false;
            if c == '=' && may_assign {
                // the value of the last key
                may_assign = false;
                j += 1;
                while j < n && ws(self.s[j]) {
                    j += 1;
                }
                if j >= n {
                    break AttrEnd::Eof;
                }
                let q = self.s[j];
                if q == '>' {
                    continue;
                }
                let (val, quote, next) = self.value(j);
                let a = e.attrs.last_mut().unwrap();
                a.value = Some(val);
                a.quote = quote;
                j = next;
                continue;
            }
            if c == '=' && !self.o.eq {
                return self.rej("attribute name starts with '='", j, j);
            }
            if (c == '"' || c == '\'') && doctype {
                let (val, quote, next) = self.value(j);
                e.attrs.push(SAttr { key: None, value: Some(val), quote });
                may_assign = false;
                j = next;
                continue;
            }
            // a key: its first character whatever it is, then up to a delimiter
            let b = j;
            if c == '=' {
                self.notes.eq_keys += 1;
            }
            j += 1;
            while j < n && !ws(self.s[j]) && !matches!(self.s[j], '=' | '>' | '/') {
                j += 1;
            }
            let key = self.str(b, j);
            e.attrs.push(SAttr { key: Some(key), value: None, quote: None });
            may_assign = !(j < n && self.s[j] == '/');
        };
        e.lcmap = lookup_of(&e.attrs);
        Ok(r)
    }

    /// a value starting at j (quoted or not): text, quote, index after it
    fn value(&self, j: usize) -> (String, Option<char>, usize) {
        let n = self.s.len();
        let q = self.s[j];
        if q == '"' || q == '\'' {
            let mut k = j + 1;
            while k < n && self.s[k] != q {
                k += 1;
            }
            let v = self.str(j + 1, k);
            (v, Some(q), if k < n { k + 1 } else { n })
        } else {
            let mut k = j;
            while k < n && !ws(self.s[k]) && self.s[k] != '>' {
                k += 1;
            }
            (self.str(j, k), None, k)
        }
    }

    fn keyword(&self, at: usize, word: &str) -> Result<usize, usize> {
        // Ok(index after) or Err(index of the first mismatch / end of input)
        let mut k = at;
        for w in word.chars() {
            match self.s.get(k) {
                Some(c) if c.eq_ignore_ascii_case(&w) => k += 1,
                _ => return Err(k),
            }
        }
        Ok(k)
    }

    fn declaration(&mut self, at: usize) -> Result<usize, Reject> {
        let n = self.s.len();
        let c = match self.s.get(at + 2) {
            None => return self.eof_in("input ends after '<!'", at),
            Some(c) => *c,
        };
        let word = match c {
            '-' => "--",
            'd' | 'D' => "doctype",
            '[' => {
                match self.stack.iter().skip(1).position(|e| is_special(&e.name)) {
                    None => return self.rej("CDATA outside svg/math", at, at + 2),
                    Some(k) if k + 2 == self.stack.len() => return self.rej("CDATA directly in svg/math", at, at + 2),
                    Some(_) => {}
                }
                "[cdata["
            }
            _ => return self.rej("unknown declaration", at, at + 2),
        };
        let after = match self.keyword(at + 2, word) {
            Ok(k) => k,
            Err(k) if k >= n => return self.eof_in("input ends in a declaration", at),
            Err(k) => return self.rej("unknown declaration", at, k),
        };
        match c {
            'd' | 'D' => {
                self.settle_spaces(false);
                match self.s.get(after) {
                    None => return self.eof_in("input ends in a doctype", at),
                    Some(c) if ws(*c) => {}
                    Some(_) => return self.rej("malformed doctype", at, after),
                }
                let mut d = Snap::new(Kind::Doctype, at);
                d.name = self.str(at + 2, after);
                match self.attributes(&mut d, after, true)? {
                    AttrEnd::Eof => self.eof_in("input ends in a doctype", at),
                    AttrEnd::Closed { at: gt, .. } => {
                        self.add(d);
                        Ok(gt + 1)
                    }
                }
            }
            _ => {
                self.settle_spaces(false);
                let close = if c == '-' { '-' } else { ']' };
                let mut k = after;
                while k + 2 < n && !(self.s[k] == close && self.s[k + 1] == close && self.s[k + 2] == '>') {
                    k += 1;
                }
                if k + 2 >= n {
                    return self.eof_in("input ends in a comment or CDATA", at);
                }
                let mut d = Snap::new(if c == '-' { Kind::Comment } else { Kind::Cdata }, at);
                d.content = Some(self.str(after, k));
                d.end = k + 3;
                self.add(d);
                Ok(k + 3)
            }
        }
    }
}

// ---------------------------------------------------------------- serialiser

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Outer,
    Inner,
    Text,
}

pub fn collapse(t: &str) -> String {
    let mut out = String::new();
    let mut prev = false;
    for c in t.chars() {
        let w = ws(c);
        if !(w && prev) {
            out.push(c);
        }
        prev = w;
    }
    out
}

/// Decode character references: '&' up to the next ';' (a further '&' restarts).
pub fn decode(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(a) = rest.find('&') {
        out.push_str(&rest[..a]);
        rest = &rest[a..];
        let stop = rest[1..].find(|c| c == ';' || c == '&').map(|x| x + 1);
        match stop {
            Some(k) if rest.as_bytes()[k] == b';' => {
                let body = &rest[1..k];
                match decode_one(body) {
                    Some(c) => out.push(c),
                    None => out.push_str(&rest[..k + 1]),
                }
                rest = &rest[k + 1..];
            }
            Some(k) => {
                out.push_str(&rest[..k]);
                rest = &rest[k..];
            }
            None => {
                out.push_str(rest);
                rest = "";
            }
        }
    }
    out.push_str(rest);
    out
}

/// The named references the workloads use; anything else named falls back on the entity table crate.
pub fn decode_one(body: &str) -> Option<char> {
    if body.is_empty() || !body.is_ascii() {
        return None;
    }
    match body {
        "lt" => return Some('<'),
        "gt" => return Some('>'),
        "amp" => return Some('&'),
        "quot" => return Some('"'),
        "apos" => return Some('\''),
        "nbsp" => return Some('\u{a0}'),
        "copy" => return Some('\u{a9}'),
        "eacute" => return Some('\u{e9}'),
        "hellip" => return Some('\u{2026}'),
        _ => {}
    }
    rphtml::entity::Entity::decode(body.as_bytes()).ok()
}

pub fn encode(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            c => o.push(c),
        }
    }
    o
}

pub fn needs_quote(a: &SAttr) -> bool {
    let v = a.value.as_deref().unwrap_or("");
    a.key.is_none() || v.is_empty() || v.chars().any(|c| ws(c) || "\"'<>=`".contains(c))
}

pub fn attr_text(a: &SAttr, noquote: bool) -> String {
    let mut s = String::new();
    if let Some(k) = &a.key {
        s.push_str(k);
    }
    if let Some(v) = &a.value {
        if a.key.is_some() {
            s.push('=');
        }
        match a.quote {
            Some(q) if !noquote || needs_quote(a) => {
                s.push(q);
                s.push_str(v);
                s.push(q);
            }
            _ => s.push_str(v),
        }
    }
    s
}

pub fn start_tag_text(s: &Snap, o: &ROpts) -> String {
    let mut t = String::from("<");
    t.push_str(&if o.lower { lc(&s.name) } else { s.name.clone() });
    for a in &s.attrs {
        t.push(' ');
        t.push_str(&attr_text(a, o.noquote));
    }
    if s.self_closed || (s.is_void && o.closevoid) {
        t.push_str(" /");
    }
    t.push('>');
    t
}

fn render_into(s: &Snap, o: &ROpts, mode: Mode, top: bool, pre: bool, out: &mut String) {
    let tags = match mode {
        Mode::Outer => true,
        Mode::Inner => !top,
        Mode::Text => false,
    };
    match s.kind {
        Kind::Text => {
            let c = s.content.as_deref().unwrap_or("");
            let c = if o.minify && !pre { collapse(c) } else { c.to_string() };
            out.push_str(&if o.decode { decode(&c) } else { c });
        }
        Kind::Spaces => {
            if !o.minify || pre {
                out.push_str(s.content.as_deref().unwrap_or(""));
            }
        }
        Kind::Comment => {
            if !o.nocomment {
                match mode {
                    Mode::Text => {
                        if top {
                            out.push_str(s.content.as_deref().unwrap_or(""));
                        }
                    }
                    _ => {
                        out.push_str("<!--");
                        out.push_str(s.content.as_deref().unwrap_or(""));
                        out.push_str("-->");
                    }
                }
            }
        }
        Kind::Cdata => {
            out.push_str("<![CDATA[");
            out.push_str(s.content.as_deref().unwrap_or(""));
            out.push_str("]]>");
        }
        Kind::Doctype => {
            out.push_str("<!");
            out.push_str(&s.name);
            for a in &s.attrs {
                out.push(' ');
                out.push_str(&attr_text(a, o.noquote));
            }
            if s.attrs.is_empty() {
                out.push(' ');
            }
            out.push('>');
        }
        Kind::Tag => {
            if tags {
                out.push_str(&start_tag_text(s, o));
            }
            if let Some(c) = &s.content {
                let l = lc(&s.name);
                if o.encode && (l == "title" || l == "textarea") {
                    out.push_str(&encode(c));
                } else {
                    out.push_str(c);
                }
            }
        }
        Kind::Root | Kind::TagEnd => {}
    }
    let pre = pre || (s.kind == Kind::Tag && lc(&s.name) == "pre");
    for c in &s.childs {
        render_into(c, o, mode, false, pre, out);
    }
    if let Some(e) = &s.end_tag {
        if tags {
            let c = if o.endspace { rtrim(&e.content) } else { &e.content };
            out.push_str("</");
            out.push_str(&if o.lower { lc(c) } else { c.to_string() });
            out.push('>');
        }
    }
}

pub fn render(s: &Snap, o: &ROpts, mode: Mode) -> String {
    let mut out = String::new();
    render_into(s, o, mode, true, false, &mut out);
    out
}
