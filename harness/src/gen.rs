//! Workload generators: well-formed documents with a known shape, token and character soups,
//! mutations, exhaustive short token sequences, size spikes.
use crate::model::*;
use crate::rng::Rng;
use std::sync::OnceLock;

pub const SPACES: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\r", "\x0c", " \n ", "\n\n\t  ", "   ", "\n\n\t\t  \r\r\n\x0c \t  \n", " \t                                                                      "];

/// characters that look like something the parser treats specially, but are not
pub const ODD: &[char] = &[
    '\u{a0}', '\u{85}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{0b}', '\u{1c}', '\u{200b}', '\0', '\u{1}', '\u{7f}', 'é', 'ß', '中', '文', '😀', '\u{301}', '\u{212a}', '\u{17f}', 'İ',
    'ı', '\u{fffd}', '\u{10ffff}', '＜', '＞', '“', '”', '‐', 'Ａ',
];

pub const TEXT_WORDS: &[&str] = &[
    "a", "b", "text", "hello world", "x  y", "  lead", "trail  ", "a\n\n  b", "1 > 0", "--", "-->", "]]>", "\"", "'", "=", "/", "/>", ">", "!", "!--", "é中😀", "\u{a0}", "\u{2003}\u{2003}", "&", "&amp;", "&lt;", "&gt;", "&quot;",
    "&apos;", "&nbsp;", "&copy;", "&eacute;", "&hellip;", "&#60;", "&#x3c;", "&#X3E;", "&#x1F600;", "&#0;", "&#xD800;", "&#99999999;", "&;", "&#;", "&#x;", "&nosuch;", "&lt", "& lt;", "&a&gt;", "&amp;lt;", "&é;", ";", "#", "0",
    "\t", "\r\n", "\r", "\x0c", "a \t b", "K", "\u{212a}", "\u{17f}", "pre", "script", "&#32;", "&#32;&#32;", " &gt; ", "  &gt;  ", "& b   c;", "&  x", "&#10;&#10;", "&NewLine;&#10;", "&#9;&Tab;", "&#13;", " &#32; ", "&#xA;", "&#x20;&#x20;a",
];

pub const NAMES: &[&str] = &[
    "div", "p", "span", "a", "ul", "li", "b", "i", "em", "table", "tr", "td", "h1", "DIV", "Span", "P", "x-y", "Form", "Form.Item", "ns:tag", "t1", "A", "body", "html", "head", "HTML", "section", "abc", "button", "form",
];
/// names that are close to special ones but are ordinary elements
pub const NEAR: &[&str] = &[
    "brr", "b", "br-x", "colgroup", "cols", "hrx", "imgs", "image", "inputs", "links", "lin\u{212a}", "metas", "met", "basefont", "param2", "sourc", "sources", "areas", "are", "embedd", "tracks", "trac\u{212a}", "wbrx", "wb", "prefix", "pr", "pre2",
    "scripts", "scrip", "\u{17f}cript", "s\u{212a}ript", "styles", "sty", "\u{17f}tyle", "titles", "titl", "textareas", "text", "svgs", "sv", "maths", "mat", "\u{17f}vg", "command", "keygen", "frame", "isindex", "menuitem", "noscript", "xmp", "plaintext", "iframe", "htm", "htmls", "bgsound", "nextid", "spacer", "foreignObject", "foreignobject", "desc", "annotation-xml", "mtext", "mglyph", "noframes", "noembed", "template", "object", "video", "audio", "picture", "canvas", "option", "listing", "select", "colgroup2", "applet", "tt", "code", "dl", "dt", "dd", "tbody", "image", "multicol", "use", "path", "rect", "mi", "g",
];
pub const WEIRD_NAMES: &[&str] = &["a<", "abc<<", "q\"", "n'", "e=", "é", "aé中", "a!b", "a\u{a0}b", "z\0", "a--", "b]]", "a&amp;b", "x\u{2003}y", "c😀"];

pub const KEYS: &[&str] = &[
    "id", "ID", "Id", "iD", "class", "href", "src", "data-x", "data-X", "a", "b", "A", "title", "style", "checked", "xml:lang", "@click", ":is", "v-on:x.y", "#ref", "[p]", "(e)", "on\u{212a}ey", "é", "中", "\"q\"", "'", "\"", "k\"v", "x<y", "<", "i\u{a0}d", "idx", "i", "d", "name", "value",
    "a&b", "`", "\\", "-", "--", "!", "ıd",
];
pub const VALS: &[&str] = &[
    "", "1", "x", "a b", "  ", " x ", "60*60", "http://s.com/a.jpg?x=1&y=2", "/", "/p/q", "//h/x", "x/", "x/y/", "<b>", ">", "<", "a>b", "=", "==", "a=b", "`", "é中😀", "&quot;", "&amp;", "\\", "A\\B\\", "\n", "a\tb", "\u{a0}", "-->", "]]>", "</div>", "</script>", "main", "MAIN", "k\u{212a}", "0", "-", "--", "\0", "x y z",
    "{{ x }}", "a;b", "#", "/>", "/ >", "{", "[1]", "a,b", "$", "x\u{2003}y",
];

pub const SPECIAL_NAMES: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "script", "style", "title", "textarea", "svg", "math", "pre", "html",
];
/// a character close to another one: other case bit, neighbour, wide form, foreign look-alike
pub fn near_char(r: &mut Rng, c: char) -> char {
    let u = c as u32;
    let v = match r.below(7) {
        0 | 1 => u ^ 0x20,
        2 => u + 1,
        3 => u.wrapping_sub(1),
        4 => {
            return match c.to_ascii_lowercase() {
                'k' => '\u{212a}',
                's' => '\u{17f}',
                'i' => 'ı',
                '-' => '\u{2010}',
                '<' => '＜',
                '>' => '＞',
                ' ' => '\u{a0}',
                c => char::from_u32(0xFF00 + (c as u32 & 0x7f).wrapping_sub(0x20) % 0x5f).unwrap_or('\u{fffd}'),
            }
        }
        5 => u + [0x100, 0x10000, 0x200][r.below(3)],
        _ => u | 0x80,
    };
    char::from_u32(v).unwrap_or('\u{fffd}')
}
/// one of the special names with one thing changed; begins with a letter and is never a special name itself
pub fn near_name(r: &mut Rng) -> String {
    loop {
        let b = r.pick(SPECIAL_NAMES);
        let mut v: Vec<char> = case_mix(r, b).chars().collect();
        let k = r.below(v.len());
        match r.below(6) {
            0 => {
                let c = r.ch(&['a', 's', 'x', '0', '1', ':', '-', '_', '.', '\0', 'é', '\u{a0}', '!', '?', '@', '<', '"', '=']);
                v.push(c);
            }
            1 => {
                let c = r.ch(&['a', 'x', 'b', 's', 'e']);
                v.insert(0, c);
            }
            2 => {
                v.remove(k);
            }
            3 => {
                let c = v[k];
                v.insert(k, c);
            }
            4 => {
                v[k] = near_char(r, v[k]);
            }
            _ => {
                let o = r.pick(SPECIAL_NAMES);
                v.push(r.ch(&[':', '-', '.', '_']));
                v.extend(o.chars());
            }
        }
        let s: String = v.into_iter().filter(|c| !ws(*c) && !matches!(c, '>' | '/')).collect();
        if s.starts_with(|c: char| c.is_ascii_alphabetic()) && !SPECIAL_NAMES.contains(&lc(&s).as_str()) {
            return s;
        }
    }
}

pub fn weird_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => r.ch(ODD),
        1 => char::from_u32(r.below(0x250) as u32).unwrap_or('?'),
        2 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        _ => r.ch(&['<', '>', '/', '!', '-', '=', '"', '\'', ' ', '\n', '\t', '\r', 'a', 'b', 'A', 'd', 'D', '[', ']', '&', ';', '1', '`', '\x0c', '#', 'x']),
    }
}

pub fn case_mix(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

pub fn text(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 => s.push_str(r.pick(SPACES)),
            1 => s.push(loop {
                let c = weird_char(r);
                if c != '<' {
                    break c;
                }
            }),
            _ => s.push_str(r.pick(TEXT_WORDS)),
        }
    }
    s
}

pub fn ident(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    for i in 0..len {
        s.push(if i == 0 || r.chance(4, 5) { (b'a' + r.below(26) as u8) as char } else { r.ch(&['0', '-', '_', '.', ':', 'Z', 'é']) });
    }
    s
}

/// Settings of the well-formed generator.
#[derive(Clone, Copy)]
pub struct Wf {
    pub canonical: bool,  // spell every tag exactly as the default rendering does
    pub budget: usize,    // number of nodes
    pub depth: usize,     // maximal nesting
    pub cs: bool,         // end tags must repeat the exact spelling
    pub eq: bool,         // may use '=' keys
    pub sc: bool,         // may self-close anything
    pub doctype: bool,
    pub spiky: bool,      // occasionally very large lists / texts
}
impl Wf {
    pub fn normal(r: &mut Rng, o: &POpts) -> Wf {
        Wf { canonical: false, budget: 1 + r.below(14), depth: 1 + r.below(7), cs: o.cs, eq: o.eq, sc: o.sc, doctype: true, spiky: false }
    }
}

pub struct WfGen<'a> {
    pub r: &'a mut Rng,
    pub w: Wf,
    pub out: String,
    left: usize,
}

pub fn well_formed(r: &mut Rng, w: Wf) -> String {
    let left = w.budget;
    let mut g = WfGen { r, w, out: String::new(), left };
    while g.left > 0 {
        g.node(0, false, "");
    }
    g.out
}

impl<'a> WfGen<'a> {
    fn sp(&mut self) -> &'static str {
        if self.w.canonical {
            " "
        } else {
            let i = self.r.below(SPACES.len());
            if self.r.chance(3, 5) {
                " "
            } else {
                SPACES[i]
            }
        }
    }
    fn osp(&mut self) -> &'static str {
        if self.w.canonical || self.r.chance(2, 3) {
            ""
        } else {
            self.sp()
        }
    }

    /// attributes with their leading separators
    pub fn attrs(&mut self, doctype: bool) {
        let n = if self.w.spiky && self.r.chance(1, 30) {
            self.r.range(20, 300)
        } else {
            match self.r.below(6) {
                0 | 1 => 0,
                2 | 3 => 1,
                4 => 2,
                _ => self.r.range(3, 9),
            }
        };
        let mut after_valueless = false;
        for _ in 0..n {
            let mut sep = self.sp().to_string();
            if !self.w.canonical && self.r.chance(1, 12) {
                sep.push_str(self.r.pick(&["/", "//", "/ ", " / "]));
            }
            self.out.push_str(&sep);
            let key: String = match self.r.below(10) {
                0 => ident(self.r, 1 + self.r.clone().below(6)),
                1 if !doctype && self.w.spiky => ident(self.r, 150 + self.r.clone().below(200)),
                2 if self.w.eq && !after_valueless && !doctype => format!("={}", self.r.pick(&["", "a", "k", "id"])),
                _ => self.r.pick(KEYS).to_string(),
            };
            if doctype && self.r.chance(1, 2) {
                let v = self.r.pick(VALS);
                let q = self.r.ch(&['"', '\'']);
                if !v.contains(q) {
                    self.out.push(q);
                    self.out.push_str(v);
                    self.out.push(q);
                    after_valueless = false;
                    continue;
                }
            }
            if doctype && key.starts_with(|c| c == '"' || c == '\'') {
                self.out.push_str("html");
                after_valueless = true;
                continue;
            }
            self.out.push_str(&key);
            match self.r.below(5) {
                0 => {
                    if !self.w.canonical && self.r.chance(1, 6) {
                        // '=' with nothing behind it is only possible at the end; leave valueless
                    }
                    after_valueless = true;
                }
                1 => {
                    // unquoted
                    let v: String = self.r.pick(VALS).chars().filter(|c| !ws(*c) && *c != '>').collect();
                    let v = v.trim_start_matches(|c| c == '"' || c == '\'').to_string();
                    if v.is_empty() {
                        after_valueless = true;
                    } else {
                        let (a, b) = (self.osp(), self.osp());
                        self.out.push_str(a);
                        self.out.push('=');
                        self.out.push_str(b);
                        self.out.push_str(&v);
                        after_valueless = false;
                    }
                }
                _ => {
                    let long;
                    let v: &str = if self.w.spiky && self.r.chance(1, 40) {
                        long = "v ".repeat(self.r.range(100, 3000));
                        &long
                    } else {
                        self.r.pick(VALS)
                    };
                    let q = self.r.ch(&['"', '\'']);
                    let v: String = v.chars().filter(|c| *c != q).collect();
                    let (a, b) = (self.osp(), self.osp());
                    self.out.push_str(a);
                    self.out.push('=');
                    self.out.push_str(b);
                    self.out.push(q);
                    self.out.push_str(&v);
                    self.out.push(q);
                    after_valueless = false;
                }
            }
        }
    }

    fn end_name(&mut self, name: &str) -> String {
        let mut s = if self.w.cs || self.r.chance(4, 5) { name.to_string() } else { case_mix(self.r, name) };
        if self.r.chance(1, 6) {
            s.push_str(self.r.pick(SPACES));
        }
        s
    }

    fn open(&mut self, name: &str, slash: bool) {
        self.out.push('<');
        self.out.push_str(name);
        self.attrs(false);
        if slash {
            if self.w.canonical {
                self.out.push_str(" /");
            } else {
                // an unquoted value must not swallow the slash
                self.out.push_str(self.r.pick(&[" /", " //", "\n/", " / "]));
            }
        } else {
            let s = self.osp();
            self.out.push_str(s);
        }
        self.out.push('>');
    }

    pub fn node(&mut self, depth: usize, special: bool, parent: &str) {
        if self.out.len() > 30_000 {
            self.left = 0;
        }
        if self.left == 0 {
            return;
        }
        self.left -= 1;
        let k = self.r.below(100);
        match k {
            0..=27 => {
                let mut t = text(self.r);
                if self.w.spiky && self.r.chance(1, 25) {
                    t = t.repeat(self.r.range(50, 2000));
                }
                self.out.push_str(&t);
            }
            28..=37 => {
                let s = self.r.pick(SPACES);
                self.out.push_str(s);
            }
            38..=44 => {
                let body = self.opaque("-->");
                self.out.push_str("<!--");
                self.out.push_str(&body);
                self.out.push_str("-->");
            }
            45..=47 if self.w.doctype => {
                let d = if self.w.canonical || self.r.chance(1, 2) { "DOCTYPE".to_string() } else { case_mix(self.r, "doctype") };
                self.out.push_str("<!");
                self.out.push_str(&d);
                let before = self.out.len();
                self.attrs(true);
                if self.out.len() == before || !self.out[before..].starts_with(|c| ws(c)) {
                    self.out.truncate(before);
                    self.out.push_str(" html");
                }
                if !self.w.canonical && self.r.chance(1, 5) {
                    self.out.push_str(self.r.pick(&["/", " /", " "]));
                }
                self.out.push('>');
            }
            48..=53 => {
                let v = VOIDS[self.r.below(VOIDS.len())];
                let name = case_mix(self.r, v);
                let slash = self.r.chance(1, 2);
                self.open(&name, slash);
            }
            54..=61 => {
                // raw text elements; title/textarea inside svg/math are left to the soups
                let raws: &[&str] = if special { &["script", "style"] } else { &RAWS };
                let base = self.r.pick(raws);
                let name = case_mix(self.r, base);
                self.open(&name, false);
                let body = self.raw_body(&name);
                self.out.push_str(&body);
                let e = self.end_name(&name);
                self.out.push_str("</");
                self.out.push_str(&e);
                self.out.push('>');
            }
            62..=66 => {
                let base = self.r.pick(&["svg", "math"]);
                let name = case_mix(self.r, base);
                self.element(&name, depth, true);
            }
            67..=70 if special && !is_special(parent) => {
                let body = self.opaque("]]>");
                let kw = if self.w.canonical { "CDATA".into() } else { case_mix(self.r, "CDATA") };
                self.out.push_str("<![");
                self.out.push_str(&kw);
                self.out.push('[');
                self.out.push_str(&body);
                self.out.push_str("]]>");
            }
            71..=76 if special || self.w.sc => {
                let name = self.name();
                self.open(&name, true);
            }
            77..=81 => {
                let name = case_mix(self.r, "pre");
                self.element(&name, depth, special);
            }
            _ => {
                let name = self.name();
                self.element(&name, depth, special);
            }
        }
    }

    fn name(&mut self) -> String {
        match self.r.below(13) {
            0 => self.r.pick(NEAR).to_string(),
            12 => near_name(self.r),
            1 => self.r.pick(WEIRD_NAMES).to_string(),
            2 => {
                let n = if self.w.spiky {
                    self.r.range(100, 400)
                } else if self.r.chance(1, 6) {
                    self.r.range(9, 80)
                } else {
                    self.r.range(1, 8)
                };
                format!("t{}", ident(self.r, n))
            }
            3 => {
                let s = self.r.pick(NAMES);
                case_mix(self.r, s)
            }
            _ => self.r.pick(NAMES).to_string(),
        }
    }

    fn element(&mut self, name: &str, depth: usize, special: bool) {
        // weird names starting with a non-letter cannot be tags
        let name = if name.starts_with(|c: char| c.is_ascii_alphabetic()) { name.to_string() } else { format!("w{}", name) };
        self.open(&name, false);
        if depth < self.w.depth {
            let n = if self.w.spiky && self.r.chance(1, 20) { self.r.range(200, 600) } else { self.r.below(5) };
            if n > 100 {
                self.left += n;
            }
            for _ in 0..n {
                self.node(depth + 1, special, &name);
            }
        } else if self.r.chance(1, 2) {
            let t = text(self.r);
            self.out.push_str(&t);
        }
        let e = self.end_name(&name);
        self.out.push_str("</");
        self.out.push_str(&e);
        self.out.push('>');
    }

    fn opaque(&mut self, terminator: &str) -> String {
        let n = self.r.below(5);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(4) {
                0 => s.push_str(self.r.pick(TOKENS)),
                1 => s.push_str(self.r.pick(&["-", "--", "->", "]", "]]", "]>", ">", "<!--", "<![CDATA[", "</", "- ->", "--!>"])),
                2 => s.push(weird_char(self.r)),
                _ => s.push_str(self.r.pick(TEXT_WORDS)),
            }
        }
        if self.w.spiky && self.r.chance(1, 20) {
            s = s.repeat(self.r.range(20, 500));
        }
        // the body followed by the terminator must contain the terminator only at the end
        loop {
            let whole = format!("{}{}", s, terminator);
            let at = whole.find(terminator).unwrap();
            if at == s.len() {
                return s;
            }
            // cut inside the premature terminator
            s = format!("{}{}", &s[..at], &whole[at + terminator.len()..s.len().max(at + terminator.len())]);
            if s.ends_with(terminator) {
                s.truncate(s.len() - terminator.len());
            }
        }
    }

    fn raw_body(&mut self, name: &str) -> String {
        let n = self.r.below(5);
        let mut s = String::new();
        let others = ["</script", "</style ", "</div>", "</scrip>", "</scripts>", "<script>", "</ script>", "< /title>", "</title x>", "</>", ">", "<!-- ", "-->", "if(a<b && c>d){}", "\"</\" + \"script>\"", "</pre>", "</textarea/>", "<\u{212a}>", "</\u{17f}cript>", "</\u{17f}tyle>"];
        for _ in 0..n {
            match self.r.below(4) {
                0 => s.push_str(self.r.pick(&others)),
                1 => s.push_str(self.r.pick(TOKENS)),
                2 => s.push(weird_char(self.r)),
                _ => s.push_str(self.r.pick(TEXT_WORDS)),
            }
        }
        if self.w.spiky && self.r.chance(1, 10) {
            s = s.repeat(self.r.range(20, 500));
        }
        // break anything that would end the element early
        let low = lc(&s);
        let pat = format!("</{}", lc(name));
        if low.contains(&pat) {
            let mut out = String::new();
            let mut rest: &str = &s;
            let mut lrest: &str = &low;
            while let Some(p) = lrest.find(&pat) {
                let cut = p + pat.len();
                out.push_str(&rest[..cut]);
                out.push('x');
                rest = &rest[cut..];
                lrest = &lrest[cut..];
            }
            out.push_str(rest);
            s = out;
        }
        s
    }
}

pub const TOKENS: &[&str] = &[
    "<div>", "</div>", "<p>", "</p>", "<a>", "</a>", "<b", "<br>", "<br/>", "</br>", "<img ", "<svg>", "</svg>", "<math>", "</math>", "<g/>", "<g>", "</g>", "<script>", "</script>", "<style>", "</style>", "<title>", "</title>", "<textarea>", "</textarea>", "<pre>", "</pre>", "<!--", "-->", "<!DOCTYPE ",
    "<!doctype html>", "<![CDATA[", "]]>", "<", ">", "</", "/>", "/", "<!", "=", "\"", "'", " ", "\n", "x", "a", " id=1", " id=\"x y\"", "<a b='c'>", "&lt;", "&", ";", "<DIV>", "</DIV>", "<SVG>", "</SVG>", "<1", "< ", "<<", "-", "--", "]", " a", " a=", " =", "\r", "  ",
];
pub const SMALL: &[&str] = &[
    "<a>", "</a>", "<A>", "<br>", "<b", " c", "=", "\"", "'", "/", ">", "<", "!", "--", "x", " ", "<svg>", "</svg>", "<script>", "</script>", "<pre>", "</pre>", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE ", "</", "id=1",
];

/// the idx-th sequence of tokens from SMALL in length order; None past max_len
pub fn nth_sequence(mut idx: u64, max_len: u32) -> Option<String> {
    let k = SMALL.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    loop {
        if idx < block {
            break;
        }
        idx -= block;
        block *= k;
        len += 1;
        if len > max_len {
            return None;
        }
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(SMALL[(idx % k) as usize]);
        idx /= k;
    }
    Some(s)
}
pub fn sequences_up_to(max_len: u32) -> u64 {
    (0..=max_len).map(|l| (SMALL.len() as u64).pow(l)).sum()
}

pub fn token_soup(r: &mut Rng) -> String {
    let top = if r.chance(1, 20) { 120 } else { 14 };
    let n = 1 + r.below(top);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(12) {
            0 => s.push(weird_char(r)),
            1 => s.push_str(r.pick(TEXT_WORDS)),
            2 => {
                let t = r.pick(TOKENS);
                s.push_str(&case_mix(r, t));
            }
            3 => {
                let v = VOIDS[r.below(VOIDS.len())];
                s.push_str(&format!("<{}{}", case_mix(r, v), r.pick(&[">", "/>", " ", " />", " a>"])));
            }
            _ => s.push_str(r.pick(TOKENS)),
        }
    }
    s
}

pub fn char_soup(r: &mut Rng) -> String {
    let n = r.below(40);
    (0..n).map(|_| weird_char(r)).collect()
}

/// tag-internals soup: attribute syntax under stress
pub fn tag_soup(r: &mut Rng) -> String {
    let mut s = String::from(r.pick(&["<a", "<div", "<br", "<!DOCTYPE", "<svg><g", "<input", "<script", "<title", "<P"]));
    if r.chance(5, 6) {
        s.push_str(r.pick(SPACES));
    }
    let n = r.below(14);
    for _ in 0..n {
        match r.below(9) {
            0 => s.push_str(r.pick(KEYS)),
            1 => s.push_str(r.pick(VALS)),
            2 => s.push_str(r.pick(SPACES)),
            3 => s.push('='),
            4 => s.push(r.ch(&['"', '\''])),
            5 => s.push('/'),
            6 => s.push_str(r.pick(&["a=\"b\"", "a='b'", "a=b", "id=x", "ID='y'", "a = b", "a= \"b c\"", "a=/b", "a=b/"])),
            7 => s.push(weird_char(r)),
            _ => s.push(' '),
        }
    }
    s.push_str(r.pick(&[">", ">", "/>", " />", "", ">x"]));
    if r.chance(3, 4) {
        s.push_str(r.pick(&["</a>", "</div>", "</g></svg>", "</script>", "</title>", "</p>", "<b>x</b>"]));
    }
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = 1 + r.below(3);
    for _ in 0..n {
        let len = v.len();
        match r.below(8) {
            0 if len > 0 => {
                v.remove(r.below(len));
            }
            1 => {
                let c = weird_char(r);
                v.insert(r.below(len + 1), c);
            }
            2 if len > 0 => {
                let i = r.below(len);
                v[i] = weird_char(r);
            }
            3 if len > 0 => {
                v.truncate(r.below(len + 1));
            }
            4 if len > 1 => {
                let a = r.below(len);
                let b = a + r.below((len - a).min(12) + 1);
                let chunk: Vec<char> = v[a..b.min(len)].to_vec();
                let at = r.below(len + 1);
                for (k, c) in chunk.into_iter().enumerate() {
                    v.insert(at + k, c);
                }
            }
            5 if len > 1 => {
                let a = r.below(len);
                let b = (a + 1 + r.below(10)).min(len);
                v.drain(a..b);
            }
            6 if len > 0 => {
                // flip the letter case of something
                let i = r.below(len);
                v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
            }
            _ => {
                let t = r.pick(TOKENS);
                let at = r.below(len + 1);
                for (k, c) in t.chars().enumerate() {
                    v.insert(at + k, c);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// one character, or one short part, many times
pub fn stretch(r: &mut Rng, s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return String::new();
    }
    let mut out = v.clone();
    for _ in 0..1 + r.below(2) {
        let at = r.below(out.len());
        let len = if r.chance(2, 3) { 1 } else { (1 + r.below(8)).min(out.len() - at) };
        let n = match r.below(4) {
            0 => [8, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257][r.below(11)],
            1 => r.below(20),
            2 => r.below(300),
            _ => {
                let st = crate::ladder::steps();
                st[r.below(st.len())].min(600)
            }
        };
        let part: Vec<char> = out[at..at + len].to_vec();
        let more: Vec<char> = part.iter().cycle().take(len * n).copied().collect();
        out.splice(at..at, more);
    }
    out.into_iter().collect()
}

static CORPUS: OnceLock<Vec<String>> = OnceLock::new();
/// Pieces of real-world-like HTML: the repository's sample document, cut into slices on tag boundaries.
pub fn corpus() -> &'static [String] {
    CORPUS.get_or_init(|| {
        let mut v = vec![];
        let full = if cfg!(miri) { String::new() } else { std::fs::read_to_string("/repo/cases/full.html").unwrap_or_default() };
        let chars: Vec<char> = full.chars().collect();
        let mut i = 0;
        while i < chars.len() && v.len() < 400 {
            let mut e = (i + 300).min(chars.len());
            while e < chars.len() && chars[e] != '<' {
                e += 1;
            }
            v.push(chars[i..e].iter().collect());
            i = e;
        }
        for s in [
            "<!DOCTYPE html>\n<html lang=\"en\">\n<head>\n  <meta charset=\"utf-8\">\n  <title>T &amp; U</title>\n  <link rel=stylesheet href=/a.css>\n  <style>\n  a > b { x: 'y' }\n  </style>\n  <script>if (a < b && c > d) { s = \"</scr\" + \"ipt>\"; }</script>\n</head>\n<body class='a b'>\n  <h1>Hi</h1>\n  <pre>\n  x   y\n    <b>z</b>  </pre>\n  <p>One<br>Two<br/>Three</p>\n  <img src=x.png alt=\"a &quot;b&quot;\"/>\n  <svg viewBox=\"0 0 1 1\"><g><rect width=1 /><text><![CDATA[<b>]]></text></g></svg>\n  <textarea rows=2> <b> </textarea>\n  <!-- c -- d -->\n</body>\n</html>\n",
            "<ul>\r\n  <li id=a>1</li>\r\n  <li id=\"b\">2</li>\r\n</ul>",
            "<table><tr><td>1</td><td> </td></tr></table><math><mrow><mi/>x</mrow></math>",
        ] {
            v.push(s.to_string());
        }
        v
    })
}
pub fn full_html() -> &'static str {
    static F: OnceLock<String> = OnceLock::new();
    F.get_or_init(|| if cfg!(miri) { String::new() } else { std::fs::read_to_string("/repo/cases/full.html").unwrap_or_default() })
}

/// size spikes: (kind, n) -> a document whose size is linear in n
pub const SHAPES: usize = 26;
pub fn shape(kind: usize, n: usize) -> (String, POpts) {
    let mut o = POpts::default();
    let s = match kind % SHAPES {
        0 => "x".repeat(n * 8),
        1 => "<div></div>".repeat(n),
        2 => "<br>".repeat(n),
        3 => format!("<div {}></div>", (0..n).map(|i| format!("a{}=\"v{}\"", i, i)).collect::<Vec<_>>().join(" ")),
        4 => format!("<a b=\"{}\"></a>", "v ".repeat(n * 4)),
        5 => format!("<script>{}</script>", "a > b; ".repeat(n)),
        6 => format!("<script>{}</script>", "</scrip> ".repeat(n)),
        7 => format!("<style>{}</style>", "    >".repeat(n)),
        8 => format!("<!--{}-->", "- -> ".repeat(n)),
        9 => format!("<!--{}-->", "-".repeat(n * 8)),
        10 => format!("<pre>{}</pre>", "  a\n".repeat(n)),
        11 => "text &amp; <b>more</b> ".repeat(n),
        12 => {
            o.fix_lt = true;
            "a < b ".repeat(n)
        }
        13 => {
            o.fix_lt = true;
            "<".repeat(n * 4) + "x"
        }
        14 => {
            o.fix_endtag = true;
            "a</x>".repeat(n)
        }
        15 => {
            o.fix_endtag = true;
            o.fix_unclosed = true;
            "a</x>".repeat(n)
        }
        16 => {
            o.fix_unclosed = true;
            "<p>x</p>".repeat(n) + "<p>"
        }
        17 => format!("<svg>{}</svg>", "<g/>".repeat(n)),
        18 => format!("<svg>{}</svg>", "<g><![CDATA[x]]></g>".repeat(n)),
        19 => "<svg></svg>".repeat(n),
        20 => format!("<a {}></a>", "k ".repeat(n * 2)),
        21 => format!("<{}></{}>", "n".repeat(n * 4), "n".repeat(n * 4)),
        22 => " \n".repeat(n * 4) + "<b></b>",
        23 => format!("<title>{}</title>", "&<> ".repeat(n)),
        24 => {
            o.fix_endtag = true;
            o.fix_lt = true;
            o.fix_unclosed = true;
            "a <1 </x> <p>q</p>".repeat(n)
        }
        _ => (0..n).map(|i| format!("<i id=n{}>{}</i>\n", i, i)).collect::<String>(),
    };
    (s, o)
}

pub fn nested(name: &str, depth: usize, inner: &str) -> String {
    let mut s = String::with_capacity(depth * (name.len() * 2 + 5) + inner.len());
    for _ in 0..depth {
        s.push('<');
        s.push_str(name);
        s.push('>');
    }
    s.push_str(inner);
    for _ in 0..depth {
        s.push_str("</");
        s.push_str(name);
        s.push('>');
    }
    s
}

/// nested deeply, with something before and after the inner element on every level
pub fn deep_rich(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    let mut special = 0usize;
    let filler = |r: &mut Rng, s: &mut String, special: bool, parent: &str| {
        for _ in 0..r.below(3) {
            match r.below(11) {
                0..=2 => s.push_str(r.pick(SPACES)),
                3 => s.push_str(r.pick(&["x", "a  b", "é中", "&lt;", "t\n\n"])),
                4 => s.push_str(r.pick(&["<!---->", "<!-- c  d -->"])),
                5 => s.push_str(r.pick(&["<br>", "<IMG a=b/>", "<hr />"])),
                6 => s.push_str(r.pick(&["<script> a </script>", "<style></style >", "<i> </i>", "<b></b>", "<p>t</P>"])),
                7 => s.push_str(r.pick(&["<i id=q>x</i>", "<a b='c d' E=\"f\">  </a>", "<u c=d></u>"])),
                8 if special => s.push_str(r.pick(&["<g/>", "<path d='1 2' />", "<svg/>"])),
                9 if special && !is_special(parent) => s.push_str("<![CDATA[ <a> ]]>"),
                _ => {}
            }
        }
    };
    let names = ["div", "b", "ul", "pre", "svg", "math", "PRE", "x-y", "section", "table"];
    let bias = r.below(3);
    for _ in 0..depth {
        let p = stack.last().cloned().unwrap_or_default();
        filler(r, &mut s, special > 0, &p);
        let n = if bias > 0 && r.chance(4, 5) { names[(bias - 1) * 2] } else { r.pick(&names) };
        if is_special(n) {
            special += 1;
        }
        s.push_str(&format!("<{}{}>", n, r.pick(&["", "", " a=b", " id='x y'"])));
        stack.push(n.to_string());
    }
    while let Some(n) = stack.pop() {
        filler(r, &mut s, special > 0, &n);
        if is_special(&n) {
            special -= 1;
        }
        s.push_str(&format!("</{}{}>", n, r.pick(&["", "", "", " "])));
    }
    let last = r.pick(&["", " ", "x", "<br>"]);
    s + last
}

/// documents past the sizes at which counters of 8 or 16 bits, buffers and blocks end
pub const BIGS: usize = 16;
pub fn big(r: &mut Rng, kind: usize) -> String {
    let n = [65_536, 65_540, 66_000, 70_001, 131_080][r.below(5)];
    match kind % BIGS {
        0 => format!("<p>{}</p>", "x".repeat(n)),
        1 => "é \n".repeat(n / 3 + 1),
        2 => format!("<ul>{}</ul>", "<i></i>".repeat(n)),
        3 => format!("{}<b>t</b>", "<br> ".repeat(n / 2 + 1)),
        4 => format!("<a b='{}' c></a>", "v/ ".repeat(n / 3 + 1)),
        5 => format!("<a {} z='1'></a>", "k".repeat(n)),
        6 => format!("<div {}></div>", (0..n / 16).map(|i| format!("a{}=v{}", i, i)).collect::<Vec<_>>().join(" ")),
        7 => format!("<!--{}--><i></i>", "- -> ".repeat(n / 5 + 1)),
        8 => format!("<script>{}</script><i></i>", "</scrip> ".repeat(n / 9 + 1)),
        9 => format!("<svg><g><![CDATA[{}]]></g><g/></svg>", "]] > ".repeat(n / 5 + 1)),
        10 => format!("<t{}></t{}  >", "n".repeat(n), "n".repeat(n)),
        11 => format!("<pre>{}</pre>{}<b></b>", " \n".repeat(n / 2), " ".repeat(n)),
        12 => (0..n / 12).map(|i| format!("<i id=n{}>t</i>\n", i)).collect(),
        13 => format!("{}<a></a>", "\n".repeat(n)),
        14 => {
            let d = 1000 + r.below(900);
            deep_rich(r, d)
        }
        _ => {
            let mut s = String::new();
            while s.len() < n {
                let w = Wf { budget: 30, ..Wf::normal(r, &POpts::default()) };
                s.push_str(&well_formed(r, w));
            }
            s
        }
    }
}

/// Near-terminators of raw text, comments and CDATA at the start of their content, enumerated:
/// every suffix of the terminator, with or without its last character, after a few leads and before a few followers.
const NEAR_LEAD: &[&str] = &["", "<", "x", "<!--"];
const NEAR_POST: &[&str] = &["", " ", "\n\t", "\u{a0}", "x", "/", " \u{0b}", "\u{c}\r"];
const NEAR_KINDS: &[(&str, &str, &str)] = &[
    ("<script>", "</script", "></script>"),
    ("<STYLE a=b>", "</STYLE", "></STYLE>"),
    ("<title>", "</title", "></title>"),
    ("<TextArea >", "</TextArea", "></TextArea >"),
    ("<!--", "--", ">--><i></i>"),
    ("<svg><g><![CDATA[", "]]", ">]]></g></svg>"),
];
pub fn near_terms() -> u64 {
    (NEAR_KINDS.len() * 11 * 3 * NEAR_LEAD.len() * NEAR_POST.len()) as u64
}
pub fn nth_near_term(idx: u64) -> String {
    let mut i = idx as usize;
    let mut take = |n: usize| {
        let k = i % n;
        i /= n;
        k
    };
    let (open, term, close) = NEAR_KINDS[take(NEAR_KINDS.len())];
    let lead = NEAR_LEAD[take(NEAR_LEAD.len())];
    let post = NEAR_POST[take(NEAR_POST.len())];
    let mut cut = take(3);
    let from = take(11).min(term.len());
    if cut == 2 {
        // the other letter case
        let t: String = term.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        return format!("{}{}{}{}{}", open, lead, &t[from..], post, close);
    }
    cut = cut.min(term.len() - from);
    format!("{}{}{}{}{}", open, lead, &term[from..term.len() - cut], post, close)
}

/// Every character of interest in every place where the next character decides something.
/// {} is the character, {^} its other letter case.
const SLOTS: &[&str] = &[
    "<{}", "<{}>x", "<{}a>x</{}a>", "</{}", "</{}>", "<a{}>", "<a{}b>x</a{}b>", "<a{}b>x</a{^}b>", "<p {}></p>", "<p {}=1></p>", "<p a{}b=1 c></p>", "<p a{}=1></p>", "<p a{}></p>", "<p a={}></p>", "<p a={}b></p>", "<p a=b{}></p>",
    "<p a=b{}c></p>", "<p a='{}' b></p>", "<p a=\"x{}\"></p>", "<p a=\"1\"{}b></p>", "<p a='1'{}></p>", "<p a=1 {}b=2></p>", "<p a= {}b=2></p>", "<p a ={}'2'></p>", "<p a{} = 2></p>", "<p/{}></p>", "<p /{}b></p>", "<svg><g/{}></g></svg>", "<svg><g {}/></svg>",
    "<br{}>", "<br/{}>", "<br {}/>", "<!{}-- -->", "<!-{}- -->", "<!--{}-->", "<!--{}", "<!--x-{}->", "<!--x--{}>-->", "<!--{}x--><b>{}</b>", "<!{}>", "<!DOCTYPE{}html>", "<!{}OCTYPE a>", "<!D{}CTYPE a>", "<!DOCTYP{} a>", "<!DOCTYPE {}>", "<!DOCTYPE a{}>", "<!DOCTYPE 'a'{}'b'>",
    "<script>{}</script>", "<script>x</script{}>", "<script>x</script {}>", "<script>x</scr{}pt></script>", "<script>x</{}cript></script>", "<script>x<{}script></script>", "<script>x{}/script></script>", "<style{}></style>", "<{}tyle></{}tyle>", "<lin{}>x</lin{}>", "<title>{} </title>", "<textarea>\n{}</textarea>",
    "<pre>{}  {}</pre>", "<p{}re>  x</p{}re>", "{}", "x{}y", " {} ", "{}{}{}", "\n{}<b>{}</b>{}", "<p></p{}>", "<p></{}p>", "<p></p {}>", "<p></{}>", "<p>x<{}/p>", "<svg><g><![{}CDATA[x]]></g></svg>", "<svg><g><![CDATA{}[x]]></g></svg>", "<svg><g><![CD{}TA[x]]></g></svg>",
    "<svg><g><![CDATA[{}]]></g></svg>", "<svg><g><![CDATA[x]{}]>]]></g></svg>", "<svg><g><![CDATA[x]]{}>]]></g></svg>", "<s{}g><g/></s{}g>", "&{};", "&#{};", "&#x{};", "&#6{}0;", "&#x3{}c;", "&am{};", "&{}amp;", "&amp{};", "&amp;{}lt;", "&lt{}", "a &{} b",
    "<p id={}></p>", "<p id='{}'></p>", "<p i{}d=x></p>", "<p {}d=x></p>", "<p i{}=x></p>", "<p =={}></p>", "<p ={}></p>", "<p a=\"'{}\"></p>", "<p a=`{}`></p>", "<p a=\"=\"{}=''></p>", "<p {}{}></p>", "<p '{}'></p>",
    "<svg><{}x</svg>", "<svg><g><{}x</g></svg>", "<pre><{} x</pre>", "<p>a<{}b</p>", "<b>x <{}</b>", "<svg></{}></svg>", "<p>a</{}>b</p>", "<!DOC{}YPE a>", "<!D{}CTYPE a>", "<!DOCTYP{} a>", "<svg><g><![{}DATA[x]]></g></svg>", "<svg><g><![CD{}TA[x]]></g></svg>", "<svg><g><!{}CDATA[x]]></g></svg>",
    "<a{}c>x</akc>", "<a{}c>x</aKc>", "<akc>x</a{}c>", "<aKc>x</a{}c>", "<a{}c>x</asc>", "<a{}c>x</aSc>", "<asc>x</a{}c>", "<aSc>x</a{}c>", "<a{}c>x</aic>", "<a{}c>x</aIc>", "<aic>x</a{}c>", "<aIc>x</a{}c>",
    "<a{}c>x</abc>", "<a{}c>x</aBc>", "<abc>x</a{}c>", "<aBc>x</a{}c>", "<SCR{}PT>x</SCRIPT>", "<script>x</SCR{}PT></script>", "<T{}TLE><b></T{}TLE>", "<svg><!{}--></svg>", "<p><!--{}--> <!--{}--></p>",
    "<svg><![CDATA[{}]]></svg>", "<MATH>{}<![CDATA[x]]></MATH>", "<svg><g></g><![CDATA[{}]]></svg>", "<svg><svg><![CDATA[{}]]></svg></svg>", "<![CDATA[{}]]>", "<svg><g/{}</svg><g/>", "<svg></svg>{}<g/>", "<svg><math></math><g{}/></svg>", "<svg><script>{}</script><g/></svg>", "<svg><br{}><g/></svg><p/>",
    "{}<html></html>", "<html></html>{}", "<!---->{}<html></html>", "<html{}></html{}>", "<{}html>x</{}html>", "<htm{}></htm{}>", "<h{}ml></h{}ml>",
];
fn slot_chars() -> &'static Vec<char> {
    static C: OnceLock<Vec<char>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<char> = (0..0x180).filter_map(char::from_u32).collect();
        for c in ('\0'..=char::MAX).filter(|c| *c as u32 >= 0x180) {
            let folds = c.to_lowercase().chain(c.to_uppercase()).any(|x| x.is_ascii());
            if c.is_whitespace() || folds || (c.is_numeric() && c as u32 % 97 == 0) || ODD.contains(&c) {
                v.push(c);
            }
        }
        for c in &crate::ladder::literals().chars {
            if !v.contains(c) {
                v.push(*c);
            }
        }
        v.extend(['\u{1ff}', '\u{391}', '\u{3b1}', '\u{410}', '\u{430}', '\u{7ff}', '\u{800}', '\u{1e9e}', '\u{200d}', '\u{200e}', '\u{202e}', '\u{2060}', '\u{d7ff}', '\u{e000}', '\u{fe0f}', '\u{ff1d}', '\u{ff0f}', '\u{ff02}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{e0020}']);
        v
    })
}
/// places to put a template in: deep in svg, deep in ordinary elements, in pre among siblings, behind a crowd
const SLOT_WRAPS: &[(&str, &str)] = &[
    ("<svg><g><g><g><g><g>", "</g></g></g></g></g></svg>"),
    ("<div><ul><li><p><b><i><u>", "</u></i></b></p></li></ul></div>"),
    ("<PRE a=b><!-- c --> <br>x<i> </i>", " <b></b></pre > "),
    ("<!DOCTYPE html>\n<p id=a>x</p> <br/><!-- c --><script>1</script> text <i></i> <p b='c d' e></p>", " <p></p>\n"),
];
const SLOT_ASCII: usize = 128;
pub fn slots() -> u64 {
    (SLOTS.len() * (slot_chars().len() + SLOT_ASCII * SLOT_WRAPS.len())) as u64
}
pub fn nth_slot(idx: u64) -> String {
    let v = slot_chars();
    let plain = (SLOTS.len() * v.len()) as u64;
    if idx >= plain {
        let k = (idx - plain) as usize;
        let (a, b) = SLOT_WRAPS[k / SLOT_ASCII % SLOT_WRAPS.len()];
        let slot = k / SLOT_ASCII / SLOT_WRAPS.len();
        // the first 128 entries of the list are the ASCII characters
        return format!("{}{}{}", a, nth_slot((slot * v.len() + k % SLOT_ASCII) as u64), b);
    }
    let c = v[idx as usize % v.len()];
    let other: String = {
        let u: String = c.to_uppercase().collect();
        if u.chars().eq([c]) {
            c.to_lowercase().collect()
        } else {
            u
        }
    };
    SLOTS[idx as usize / v.len()].replace("{}", &c.to_string()).replace("{^}", &other)
}

/// A hostile document: anything goes.
pub fn hostile(r: &mut Rng, o: &POpts) -> String {
    match r.below(20) {
        0..=4 => token_soup(r),
        5 | 6 => char_soup(r),
        7..=9 => tag_soup(r),
        10..=13 => {
            let w = Wf::normal(r, o);
            let s = well_formed(r, w);
            mutate(r, &s)
        }
        14 => {
            let c = corpus();
            let s = &c[r.below(c.len())];
            mutate(r, s)
        }
        15 => {
            // a prefix of a well-formed document: every construct cut by the end of input
            let w = Wf::normal(r, o);
            let s: Vec<char> = well_formed(r, w).chars().collect();
            let k = r.below(s.len() + 1);
            s[..k].iter().collect()
        }
        16 => {
            let n = 1 + r.below(60);
            let k = r.below(SHAPES);
            let (s, _) = shape(k, n);
            if r.chance(1, 2) {
                mutate(r, &s)
            } else {
                s
            }
        }
        _ => {
            let w = Wf::normal(r, o);
            well_formed(r, w)
        }
    }
}

/// A document that is (nearly always) accepted with repairs off.
pub fn acceptable(r: &mut Rng, o: &POpts) -> String {
    match r.below(16) {
        0 => tag_soup(r),
        1 => {
            let c = corpus();
            c[r.below(c.len())].clone()
        }
        2 => {
            let w = Wf { spiky: true, budget: 1 + r.below(20), ..Wf::normal(r, o) };
            well_formed(r, w)
        }
        3 => {
            let w = Wf { canonical: true, ..Wf::normal(r, o) };
            well_formed(r, w)
        }
        4 if r.chance(1, 2) => {
            let d = if r.chance(1, 8) { r.range(40, 300) } else { r.range(3, 70) };
            deep_rich(r, d)
        }
        4 => {
            let d = r.range(10, 200);
            let t = text(r);
            let nm = r.pick(&["div", "pre", "svg", "b", "Math"]);
            nested(nm, d, &t)
        }
        5 => {
            let w = Wf { budget: 20 + r.below(60), depth: 12, ..Wf::normal(r, o) };
            well_formed(r, w)
        }
        _ => {
            let w = Wf::normal(r, o);
            well_formed(r, w)
        }
    }
}

// ------------------------------------------------------------------ focused workloads

/// whitespace runs next to every kind of construct
pub fn spacey(r: &mut Rng) -> String {
    let mut s = String::new();
    let mut stack: Vec<&str> = vec![];
    for _ in 0..2 + r.below(14) {
        if r.chance(2, 3) {
            s.push_str(r.pick(SPACES));
            if r.chance(1, 8) {
                s.push(r.ch(&['\u{a0}', '\u{2003}', '\u{85}', '\u{0b}', 'x', '\u{feff}', '\0', '\u{3000}']));
                if r.chance(1, 2) {
                    s.push_str(r.pick(SPACES));
                }
            }
        }
        match r.below(10) {
            0..=2 => {
                let n = r.pick(&["div", "p", "pre", "b", "svg", "ul", "PRE", "g"]);
                s.push_str(&format!("<{}>", n));
                stack.push(n);
            }
            3 | 4 => {
                if let Some(n) = stack.pop() {
                    s.push_str(&format!("</{}>", n));
                }
            }
            5 => s.push_str(r.pick(&["<br>", "<img />", "<hr/>"])),
            6 => s.push_str(r.pick(&["<!---->", "<!-- c -->", "<!DOCTYPE html>"])),
            7 => s.push_str(r.pick(&["<script> </script>", "<title></title>", "<textarea>\n</textarea>", "<style>a</style >"])),
            8 => s.push_str(r.pick(&["x", "x y", "a  b", "&nbsp;", "&#32;"])),
            _ => {
                if stack.iter().any(|n| is_special(n)) && !is_special(stack.last().unwrap()) {
                    s.push_str("<![CDATA[ ]]>");
                } else if stack.iter().any(|n| is_special(n)) {
                    s.push_str("<g/>");
                }
            }
        }
    }
    if r.chance(1, 2) {
        s.push_str(r.pick(SPACES));
    }
    while let Some(n) = stack.pop() {
        s.push_str(&format!("</{}>", n));
        if r.chance(1, 2) {
            s.push_str(r.pick(SPACES));
        }
    }
    s
}

pub fn attr_list_text(v: &[crate::snap::SAttr]) -> String {
    format!("{:?}", v)
}

/// a document whose <target …> carries a known attribute list
pub fn attr_doc(r: &mut Rng, spiky: bool) -> (String, String, u32) {
    use crate::snap::SAttr;
    let mut po = if r.chance(1, 6) { 2 } else { 0 };
    let n = if spiky { [6, 21, 64, 130, 300][r.below(5)] + r.below(4) } else { r.below(7) };
    let mut list: Vec<SAttr> = vec![];
    let mut s = String::from("<target");
    let mut glue = false; // the previous attribute ended with a quote: no separator needed
    for i in 0..n {
        let eqkey = po & 2 != 0 && r.chance(1, 4) && (i == 0 || list[i - 1].value.is_some());
        let sep = match r.below(12) {
            0 if glue => String::new(),
            1 => format!("{}/{}", r.pick(SPACES), r.pick(&["", " ", "/"])),
            2 if i == 0 || glue || list[i - 1].value.is_none() => r.pick(&["/", "//", "/ "]).to_string(),
            3 => format!("{}{}", r.pick(SPACES), r.pick(SPACES)),
            _ => r.pick(SPACES).to_string(),
        };
        s.push_str(&sep);
        let mut key: String = match r.below(8) {
            0 => {
                let len = if spiky && r.chance(1, 6) { 190 + r.below(40) } else { 1 + r.below(9) };
                ident(r, len)
            }
            1 => {
                let k: String = (0..1 + r.below(5)).map(|_| weird_char(r)).filter(|c| !ws(*c) && !matches!(c, '=' | '>' | '/')).collect();
                if k.is_empty() {
                    "w".into()
                } else {
                    k
                }
            }
            2 => {
                let b = r.pick(&["id", "class", "href", "data-a"]);
                case_mix(r, b)
            }
            3 if !list.is_empty() => {
                // a name again, in another letter case perhaps
                let k = list[r.below(list.len())].key.clone().unwrap();
                let k = k.trim_start_matches('=').to_string();
                if k.is_empty() {
                    "x".into()
                } else {
                    case_mix(r, &k)
                }
            }
            _ => r.pick(KEYS).to_string(),
        };
        if eqkey {
            key = format!("={}", key.trim_start_matches('='));
        }
        s.push_str(&key);
        let mut a = SAttr { key: Some(key), value: None, quote: None };
        let spaced = |r: &mut Rng| if r.chance(1, 4) { r.pick(SPACES).to_string() } else { String::new() };
        match r.below(6) {
            0 => glue = false,
            1 => {
                let v: String = if r.chance(1, 2) { r.pick(VALS).to_string() } else { (0..1 + r.below(6)).map(|_| weird_char(r)).collect() };
                let v: String = v.chars().filter(|c| !ws(*c) && *c != '>').collect();
                let v = v.trim_start_matches(|c| c == '"' || c == '\'').to_string();
                glue = false;
                if !v.is_empty() {
                    s.push_str(&format!("{}={}{}", spaced(r), spaced(r), v));
                    a.value = Some(v);
                }
            }
            _ => {
                let q = r.ch(&['"', '\'']);
                let v: String = match r.below(5) {
                    0 => (0..r.below(9)).map(|_| weird_char(r)).collect(),
                    1 if spiky => "long value / > = ".repeat(1 + r.below(60)),
                    _ => r.pick(VALS).to_string(),
                };
                let v: String = v.chars().filter(|c| *c != q).collect();
                s.push_str(&format!("{}={}{}{}{}", spaced(r), spaced(r), q, v, q));
                a.value = Some(v);
                a.quote = Some(q);
                glue = true;
            }
        }
        list.push(a);
    }
    let last_open = list.last().map(|a| a.value.is_some() && a.quote.is_none()).unwrap_or(false);
    let (a, b, slash) = match r.below(5) {
        0 => ("<svg>", "</svg>", true),
        1 => ("<svg><g>", "</g></svg>", false),
        2 => ("<div>x ", "</div>", false),
        3 => {
            po |= 4;
            ("", "", true)
        }
        _ => ("", "", false),
    };
    if slash {
        s.push_str(if last_open { " />" } else { r.pick(&["/>", " />", "//>", " / >"]) });
    } else {
        s.push_str(r.pick(&[">", " >", "\n>"]));
        s.push_str(r.pick(&["", "x", " ", "<b a=1></b>"]));
        s.push_str("</target>");
    }
    (format!("{}{}{}", a, s, b), attr_list_text(&list), po)
}

fn first_raw_end(body: &[char], name: &str, cs: bool) -> Option<usize> {
    let nm: Vec<char> = name.chars().collect();
    (0..body.len()).find(|&i| {
        if body[i] != '<' || body.get(i + 1) != Some(&'/') || i + 2 + nm.len() > body.len() {
            return false;
        }
        let eq = nm.iter().enumerate().all(|(k, c)| if cs { body[i + 2 + k] == *c } else { body[i + 2 + k].eq_ignore_ascii_case(c) });
        let mut k = i + 2 + nm.len();
        while k < body.len() && ws(body[k]) {
            k += 1;
        }
        eq && k < body.len() && body[k] == '>'
    })
}

/// a document around one opaque construct with a known body
pub fn opaque_doc(r: &mut Rng, spiky: bool) -> (String, String, u32) {
    let po = if r.chance(1, 4) { 1 } else { 0 };
    let cs = po == 1;
    let kind = r.below(8);
    let (name, term): (String, &str) = match kind {
        0 | 1 => ("".into(), "-->"),
        2 | 3 => ("".into(), "]]>"),
        _ => {
            let base = RAWS[kind - 4];
            (case_mix(r, base), "")
        }
    };
    let mut body = String::new();
    let near: Vec<String> = if term.is_empty() {
        let n = &name;
        let l = lc(n);
        let short = &l[..l.len() - 1];
        vec![
            format!("</{}x>", n),
            format!("</{} x>", n),
            format!("</{}/>", n),
            format!("</ {}>", n),
            format!("<{}>", n),
            format!("</{}>", short),
            format!("< /{}>", n),
            format!("</{}", n),
            format!("</{} ", n),
            format!("</{}\n", n),
            format!("/{}>", n),
            format!("</{}-->", n),
            format!("</{}>", l.replace('s', "\u{17f}").replace('t', "ţ").replace('k', "\u{212a}")),
            format!("<</{}", n),
            format!("</{}</", n),
            format!("<\\/{}>", n),
            if cs { format!("</{}>", n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>()) } else { format!("</x{}>", n) },
        ]
    } else {
        ["-", "--", "->", "- ->", "-- >", "--!>", "-\u{2010}>", "]", "]]", "]>", "] ]>", "]] >", ">", "<!--", "<![CDATA[", "--]]", "]]-->", "-->", "]]>", "\u{2010}\u{2010}>"].iter().map(|s| s.to_string()).collect()
    };
    let n = if spiky { 20 + r.below(120) } else { r.below(6) };
    for _ in 0..n {
        match r.below(7) {
            0..=2 => body.push_str(&near[r.below(near.len())]),
            3 => body.push_str(r.pick(TOKENS)),
            4 => body.push(weird_char(r)),
            5 => body.push_str(r.pick(TEXT_WORDS)),
            _ => body.push_str(r.pick(SPACES)),
        }
    }
    if r.chance(1, 3) {
        // the terminator with one character replaced by a close one
        let t = if term.is_empty() { format!("</{}>", name) } else { term.to_string() };
        let mut v: Vec<char> = t.chars().collect();
        let k = r.below(v.len());
        v[k] = near_char(r, v[k]);
        body.extend(v);
        body.push_str(r.pick(&["", "x", ">", " "]));
    }
    // cut at the first real terminator
    let chars: Vec<char> = body.chars().collect();
    let body: String = if term.is_empty() {
        match first_raw_end(&chars, &name, cs) {
            Some(k) => chars[..k].iter().collect(),
            None => body,
        }
    } else {
        match body.find(term) {
            Some(k) => body[..k].to_string(),
            None => body,
        }
    };
    // the real terminator must be the first one also together with the body's last characters
    let mut whole = String::new();
    let pre = r.pick(&["", "", " ", "x", "<p>", "\n", "<br>", "<!-- -->"]);
    whole.push_str(pre);
    let post = if pre == "<p>" { "</p>" } else { "" };
    let tail = r.pick(&["", "", " ", "x", "<b>y</b>", ">", "-->", "<script></script>", "<!---->", "<i> </i>"]);
    let mut fixed = body;
    if !term.is_empty() {
        // "-" + "-->" would end earlier: drop trailing terminator characters that shift the end
        loop {
            let w = format!("{}{}", fixed, term);
            if w.find(term) == Some(fixed.len()) {
                break;
            }
            fixed.pop();
        }
    }
    match kind {
        0 | 1 => whole.push_str(&format!("<!--{}-->", fixed)),
        2 | 3 => {
            let (a, b) = [
                ("<svg><g>", "</g></svg>"),
                ("<math><mi>", "</mi></math>"),
                ("<SVG><p><t>", "</t></p></SVG>"),
                ("<svg><svg><g>", "</g></svg></svg>"),
                ("<div><svg><g>", "</g></svg></div>"),
                ("<p><b><math><a><b>", "</b></a></math></b></p>"),
                ("<svg><g></g><g/><a>", "</a></svg>"),
                ("<svg><math><g>", "</g></math></svg>"),
                ("<svg><math></math><g>", "</g></svg>"),
            ][r.below(9)];
            let kw = case_mix(r, "CDATA");
            whole.push_str(&format!("{}<![{}[{}]]>{}", a, kw, fixed, b));
        }
        _ => {
            let attrs = r.pick(&["", "", " a=\"b\"", " type=text/x", " x='>'", " "]);
            let end = if cs || r.chance(2, 3) { name.clone() } else { case_mix(r, &name) };
            let sp = if r.chance(1, 4) { r.pick(SPACES) } else { "" };
            whole.push_str(&format!("<{}{}>{}</{}{}>", name, attrs, fixed, end, sp));
        }
    }
    whole.push_str(tail);
    whole.push_str(post);
    (whole, fixed, po)
}

/// names of start and end tags in various letter cases and look-alikes
pub fn casey(r: &mut Rng) -> String {
    let pool = ["div", "Span", "P", "a", "x-Y", "script", "style", "title", "textarea", "pre", "svg", "math", "html", "link2", "ask", "é", "Form.Item", "br", "img", "K", "titles", "t\u{e9}", "t\u{c9}", "a_B", "z[", "z{", "a@b", "a`b"];
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    let end = |r: &mut Rng, n: &str| -> String {
        let e = match r.below(24) {
            0..=11 => n.to_string(),
            12..=17 => case_mix(r, n),
            18 => n.replace('k', "\u{212a}").replace('s', "\u{17f}"),
            19 => n.to_uppercase(),
            20 => n.chars().map(|c| char::from_u32(c as u32 ^ 0x20).unwrap_or(c)).collect(),
            21 if n.len() < 8 => format!("{}x", n),
            21 | 22 => {
                let mut v: Vec<char> = n.chars().collect();
                let k = r.below(v.len());
                v[k] = near_char(r, v[k]);
                v.into_iter().filter(|c| *c != '>').collect()
            }
            _ => n.chars().rev().enumerate().map(|(i, c)| if i == 0 { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect::<Vec<_>>().into_iter().rev().collect(),
        };
        let sp = if r.chance(1, 8) { r.pick(SPACES) } else { "" };
        format!("</{}{}>", e, sp)
    };
    for _ in 0..1 + r.below(6) {
        match r.below(8) {
            0..=3 => {
                let b = r.pick(&pool);
                let n = match r.below(8) {
                    0 => near_name(r),
                    1..=3 => b.to_string(),
                    _ => case_mix(r, b),
                };
                let n = if r.chance(1, 10) { ident(r, r.clone().range(6, 140)) } else { n };
                let n = if n.starts_with(|c: char| c.is_ascii_alphabetic()) { n } else { format!("q{}", n) };
                let at = r.pick(&["", "", " a=b", " ID=\"x\""]);
                s.push_str(&format!("<{}{}>", n, at));
                if is_void(&n) {
                } else if is_raw(&n) {
                    s.push_str(r.pick(&["", "x", " <b> ", "</b>"]));
                    if r.chance(1, 4) {
                        let mut v: Vec<char> = format!("</{}>", n).chars().collect();
                        let k = r.below(v.len());
                        v[k] = near_char(r, v[k]);
                        s.extend(v);
                    }
                    s.push_str(&end(r, &n));
                } else {
                    stack.push(n);
                }
            }
            4 => s.push_str(r.pick(&["x", "  y  ", " ", "a  b"])),
            5 => {
                // what is only allowed in svg and math shows whether they were recognised
                let b = r.pick(&["svg", "math"]);
                let n = case_mix(r, b);
                let inner = r.pick(&["<mi/>", "<g><![CDATA[x]]></g>", "<G />", "<Svg/>"]);
                s.push_str(&format!("<{}>{}", n, inner));
                s.push_str(&end(r, &n));
            }
            _ => {
                if let Some(n) = stack.pop() {
                    s.push_str(&end(r, &n));
                }
            }
        }
    }
    while let Some(n) = stack.pop() {
        s.push_str(&end(r, &n));
    }
    s
}

/// '<!' constructs, complete, malformed, misplaced and cut
pub fn declarations(r: &mut Rng) -> String {
    let mut s = String::new();
    let mut stack: Vec<&str> = vec![];
    for _ in 0..1 + r.below(6) {
        match r.below(12) {
            0 => {
                let n = r.pick(&["svg", "math", "g", "p", "SVG", "mi"]);
                s.push_str(&format!("<{}>", n));
                stack.push(n);
            }
            1 => {
                if let Some(n) = stack.pop() {
                    s.push_str(&format!("</{}>", n));
                }
            }
            2 => s.push_str(r.pick(&["<!DOCTYPE html>", "<!doctype>", "<!DOCTYPE >", "<!DOCTYPE\n>", "<!DOCTYPEhtml>", "<!DocType a 'b' \"c\">", "<!DOCTYP html>", "<!DOCTYPES>", "<!D>", "<!DOCTYPE html/>", "<!DOCTYPE a=b c = 'd'>", "<!doctype/>"])),
            3 => s.push_str(r.pick(&["<!---->", "<!-- a -->", "<!-->", "<!--->", "<!- -->", "<!-x", "<!--a--", "<!--a->", "<!--a-- >", "<!--a--!>-->"])),
            4 | 5 => s.push_str(r.pick(&["<![CDATA[x]]>", "<![CDATA[]]>", "<![cdata[y]]>", "<![CDATA x]]>", "<![CDATA]]>", "<![ CDATA[", "<![C", "<![CDATA[ <b> ]] ]>]]>"])),
            6 => s.push_str(r.pick(&["<!>", "<!x>", "<! DOCTYPE>", "<!E", "<!ENTITY a>", "<!", "<?xml?>", "<!é>", "<!/>", "<!1>"])),
            7 => s.push_str(r.pick(&["x", " ", "\n", "&"])),
            8 => s.push_str(r.pick(&["<g/>", "<br>", "<br/>", "<svg/>", "<math />"])),
            9 => s.push_str(r.pick(&["<script></script>", "<title>a</title>"])),
            10 => {
                let n = r.pick(&["svg", "math", "g", "p", "div"]);
                s.push_str(&format!("<{}>", n));
                stack.push(n);
            }
            _ => {}
        }
    }
    if r.chance(4, 5) {
        while let Some(n) = stack.pop() {
            s.push_str(&format!("</{}>", n));
        }
    }
    if r.chance(1, 5) {
        let v: Vec<char> = s.chars().collect();
        let k = r.below(v.len() + 1);
        s = v[..k].iter().collect();
    }
    s
}

/// documents with repairable defects: left open, unmatched end tags, stray '<'
pub fn broken(r: &mut Rng, o: &POpts) -> String {
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    let all = r.chance(1, 3);
    let (du, de, dl) = (all || o.fix_unclosed || r.chance(1, 12), all || o.fix_endtag || r.chance(1, 12), all || o.fix_lt || r.chance(1, 12));
    let top = if r.chance(1, 12) { 80 } else { 14 };
    for _ in 0..2 + r.below(top) {
        match r.below(16) {
            0..=2 => {
                let n = r.pick(&["div", "p", "b", "a", "svg", "pre", "ul", "DIV", "math", "g", "x-y"]);
                let at = r.pick(&["", "", "", " a=b", " id=\"x y\"", " c", " a='<' "]);
                s.push_str(&format!("<{}{}>", n, at));
                stack.push(n.to_string());
            }
            3..=5 => {
                if let Some(n) = stack.pop() {
                    let e = if o.cs { n } else { case_mix(r, &n) };
                    s.push_str(&format!("</{}{}>", e, r.pick(&["", "", " "])));
                }
            }
            6 | 7 if de => {
                let n = r.pick(&["x", "div", "p", "br", "b ", "script", "", " ", "é", "a b", "svg", "i<j", "P", "x/"]);
                let top = stack.last().map(|t| same_name_ci(t, n.trim_end_matches(ws))).unwrap_or(false);
                if !top {
                    s.push_str(&format!("</{}>", n));
                }
            }
            8 | 9 if dl => {
                s.push_str(r.pick(&["<", "<<", "< ", "<1", "<=", "<<<", "<>", "<é", "<-", "<\n", "<.", "< <", "<&", "<\"", "<;"]));
                s.push_str(r.pick(&["x", " ", "1", "\n", "=", "&"]));
            }
            10 => s.push_str(r.pick(SPACES)),
            11 => s.push_str(r.pick(&["<br>", "<img/>", "<!-- -->", "<script>a<b</script>", "<title></title >", "<!DOCTYPE html>", "<textarea> </textarea>"])),
            _ => {
                let t = text(r);
                s.push_str(&t);
            }
        }
    }
    if du && r.chance(1, 6) {
        s.push_str(r.pick(&["<a", "<a b", "<a b=", "<a b=c", "<a b=\"c", "<a b='c' ", "<a /", "<br", "<br a=1", "<script", "<script a", "<svg", "<a b = ", "<a b c", "<p a=\"x\"", "<title x='", "<pre/"]));
        return s;
    }
    let keep = if du { r.below(stack.len() + 1) } else { 0 };
    while stack.len() > keep {
        let n = stack.pop().unwrap();
        s.push_str(&format!("</{}>", n));
    }
    if r.chance(1, 4) {
        s.push_str(r.pick(&[" ", "x", "\n", "<!---->"]));
    }
    s
}
