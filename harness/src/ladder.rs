//! Systematic families: every dimension of a document at every step of a ladder of sizes, and
//! every word that occurs as a literal in the library's sources in every place of a document.
//! The literals only choose inputs (an automatic dictionary, as fuzzers have it); nothing is judged by them.
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// `{*unit*}` is repeated n times (`#` in it is the number), everything else stands once
const DIMS: &[&str] = &[
    // text and whitespace
    "{*x*}",
    "<p>{*x*}</p>",
    "<p>{*x *}  y</p>  <b> </b>",
    "<p>{* *}</p><b></b>",
    "<p>{*\n *}x</p>",
    "<p>x{*\t*}y  z</p>",
    "<p>x{* *}</p>",
    "<b></b>{* *}<b></b>",
    "{* *}<b></b>{*\n*}",
    "{*é😀*}<p> a  b</p>",
    "<pre>{* *}x{* *}<b> </b></pre> {* *}<i></i>",
    "{*\r\n*}<b></b> <p>x  y</p>",
    "<p>{*\r*}<b></b></p>",
    // names
    "<a{*n*}>x</a{*n*}>",
    "<A{*N*}k  >x</a{*n*}K >",
    "<a{*n*}k>x</a{*n*}\u{212a}>",
    "<a{*n*}s>x</a{*n*}\u{17f}>",
    "<a{*n*}é>x</a{*N*}É>",
    "<a{*n*}\u{212a}>x</a{*n*}k>",
    "<a\u{17f}{*n*}>x</as{*n*}>",
    "<ak{*n*}>x</a\u{212a}{*n*}>",
    "<aé{*é*}>x</aé{*É*}>",
    "<a{*é*}[>x</a{*é*}{>",
    "<a{*n*}b>x</a{*n*}c>",
    "<a{*n*}>x</a{*n*}n>",
    "<svg><a{*n*}/><B{*n*} /></svg>",
    "<p></p{* *}>",
    "<P></p{*\t\n*}><script>x</SCRIPT{* *}>",
    "<title></title{*\x0c*}><textarea>x</textarea{*\r*}>",
    // attributes
    "<p {*k *}></p>",
    "<p {*k#=v# *}ID=z B='2' b=\"3\" c></p>",
    "<p {*k# *}a=x/ a=y id=\"q\"></p>",
    "<p {*A='' *}b= c></p>",
    "<p {*\"q\" *}></p>",
    "<br {*k#='v' *}/><img {*a *}>",
    "<svg><g {*a=\"1\" *}/><g {*b *}/></svg>",
    "<p a{*n*}=1 b{*N*} c=2></p>",
    "<p a=\"{*v*}\" b='{*v *}' c></p>",
    "<p a={*v*} b={*v*}/ c=/{*v*}></p>",
    "<p a=\"{*/*}\" b={*=*}x c='{*\"*}'></p>",
    "<p a='{*v*}<' b='{*v*}>' c='{*v*}=' d='{*v*}`' e=\"{*v*}'\" f=\"{*v*}\t\"></p>",
    "<p a='{*v*} y' b></p>",
    "<p a=\"{*v*}=\"></p>",
    "<p a=\"{*é*}'\"></p>",
    "<p a='{*v*}<b>' c></p>",
    "<p b a={*v*}=x c></p>",
    "<p id='{*v*}' ID={*w*}></p><i id={*v*}></i>",
    "<p{* *}a{* *}={* *}'1'{* *}/{* *}b></p>",
    "<p {*/*}a{*/*} b=1 {*/*}></p>",
    "<!DOCTYPE {*a *}'x' \"y\" {*b=c *}>",
    "<!DOCTYPE {*'a' *}>",
    "<!doctype{* *}html{* *}>",
    // depth
    "{*<b>*}x  y{*</b>*}",
    "{*<b>*} <i> </i> <!-- c --> <br/><!DOCTYPE a> <p id=q>x</p>{*</b>*} <u> </u>",
    "{*<i>*}<svg><g> <![CDATA[ x ]]><path/></g><g/></svg> {*</i>*}<b></b>",
    "{*<i>*}<svg></svg><g/>{*</i>*}",
    "{*<i>*}<svg><g></g></svg><p><![CDATA[x]]></p>{*</i>*}",
    "{*<i>*}<MATH><mi/></MATH><script>a<b></script><title> x </title>{*</i>*}",
    "<svg>{*<g>*}<![CDATA[x]]><a/>{*</g>*}<b/></svg><b></b>",
    "<svg>{*<svg>*}<g><![CDATA[x]]></g><a/>{*</svg>*}<b/></svg><b></b>",
    "<math>{*<g>*}{*</g>*}</math><b/>",
    "{*<pre>*} a  b {*</pre>*}  c  d<b> </b>",
    "<pre>{*<b>*}  x  {*</b>*}  </pre>  y  <i> </i>",
    "{*<b>*}<pre>  x</pre>  y  z  {*</b>*}",
    "{*<B>*}x{*</b>*}",
    // siblings
    "{*<br>*}<p> </p><!--c--> <![x <!DOCTYPE a> t<html></html>",
    "{*<br>*} <p> </p><!--c--> <!DOCTYPE a> t<html></html>",
    "<p>{*<b>x</b>*}<!--c--> <i id=q> </i>  t  </p> ",
    "<p>{*<b> </b> *}<hr> x </p>",
    "{*<!--c-->*}<html></html>{*<!--d--> *}",
    "{* <!--c-->*}<HTML></HTML> <!DOCTYPE a><p></p>",
    "{*<!--c-->*}<html></html><!DOCTYPE a> <!--d-->",
    "<html></html>{*<!DOCTYPE a> *}",
    "<!DOCTYPE a>{* *}<html>{*<p></p>*}</html>{*\n*}",
    "<svg>{*<g/>*} <g><![CDATA[a]]></g></svg>",
    "<svg>{*<g><![CDATA[#]]></g>*}</svg><b></b>",
    "{*<svg></svg>*}<g/>",
    "{*<script>#</script>*}<b></b>",
    "{*<!DOCTYPE a#>*}<html></html>",
    "{*<p id=n#>t</p>*}<p id=n0></p><p id=q></p>",
    "{*<p id=n>t</p>*}<p id=q></p>",
    "{*<i id='#' ID=x#></i>*}",
    // comments, raw text, CDATA
    "<!--{*-*}--><b></b>",
    "<!--{*x*}--> <b></b>",
    "<!--{*x*}--!>--><!--{*x*}- -->",
    "<!--{* *}-->",
    "<script>{*x*}</script>",
    "<script>{*<*}/script></script>",
    "<style>{*</style *}></style>",
    "<title>{*x*}&<b>&amp;</title>",
    "<textarea>{* *}</textarea><title>{*\n*}x</title>",
    "<title>{*&*}{*<*}</title>",
    "<svg><g><![CDATA[{*]*}]]></g></svg>",
    "<svg><g><![CDATA[{*x*} ]]></g> </svg>",
    "<script><!--{*<script>*}--></script>",
    // entities
    "{*&amp;*} &lt;",
    "{*x*}&amp;y&lt;z",
    "{*x *}&hellip;y  &gt;",
    "<p>&{*a*};&#{*0*}60;&#x{*0*}3c;</p>",
    "{*&*}lt;{*;*}",
    "<p>&#x1F600;{*é*}&notanentity;&eacute;</p>",
    // rejected
    "{*<b>*}",
    "{*<b>*}</c>",
    "{*<b>*}<1",
    "{*\n*}<b>",
    "{*x*}</b>",
    "{*\r\n*}x</b>",
    "{*\n\r*}<p><b></p>",
    "<p a='{*v*}",
    "<!--{*v*}",
    "<{*b*}",
    "</b{*b*}>",
    "<b></B{* *}>",
    "<a{*n*}/>",
    "{*<br/>*}<a/>",
    "<p {*k *}=></p>",
    // repaired
    "{*</x>*}t",
    "a{*</x>*}b  {*</x>*} c",
    " {*</x>*} <b></b>",
    "<b>{*</x>*}</b>",
    "{*<*}x",
    "a{*< *}b",
    "<p>{*<1*}</p>",
    "{*<b>*}x</c>y< z",
    "{*<b a=1>*}</c> <i>t",
    "{*<b>*}<i a{*n*}",
    "{*<b>*}<i a='{*n*}",
    "x{*y*}</b>z",
    "{*x*}<=",
    "{*<p>x</i>*}",
    "<b>{*x</i>*}<1</b>",
];
const NREPAIRED: usize = 15;
/// dimensions that are levels of nesting
fn is_depth(t: &str) -> bool {
    t.contains("{*<b") || t.contains("{*<B") || t.contains("{*<i>") || t.contains("{*<g>") || t.contains("{*<svg>*}<g") || t.contains("{*<pre>") || t.contains("{*<p>")
}

pub struct Literals {
    pub numbers: Vec<usize>,
    pub words: Vec<String>,
    pub chars: Vec<char>,
}
pub fn literals() -> &'static Literals {
    static L: OnceLock<Literals> = OnceLock::new();
    L.get_or_init(|| {
        let mut numbers = BTreeSet::new();
        let mut words = BTreeSet::new();
        let mut chars = BTreeSet::new();
        if !cfg!(miri) {
            let mut files: Vec<_> = vec![];
            let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
            while let Some(d) = dirs.pop() {
                for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        dirs.push(p);
                    } else if p.extension().is_some_and(|x| x == "rs") {
                        files.push(p);
                    }
                }
            }
            files.sort();
            for f in files {
                scan(&std::fs::read_to_string(&f).unwrap_or_default(), &mut numbers, &mut words, &mut chars);
            }
        }
        Literals {
            numbers: numbers.into_iter().filter(|n| *n <= 1 << 17).take(400).collect(),
            words: words.into_iter().filter(|w: &String| !w.is_empty() && w.chars().count() <= 40).take(600).collect(),
            chars: chars.into_iter().take(400).collect(),
        }
    })
}

fn scan(src: &str, numbers: &mut BTreeSet<usize>, words: &mut BTreeSet<String>, chars: &mut BTreeSet<char>) {
    let v: Vec<char> = src.chars().collect();
    let at = |i: usize| v.get(i).copied().unwrap_or('\0');
    let esc = |i: &mut usize| -> Option<char> {
        // at a backslash
        *i += 1;
        let c = at(*i);
        *i += 1;
        Some(match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'x' => {
                let h: String = [at(*i), at(*i + 1)].iter().collect();
                *i += 2;
                return u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
            }
            'u' => {
                let mut h = String::new();
                while *i < v.len() && at(*i) != '}' {
                    if at(*i).is_ascii_hexdigit() {
                        h.push(at(*i));
                    }
                    *i += 1;
                }
                *i += 1;
                return u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
            }
            '\n' => {
                while at(*i).is_whitespace() && *i < v.len() {
                    *i += 1;
                }
                return None;
            }
            c => c,
        })
    };
    let mut run = String::new(); // character literals separated by commas
    let mut last: Option<(usize, char)> = None; // a number and the operator after it
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == '/' && at(i + 1) == '/' {
            while i < v.len() && v[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < v.len() && !(v[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' {
            let raw = i > 0 && (v[i - 1] == 'r' || v[i - 1] == '#');
            let hashes = if raw { (1..).take_while(|k| i >= *k && v[i - k] == '#').count() } else { 0 };
            let mut s = String::new();
            i += 1;
            while i < v.len() {
                if v[i] == '"' && (0..hashes).all(|k| at(i + 1 + k) == '#') {
                    break;
                }
                if v[i] == '\\' && !raw {
                    if let Some(c) = esc(&mut i) {
                        s.push(c);
                    }
                } else {
                    s.push(v[i]);
                    i += 1;
                }
            }
            i += 1 + hashes;
            for c in s.chars() {
                if !c.is_ascii() {
                    chars.insert(c);
                }
            }
            words.insert(s);
            last = None;
            continue;
        }
        if c == '\'' {
            // a character or a lifetime
            let mut k = i + 1;
            let got = if at(k) == '\\' {
                let g = esc(&mut k);
                (at(k) == '\'').then_some(g).flatten()
            } else if at(k + 1) == '\'' {
                k += 1;
                Some(at(k - 1))
            } else {
                None
            };
            if let Some(ch) = got {
                chars.insert(ch);
                run.push(ch);
                i = k + 1;
                continue;
            }
            i += 1;
            continue;
        }
        if c.is_ascii_digit() && !(i > 0 && (v[i - 1].is_alphanumeric() || v[i - 1] == '_')) {
            let mut s = String::new();
            while i < v.len() && (v[i].is_ascii_alphanumeric() || v[i] == '_') {
                if v[i] != '_' {
                    s.push(v[i]);
                }
                i += 1;
            }
            let n = if let Some(h) = s.strip_prefix("0x") {
                usize::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else if let Some(b) = s.strip_prefix("0b") {
                usize::from_str_radix(&b.chars().take_while(|c| matches!(c, '0' | '1')).collect::<String>(), 2).ok()
            } else {
                s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
            };
            if let Some(mut n) = n {
                numbers.insert(n);
                if let Some((m, op)) = last {
                    let r = if op == '*' { m.checked_mul(n) } else { m.checked_shl(n.min(40) as u32) };
                    if let Some(r) = r {
                        numbers.insert(r);
                        n = r;
                    }
                }
                last = Some((n, ' '));
            }
            continue;
        }
        if !c.is_whitespace() {
            if c != ',' && !run.is_empty() {
                if run.chars().count() > 1 {
                    words.insert(std::mem::take(&mut run));
                }
                run.clear();
            }
            last = match (last, c) {
                (Some((n, ' ')), '*') => Some((n, '*')),
                (Some((n, ' ')), '<') if at(i + 1) == '<' => Some((n, '<')),
                (Some((n, '<')), '<') => Some((n, '<')),
                _ => None,
            };
        }
        i += 1;
    }
}

pub fn steps() -> &'static Vec<usize> {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: BTreeSet<usize> = (0..=34).collect();
        for k in [40, 48, 50, 60, 64, 72, 80, 96, 100, 120, 128, 150, 160, 180, 192, 200, 240, 250, 256, 300, 320, 360, 384, 400, 500, 512, 600, 640, 700, 750, 768, 800, 900, 1000, 1024, 1200, 1280, 1500, 1536, 1800, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8192, 10000, 16384, 32768] {
            v.extend([k - 1, k, k + 1]);
        }
        for k in &literals().numbers {
            v.extend([k.saturating_sub(1), *k, k + 1]);
        }
        v.into_iter().collect()
    })
}
pub fn ladder() -> u64 {
    (DIMS.len() * steps().len()) as u64
}
/// the document and whether it is meant to be repaired; None: that size is left out
pub fn nth_ladder(idx: u64) -> Option<(String, bool)> {
    let s = steps();
    let k = idx as usize % DIMS.len();
    let n = s[idx as usize / DIMS.len()];
    let t = DIMS[k];
    let most = if is_depth(t) {
        1900
    } else {
        // the whole document stays below some 100,000 characters
        let unit: usize = t.split("{*").skip(1).map(|x| x.split("*}").next().unwrap_or("").len() + 2).sum();
        200_000 / unit.max(3)
    };
    if n > most {
        return None;
    }
    let mut out = String::new();
    let mut rest = t;
    while let Some(a) = rest.find("{*") {
        out.push_str(&rest[..a]);
        let b = rest[a..].find("*}").map(|b| a + b)?;
        let unit = &rest[a + 2..b];
        if unit.contains('#') {
            for i in 0..n {
                out.push_str(&unit.replace('#', &i.to_string()));
            }
        } else {
            out.push_str(&unit.repeat(n));
        }
        rest = &rest[b + 2..];
    }
    out.push_str(rest);
    Some((out, k + NREPAIRED >= DIMS.len()))
}

/// the places a word can stand in
const PLACES: &[&str] = &[
    "{}", " {} ", "x{}y", "<p>{}</p>", "<{}>x  y</{}>", "<{}>", "<{}/>", "<svg><{}/> <{}> x</{}></svg>", "<svg><g><{}><![CDATA[x]]></{}></g></svg>", "<p {}></p>", "<p {}={} b></p>", "<p {}='x' {}=y></p>", "<p a={}></p>", "<p a='{}' b=\"{}\"></p>", "<p a=\"x{}y\"></p>",
    "<p id={}></p>", "<p id='{}'></p>", "<!--{}-->", "<!-- {} --><b></b>", "<script>{}</script>", "<style> {} </style>", "<title>{}</title>", "<textarea>{}</textarea>", "<svg><g><![CDATA[{}]]></g></svg>", "<!DOCTYPE {}>", "<!DOCTYPE a '{}'>", "</{}>", "<p></{}>", "<{}", "<{}></{} >", "<p {}", "&{};", "<!{}",
    "<{} a=1/>", "<{} a=1>x</{}>  <b> </b>", "<html><{}></{}></html>", "<pre> <{}>  x  </{}>  </pre>", "<{}> </{}> <br> x  y", "<p>x</p>{}<b></b>", "<{}><![CDATA[x]]></{}>", "<b><{}>x</b>", "x </{}> y", "x <{} y",
];
/// 0: as written, 1: upper case, 2: lower case, 3: twice
const FORMS: usize = 4;
pub fn words() -> u64 {
    (literals().words.len() * PLACES.len() * FORMS) as u64
}
pub fn nth_word(idx: u64) -> String {
    let l = literals();
    let w = &l.words[idx as usize % l.words.len()];
    let k = idx as usize / l.words.len();
    let f = match k / PLACES.len() {
        0 => w.clone(),
        1 => w.to_ascii_uppercase(),
        2 => w.to_ascii_lowercase(),
        _ => w.repeat(2),
    };
    PLACES[k % PLACES.len()].replace("{}", &f)
}

/// Base documents whose every character is replaced by its relatives: truncation partners (low 7, 8 or 16 bits
/// agree), neighbours, other case bit, wide form; or removed, doubled, swapped with the next one.
const BASES: &[&str] = &[
    "<!DOCTYPE html>", "<!doctype a 'b'>x", "<svg><g><![CDATA[x]]></g></svg>", "<math><mi><![cdata[]]></mi></math>", "<!--x-->y", "<script>a</script>b", "<STYLE>a</style >b", "<title>&lt;</title>", "<textarea> x</textarea>", "<p a='b' c=d e>t</p>", "<p id=\"x\" ID='y'>t</p>", "<img src=a/>b", "<br/><HR>", "<wbr><input a />",
    "<pre> a  b </pre> <i> c</i>", "<html><head></head></html>", " <b> </b> <i>x</i>\r\n", "<div><p>x</p></div>", "<abc>x</ABC>", "<ABC>x</abc>", "<Title>x</tITLE>", "a &amp; b &#60; c &#x3c; d", "<svg><path/></svg><g></g>", "x </b> y", "x < y <i>z", "<a><b></a>", "<p a=\"1\"b='2'/c>", "<area><base><col><embed>", "<link><meta><param><source><track>",
];
const RELATIVES: usize = 17;
pub fn relatives() -> u64 {
    (BASES.iter().map(|b| b.chars().count()).sum::<usize>() * RELATIVES) as u64
}
pub fn nth_relative(idx: u64) -> String {
    let mut k = idx as usize / RELATIVES;
    let how = idx as usize % RELATIVES;
    for b in BASES {
        let mut v: Vec<char> = b.chars().collect();
        if k >= v.len() {
            k -= v.len();
            continue;
        }
        let u = v[k] as u32;
        let w = match how {
            0 => u + 0x80,
            1 => u + 0x100,
            2 => u + 0x200,
            3 => u + 0x2000,
            4 => u + 0xE000,
            5 => u + 0x10000,
            6 => u + 0x1_0100,
            7 => u + 0x10_0000,
            8 => u ^ 0x20,
            9 => u + 1,
            10 => u.wrapping_sub(1),
            11 if (0x21..0x7f).contains(&u) => u + 0xFEE0,
            12 => {
                v.remove(k);
                return v.into_iter().collect();
            }
            13 => {
                v.insert(k, v[k]);
                return v.into_iter().collect();
            }
            14 => {
                if k + 1 < v.len() {
                    v.swap(k, k + 1);
                }
                return v.into_iter().collect();
            }
            15 => {
                v.truncate(k);
                return v.into_iter().collect();
            }
            _ => 0,
        };
        v[k] = char::from_u32(w).unwrap_or('\u{fffd}');
        return v.into_iter().collect();
    }
    String::new()
}
