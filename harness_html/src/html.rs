use crate::rt::*;
use crate::util::*;
use minifier::html::minify;

// ------------------------------------------------------------------ texts
const CTX: [&str; 14] = [
    "@",
    "<pre>@</pre>",
    "<div>@</div>",
    "<p>x</p><TEXTAREA rows=\"2\">@</TEXTAREA>",
    "x@y",
    "<!--@-->",
    "<a @>b</a>",
    "<a title=\"@\" b>",
    "<a title='@'>",
    "<script @></script>",
    "<img width=\"@\" src=\"x\">",
    "a<!--@z--> b",
    "<!--[if @]> <p> <![endif]-->",
    "<style type=\"text/css\">@</style>",
];
const LEX: [&str; 44] = [
    "<p>",
    "</p>",
    "<b class=\"x y\">",
    "<img width=\"10\" height=\"5\" alt='q'>",
    "<img width=\"10\"/>",
    "<img height=\"1-2_3.4\">",
    "word",
    "\u{e9}",
    "\u{a0}",
    "\u{3000}",
    "&amp;",
    "1",
    "<!-- c -->",
    "<!---->",
    "<!-- a -- b > -->",
    "<!--\n<p>\n-->",
    "<!--[if IE]> x <![endif]-->",
    "<!--[if !IE]><!-->",
    "<!--<![endif]-->",
    "<style type=\"text/css\">",
    "</style>",
    "<script type=\"text/javascript\" src=\"a.js\">",
    "</script>",
    "<script type=\"module\">",
    "<script data-type=\"text/javascript\" >",
    "<script\ntype=\"application/json\" id=\"d\">",
    "<style title=\"a\" type=\"text/css\" >",
    "<li>",
    "</li>",
    "<body>",
    "<body class=\"c\">",
    "</html>",
    "</td>",
    "</TD>",
    "<br/>",
    "<br />",
    "<a href=x >",
    "<a  title=\"a &gt;  b\"  id='i' >",
    "<INPUT disabled value=5  >",
    "<!DOCTYPE html>",
    "<p\nid=\"a\"\n>",
    "<a x=\"5\"  y='6'  z =7>",
    "</div >",
    ">",
];
/// indices into LEX
const FEW: [usize; 19] = [0, 1, 2, 3, 4, 6, 8, 12, 15, 16, 17, 18, 21, 22, 27, 28, 34, 36, 40];
const GAP: [&str; 5] = ["", " ", "\n", "  ", "\t"];
const FREE: [&[u8]; 4] = [b"", "\u{e9}".as_bytes(), "\u{a0}".as_bytes(), "\u{1f600}".as_bytes()];
/// Texts with a free word: of letters where `@` stands, of capital or small letters where `^` stands
const WORD: [&str; 14] = [
    "<@ type=\"text/javascript\" src=\"a\">b",
    "<img @=\"10\" src=\"x\">",
    "a</@>b",
    "<p class=\"c\">a  b\n</p>\n<^ id=\"q\">a  b\n\n c",
    "<script type=\"text/@\" async></script>",
    "a <@> b",
    "<script @=\"text/javascript\"></script>",
    "<^  type=\"text/css\" x>",
    "<td @='5'  size=6 >",
    "<^>a\n  b</p>",
    "<style type=\"@/css\"></style>",
    "a<!--@--> b\n\n<!--[if]-->",
    "<b>x @</b>  a\n\nb  <i>c</i>",
    "<p title=\"@\">  a\n\nb  c</p>",
];
const NAMES: &str = "a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption center cite code col colgroup data datalist dd del \
details dfn dialog dir div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 h6 head header hgroup hr html i img input ins kbd label legend li link \
listing main map mark math menu meta meter nav noscript object ol optgroup option output p param picture pre progress q rp rt ruby s samp search section select slot small source span \
strike strong sub summary sup svg table tbody td template textarea tfoot th thead time tr track tt u ul var video wbr basefont isindex prefix preview \
width height type size value rows cols rowspan colspan class name style content charset alt title href src data-width data-type border maxlength tabindex min max step start \
text javascript css plain module ecmascript importmap json x-template babel application";
/// arg = 1000 * kind + 10 * context + n; kind 0: n free characters, kind 1: n lexemes with gaps, kind 2: long texts, kind 3: n lexemes of fewer,
/// kind 4: words of n free letters, or (9) one of many names
fn text(arg: u64) -> String {
    let (ctx, n) = (arg as usize / 10 % 100, arg as usize % 10);
    let mut o = vec![];
    if arg / 1000 == 4 {
        for &c in WORD[ctx].as_bytes() {
            if c != b'@' && c != b'^' {
                o.push(c);
                continue;
            }
            if n == 9 {
                let w = NAMES.split(' ').nth(pick(NAMES.split(' ').count())).unwrap_or("");
                if c == b'^' && pick(2) == 1 {
                    o.extend_from_slice(w.to_ascii_uppercase().as_bytes());
                } else {
                    o.extend_from_slice(w.as_bytes());
                }
                continue;
            }
            for _ in 0..n {
                let b = byte();
                let l = if c == b'^' { b | 0x20 } else { b };
                assume(l >= b'a' && l <= b'z');
                o.push(b);
            }
        }
        return utf8(o);
    }
    if arg / 1000 == 2 {
        let n = arg as usize % 100;
        match arg / 100 % 10 {
            // many words, tags, comments, attributes
            0 => rep(&mut o, b'w', n),
            1 => {
                o.extend_from_slice(b"<a ");
                for i in 0..n {
                    o.extend_from_slice(b" x");
                    o.push(b'a' + (i % 26) as u8);
                    o.extend_from_slice(b"=\"1  2\" ");
                }
                o.extend_from_slice(b">");
            }
            2 => {
                for _ in 0..n {
                    o.extend_from_slice(b"<li> \n<!-- x -->a</li>\n");
                }
            }
            3 => {
                o.extend_from_slice(b"a<!--");
                rep(&mut o, b'-', 2 * n);
                o.extend_from_slice(b" -->");
            }
            4 => {
                o.extend_from_slice(b"<pre>a");
                rep(&mut o, b' ', n);
                o.extend_from_slice(b"b\n\n</pre>");
            }
            _ => {
                o.extend_from_slice(b"a");
                rep(&mut o, b' ', n);
                o.extend_from_slice(b"b\n");
                rep(&mut o, b'\n', n);
            }
        }
        o.push(ascii());
        o.push(ascii());
        return utf8(o);
    }
    let c = CTX[ctx].as_bytes();
    for i in 0..c.len() {
        if c[i] != b'@' {
            o.push(c[i]);
            continue;
        }
        if arg >= 1000 {
            let few = arg >= 3000;
            let gap = if few { 3 } else { GAP.len() };
            for _ in 0..n {
                o.extend_from_slice(GAP[pick(gap)].as_bytes());
                o.extend_from_slice(LEX[if few { FEW[pick(FEW.len())] } else { pick(LEX.len()) }].as_bytes());
            }
            o.extend_from_slice(GAP[pick(gap)].as_bytes());
        } else {
            for _ in 0..n {
                match pick(FREE.len()) {
                    0 => o.push(ascii()),
                    k => o.extend_from_slice(FREE[k]),
                }
            }
        }
    }
    utf8(o)
}

// ------------------------------------------------------------------ an HTML tokenizer
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Text,
    Start,
    End,
    Comment,
    Doctype,
}
#[derive(Clone, Debug)]
struct Attr {
    name: (usize, usize),
    val: (usize, usize),
}
#[derive(Clone, Debug)]
struct Tok {
    k: K,
    a: usize,
    b: usize,
    name: (usize, usize),
    attrs: Vec<Attr>,
    slash: bool,
    /// whitespace before the token (of the text)
    ws: (usize, usize),
}
fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12
}
fn alpha(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z')
}
fn name_char(c: u8) -> bool {
    alpha(c) || c == b'-' || c == b'_' || (c >= b'0' && c <= b'9')
}
fn at(s: &[u8], i: usize, w: &[u8]) -> bool {
    i + w.len() <= s.len() && same(&s[i..i + w.len()], w)
}
fn lower(s: &[u8]) -> Vec<u8> {
    s.iter().map(|&c| if c >= b'A' && c <= b'Z' { c + 32 } else { c }).collect()
}
fn find(s: &[u8], from: usize, w: &[u8]) -> Option<usize> {
    (from..s.len()).find(|&i| at(s, i, w))
}
/// None: not a document the property speaks of.  The last token is an empty text.
fn lex(s: &[u8]) -> Option<Vec<Tok>> {
    let mut t = vec![];
    let mut i = 0;
    let mut raw: Vec<u8> = vec![];
    loop {
        let w = i;
        while i < s.len() && ws(s[i]) {
            i += 1;
        }
        let mut k = Tok { k: K::Text, a: i, b: i, name: (i, i), attrs: vec![], slash: false, ws: (w, i) };
        if i == s.len() {
            t.push(k);
            return Some(t);
        }
        if s[i] != b'<' {
            while i < s.len() && s[i] != b'<' && !ws(s[i]) {
                i += 1;
            }
        } else if at(s, i, b"<!--") && raw.is_empty() {
            k.k = K::Comment;
            if at(s, i + 4, b">") || at(s, i + 4, b"->") {
                return None;
            }
            let e = find(s, i + 4, b"-->")?;
            let f = (i + 4..e).find(|&k| !ws(s[k]));
            if f.map_or(false, |k| s[k] == 11 || s[k] >= 0x80) {
                // another kind of space
                return None;
            }
            if find(&s[..e + 3], i, b"--!>").is_some() || (find(&s[..e], i + 4, b"<!--").is_some() && !conditional(&s[i..e + 3])) {
                return None;
            }
            i = e + 3;
        } else if at(s, i, b"<!DOCTYPE") && raw.is_empty() {
            k.k = K::Doctype;
            while i < s.len() && s[i] != b'>' {
                i += 1;
                if at(s, i, b"<") || at(s, i, b"\"") || at(s, i, b"'") {
                    return None;
                }
            }
            if i == s.len() {
                return None;
            }
            i += 1;
        } else {
            i += 1;
            k.k = K::Start;
            if at(s, i, b"/") {
                k.k = K::End;
                i += 1;
            }
            if i == s.len() || !alpha(s[i]) {
                return None;
            }
            let n = i;
            while i < s.len() && name_char(s[i]) {
                i += 1;
            }
            k.name = (n, i);
            let name = lower(&s[n..i]);
            if !raw.is_empty() {
                if k.k != K::End || name != raw {
                    return None;
                }
                raw.clear();
            } else if k.k == K::Start && (name == b"script" || name == b"style") {
                raw = name;
            } else if name == b"plaintext" || name == b"xmp" || name == b"iframe" || name == b"noembed" || name == b"noframes" || name == b"title" {
                return None;
            }
            loop {
                let mut gap = false;
                while i < s.len() && ws(s[i]) {
                    i += 1;
                    gap = true;
                }
                if i == s.len() {
                    return None;
                }
                if s[i] == b'>' {
                    i += 1;
                    break;
                }
                if at(s, i, b"/>") {
                    k.slash = true;
                    i += 2;
                    break;
                }
                if !gap || k.k == K::End || !name_char(s[i]) {
                    return None;
                }
                let n = i;
                while i < s.len() && name_char(s[i]) {
                    i += 1;
                }
                let mut a = Attr { name: (n, i), val: (i, i) };
                let mut j = i;
                while j < s.len() && ws(s[j]) {
                    j += 1;
                }
                if at(s, j, b"=") {
                    i = j + 1;
                    while i < s.len() && ws(s[i]) {
                        i += 1;
                    }
                    if i == s.len() {
                        return None;
                    }
                    let q = s[i];
                    if q == b'"' || q == b'\'' {
                        i += 1;
                        let v = i;
                        while i < s.len() && s[i] != q {
                            if s[i] == b'<' || s[i] == b'>' || s[i] == b'"' || s[i] == b'\'' {
                                return None;
                            }
                            i += 1;
                        }
                        if i == s.len() {
                            return None;
                        }
                        a.val = (v, i);
                        i += 1;
                    } else {
                        let v = i;
                        while i < s.len() && !ws(s[i]) && s[i] != b'>' {
                            if s[i] == b'"' || s[i] == b'\'' || s[i] == b'=' || s[i] == b'<' || s[i] == b'`' || s[i] == b'/' {
                                return None;
                            }
                            i += 1;
                        }
                        if v == i {
                            return None;
                        }
                        a.val = (v, i);
                    }
                }
                k.attrs.push(a);
            }
        }
        k.b = i;
        t.push(k);
    }
}
const USELESS: [&str; 31] = [
    "</area>", "</base>", "<body>", "</body>", "</br>", "</col>", "</colgroup>", "</dd>", "</dt>", "<head>", "</head>", "</hr>", "<html>", "</html>", "</img>", "</input>", "</li>",
    "</link>", "</meta>", "</option>", "</param>", "<tbody>", "</tbody>", "</td>", "</tfoot>", "</th>", "</thead>", "</tr>", "</basefont>", "</isindex>", "</param>",
];
/// Is the comment one that browsers act upon?
fn conditional(c: &[u8]) -> bool {
    let mut i = 4;
    while i < c.len() && ws(c[i]) {
        i += 1;
    }
    at(c, i, b"[") || at(c, i, b"<![endif]")
}
/// The text with each run of whitespace as one space.
fn squeeze(s: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for &c in s {
        if !ws(c) {
            o.push(c);
        } else if o.last() != Some(&b' ') {
            o.push(b' ');
        }
    }
    o
}
fn is_pre(s: &[u8]) -> bool {
    let s = lower(s);
    find(&s, 0, b"<pre").is_some() || find(&s, 0, b"<textarea").is_some()
}
struct Item {
    k: K,
    text: Vec<u8>,
    attrs: Vec<(Vec<u8>, Vec<u8>)>,
    slash: bool,
    ws: Vec<u8>,
}
/// What the document holds: all but ordinary comments, needless tags and default types.
fn items(s: &[u8]) -> Option<Vec<Item>> {
    let mut v: Vec<Item> = vec![];
    let mut gap: Vec<u8> = vec![];
    for t in lex(s)? {
        gap.extend_from_slice(&s[t.ws.0..t.ws.1]);
        let w = &s[t.a..t.b];
        let drop = match t.k {
            K::Comment => !conditional(w),
            K::Start | K::End => USELESS.iter().any(|u| same(u.as_bytes(), w)),
            _ => false,
        };
        if drop {
            continue;
        }
        let mut text = squeeze(w);
        let mut attrs = vec![];
        if t.k == K::Comment {
            // conditional comments hold markup of their own
            if USELESS.iter().any(|u| find(w, 0, u.as_bytes()).is_some()) || w.contains(&b'"') || w.contains(&b'\'') || find(w, 4, b"<!--[").is_some() {
                return None;
            }
            text = text.into_iter().filter(|c| *c != b' ').collect();
        }
        if t.k == K::Start || t.k == K::End {
            let name = &s[t.name.0..t.name.1];
            text = name.to_vec();
            let ty: &[&[u8]] = if same(name, b"style") {
                &[b"text/css"]
            } else if same(name, b"script") {
                &[b"text/javascript", b"application/javascript"]
            } else {
                &[]
            };
            for a in &t.attrs {
                let (n, v) = (&s[a.name.0..a.name.1], &s[a.val.0..a.val.1]);
                if !(same(n, b"type") && ty.iter().any(|t| same(t, v))) {
                    attrs.push((n.to_vec(), squeeze(v)));
                }
            }
        }
        if t.k == K::Text && gap.is_empty() && t.a < t.b {
            if let Some(l) = v.last_mut().filter(|l| l.k == K::Text) {
                // nothing is left between the two
                l.text.extend_from_slice(&text);
                continue;
            }
        }
        v.push(Item { k: t.k, text, attrs, slash: t.slash, ws: std::mem::take(&mut gap) });
    }
    Some(v)
}
/// H01, H03
pub fn html_content(arg: u64) {
    let s = text(arg);
    let Some(x) = items(s.as_bytes()) else {
        assume(false);
        return;
    };
    let m = minify(&s);
    log(s.as_bytes());
    log(m.as_bytes());
    reach(1);
    let Some(y) = items(m.as_bytes()) else {
        check(false, 2);
        return;
    };
    check(x.len() == y.len(), 3);
    let pre = is_pre(s.as_bytes());
    for i in 0..x.len() {
        let (a, b) = (&x[i], &y[i]);
        check(a.k == b.k && a.slash == b.slash, 4);
        check(same(&a.text, &b.text), 5);
        check(a.attrs.len() == b.attrs.len(), 6);
        for j in 0..a.attrs.len() {
            check(same(&a.attrs[j].0, &b.attrs[j].0), 7);
            check(same(&a.attrs[j].1, &b.attrs[j].1), 8);
        }
        if i == 0 || i + 1 == x.len() {
            check(b.ws.is_empty(), 9);
        } else if pre {
            reach(2);
            check(same(&a.ws, &b.ws), 10);
        } else {
            check(a.ws.is_empty() == b.ws.is_empty() && b.ws.len() <= 1, 11);
        }
    }
}
/// H02
pub fn html_comments(arg: u64) {
    let s = text(arg);
    if lex(s.as_bytes()).is_none() {
        assume(false);
    }
    let (s, m) = (s.as_bytes(), minify(&s));
    let m = m.as_bytes();
    log(s);
    log(m);
    let c = |s: &[u8]| -> Option<Vec<Vec<u8>>> { Some(lex(s)?.iter().filter(|t| t.k == K::Comment).map(|t| s[t.a..t.b].to_vec()).collect()) };
    let (Some(x), Some(y)) = (c(s), c(m)) else {
        assume(false);
        return;
    };
    reach(1);
    let mut j = 0;
    for w in x {
        if USELESS.iter().any(|u| find(&w, 0, u.as_bytes()).is_some()) || w.contains(&b'"') || w.contains(&b'\'') {
            assume(false);
        }
        if conditional(&w) {
            reach(2);
            check(j < y.len(), 2);
            let f = |w: &[u8]| squeeze(w).into_iter().filter(|c| *c != b' ').collect::<Vec<u8>>();
            check(same(&f(&w), &f(&y[j])), 3);
            j += 1;
        }
    }
    check(j == y.len(), 4);
}
/// H04
pub fn html_idem(arg: u64) {
    let s = text(arg);
    if lex(s.as_bytes()).is_none() {
        assume(false);
    }
    let m = minify(&s);
    log(m.as_bytes());
    reach(1);
    check(m.len() <= s.len(), 2);
    check_same(minify(&m).as_bytes(), m.as_bytes(), 3);
}
/// H04
pub fn html_free(arg: u64) {
    let s = text(arg);
    let m = minify(&s);
    log(m.as_bytes());
    reach(1);
    check(m.len() <= s.len(), 2);
}
/// H01: inline scripts
pub fn html_script(_: u64) {
    let m = minify("<script>\na() // x\nb()\n</script>");
    log(m.as_bytes());
    reach(1);
    check(find(m.as_bytes(), 0, b"x\nb()").is_some(), 1);
}
/// H05: in documents without preformatted text
pub fn html_collapse(arg: u64) {
    let s = text(arg);
    if lex(s.as_bytes()).is_none() || is_pre(s.as_bytes()) {
        assume(false);
    }
    let m = minify(&s);
    log(s.as_bytes());
    let m = m.as_bytes();
    log(m);
    reach(1);
    let n = m.len();
    if n > 0 {
        check(!ws(m[0]), 1);
        check(!ws(m[n - 1]), 2);
    }
    for i in 0..n {
        check(m[i] != b'\n' && m[i] != b'\r', 3);
        check(i == 0 || !(ws(m[i]) & ws(m[i - 1])), 4);
    }
}
