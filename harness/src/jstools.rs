//! The token tools: finding declarations, replacing and judging single tokens.
use crate::js::text;
use crate::jslex::{lex, K};
use crate::util::same;
use crate::rt::*;
use minifier::js::*;

fn gap(t: &Token<'_>) -> bool {
    match t {
        Token::Comment(_) | Token::License(_) => true,
        _ => white(t),
    }
}
fn white(t: &Token<'_>) -> bool {
    matches!(t, Token::Char(ReservedChar::Space | ReservedChar::Tab | ReservedChar::Backline))
}
/// the declared name and its value, if `pos` is a declaring keyword or a name that may be declared
fn declared(t: &[Token<'_>], pos: usize) -> Option<(usize, Option<usize>)> {
    if pos >= t.len() {
        return None;
    }
    let mut n = pos;
    match t[pos] {
        Token::Keyword(Keyword::Var | Keyword::Let) => {
            n += 1;
            while n < t.len() && gap(&t[n]) {
                n += 1;
            }
        }
        Token::Other(_) => {
            let mut p = pos;
            loop {
                if p == 0 {
                    return None;
                }
                p -= 1;
                if !gap(&t[p]) {
                    break;
                }
            }
            if !matches!(t[p], Token::Char(ReservedChar::Comma) | Token::Keyword(Keyword::Var | Keyword::Let)) {
                return None;
            }
        }
        _ => return None,
    }
    if n >= t.len() || !matches!(t[n], Token::Other(_)) {
        return None;
    }
    let mut e = n + 1;
    while e < t.len() && gap(&t[e]) {
        e += 1;
    }
    if e >= t.len() || !matches!(t[e], Token::Operation(Operation::Equal)) {
        return Some((n, None));
    }
    e += 1;
    while e < t.len() && gap(&t[e]) {
        e += 1;
    }
    if e < t.len() && matches!(t[e], Token::String(_) | Token::Other(_) | Token::Regex { .. } | Token::Number(_) | Token::FloatingNumber(_)) {
        Some((n, Some(e)))
    } else {
        Some((n, None))
    }
}
/// arg as for `text`
pub fn js_decl(arg: u64) {
    let s = text(arg);
    let Ok(t) = simple_minify(&s) else { return };
    log(s.as_bytes());
    for pos in 0..=t.len() {
        let want = declared(&t.0, pos);
        let got = get_variable_name_and_value_positions(&t, pos);
        match want {
            None => {}
            Some((_, None)) => reach(1),
            Some(_) => reach(2),
        }
        check(got == want, 1);
    }
    // beyond the end
    check(get_variable_name_and_value_positions(&t, t.len() + 1).is_none(), 2);
}
/// the replacement of a token, by one of six callbacks
fn replaced<'a>(m: usize, t: &Token<'a>) -> Option<Token<'a>> {
    match (m, t) {
        (0, Token::Other("a")) => Some(Token::Other("bb")),
        (1, Token::Keyword(_)) => Some(Token::Other("k")),
        (2, Token::String(s)) => Some(Token::CreatedVar(s.to_string())),
        (3, Token::Char(ReservedChar::SemiColon)) => Some(Token::Char(ReservedChar::Backline)),
        (4, Token::Number(n)) => Some(Token::Number(n / 2)),
        (5, _) => Some(Token::Other("x")),
        _ => None,
    }
}
fn kept(m: usize, t: &Token<'_>) -> bool {
    match m {
        0 => true,
        1 => false,
        2 => matches!(t, Token::Comment(_)),
        3 => matches!(t, Token::Char(ReservedChar::SemiColon)),
        4 => matches!(t, Token::Char(ReservedChar::Backline)),
        _ => !matches!(t, Token::Char(ReservedChar::Space)),
    }
}
/// arg = 10000 * callback + argument of `text`
pub fn js_replace(arg: u64) {
    let m = (arg / 10000) as usize;
    let s = text(arg % 10000);
    let Ok(t) = simple_minify(&s) else { return };
    let Ok(u) = simple_minify(&s) else { return };
    log(s.as_bytes());
    reach(1);
    let n = t.len();
    // single tokens
    for i in 0..n {
        let useful = match &t[i] {
            Token::Comment(_) => false,
            Token::Char(ReservedChar::SemiColon) => !(i + 1 < n && matches!(t[i + 1], Token::Char(ReservedChar::CloseCurlyBrace))),
            x => !white(x),
        };
        let next = if i + 1 < n { Some(&t[i + 1]) } else { None };
        check(clean_token(&t[i], &next) == useful, 1);
        // the predicate tells what may go
        let r = clean_token_except(&t[i], &next, &|x: &Token<'_>| kept(m, x));
        check(r == (useful || !kept(m, &t[i])), 2);
        if !useful {
            reach(2);
        }
    }
    // all tokens
    let r = replace_tokens_with(t, |x| replaced(m, x));
    check(r.len() == n, 4);
    let mut i = 0;
    for x in u {
        let want = match replaced(m, &x) {
            Some(y) => {
                reach(3);
                y
            }
            None => replace_token_with(x, &|_: &Token<'_>| None),
        };
        check(r[i] == want, 5);
        i += 1;
    }
    // one token
    for x in r {
        let y = replaced(m, &x);
        let z = replaced(m, &x);
        let w = replace_token_with(x, &|_: &Token<'_>| y.clone());
        if let Some(z) = z {
            check(w == z, 6);
        }
    }
}
const WORDS: &str = "break case catch const continue default do else false finally function for if in instanceof let new null private protected public return switch this throw true try typeof static var while";
const OPS: &str = "&& || != !== == === > >= < <= + += - -= * *= / /= % %= =";
fn listed(l: &str, w: &[u8]) -> bool {
    l.split(' ').any(|x| same(x.as_bytes(), w))
}
/// every accessor of a token agrees with its kind
fn accessors(t: &Token<'_>) {
    let mut k = [false; 12];
    let (mut s, mut o) = (None, None);
    let (mut c, mut w) = (None, None);
    let n = match t {
        Token::Keyword(x) => {
            w = Some(*x);
            0
        }
        Token::Char(x) => {
            c = Some(*x);
            1
        }
        Token::String(x) => {
            s = Some(*x);
            2
        }
        Token::Comment(_) => 3,
        Token::License(_) => 4,
        Token::Other(x) => {
            o = Some(*x);
            5
        }
        Token::Regex { .. } => 6,
        Token::Condition(x) => {
            check(t.eq_condition(*x), 20);
            7
        }
        Token::Operation(x) => {
            check(t.eq_operation(*x), 21);
            let d = x.to_string();
            check(x.is_assign() == d.ends_with('='), 22);
            8
        }
        Token::CreatedVarDecl(_) => 9,
        Token::CreatedVar(_) => 9,
        Token::Number(_) => 10,
        Token::FloatingNumber(_) => 11,
    };
    k[n] = true;
    let got = [
        t.is_keyword(),
        t.is_reserved_char(),
        t.is_string(),
        t.is_comment(),
        t.is_license(),
        t.is_other(),
        t.is_regex(),
        t.is_condition(),
        t.is_operation(),
        t.is_created_var() | t.is_created_var_decl(),
        t.is_number(),
        t.is_floating_number(),
    ];
    check(got == k, 23);
    check(t.get_string() == s, 24);
    check(t.get_other() == o, 25);
    check(t.get_char() == c, 26);
    check(t.get_keyword() == w, 27);
    check(t.is_white_character() == white(t), 28);
    check(t.eq_char(ReservedChar::SemiColon) == (c == Some(ReservedChar::SemiColon)), 29);
    check(t.eq_operation(Operation::Equal) == matches!(t, Token::Operation(Operation::Equal)), 30);
    check(t.eq_condition(Condition::EqualTo) == matches!(t, Token::Condition(Condition::EqualTo)), 31);
}
/// S11, arg as for `text`
pub fn js_kinds(arg: u64) {
    let s = text(arg);
    let x = lex(s.as_bytes());
    if x.bad {
        assume(false);
    }
    let Ok(t) = tokenize(&s) else {
        check(false, 1);
        return;
    };
    reach(1);
    let s = s.as_bytes();
    log(s);
    let mut j = 0;
    // what is left of a token that holds more than one of `x`
    let mut rest = String::new();
    for u in &x.t {
        let w = &s[u.a..u.b];
        // these characters do not end a word
        let part = |c: u8| c == b'^' || c == b'~' || c == b'@' || c == b'#' || c == b'\\';
        let joined = u.a > 0 && part(s[u.a - 1]) || u.b < s.len() && part(s[u.b]);
        if u.k == K::Ident && u.b < s.len() {
            // `in.5`
            assume(s[u.b] != b'.' || u.b + 1 >= s.len() || !s[u.b + 1].is_ascii_digit());
        }
        if rest.is_empty() {
            while j < t.len() && (matches!(t[j], Token::Comment(_)) || white(&t[j])) {
                accessors(&t[j]);
                j += 1;
            }
        }
        if rest.is_empty() && j >= t.len() {
            check(false, 2);
            return;
        }
        let whole = match u.k {
            K::Str | K::Template => {
                check(rest.is_empty() && t[j].is_string(), 3);
                reach(2);
                true
            }
            K::Regex => {
                // no expression starts after these
                assume(!x.t.iter().take_while(|v| v.a < u.a).filter(|v| v.k != K::License).last().is_some_and(|v| v.k == K::Punct && matches!(&s[v.a..v.b], b"." | b"?." | b"@")));
                check(rest.is_empty() && t[j].is_regex(), 4);
                reach(3);
                // the flags it knows
                let d = t[j].to_string();
                check(d.len() <= w.len() && d.len() > 1 && same(&d.as_bytes()[..2], &w[..2]), 34);
                accessors(&t[j]);
                if d.len() < w.len() {
                    let f = &w[d.len()..];
                    check(j + 1 < t.len() && t[j + 1].is_other(), 35);
                    j += 1;
                    accessors(&t[j]);
                    rest = t[j].to_string();
                    check(rest.len() >= f.len() && same(&rest.as_bytes()[..f.len()], f), 36);
                    rest.drain(..f.len());
                }
                j += 1;
                continue
            }
            K::License => {
                check(rest.is_empty() && t[j].is_license(), 5);
                reach(4);
                true
            }
            K::Ident => {
                let k = !joined && listed(WORDS, w);
                if k {
                    check(rest.is_empty() && t[j].is_keyword(), 6);
                    reach(5);
                } else {
                    check(!rest.is_empty() || matches!(t[j], Token::Other(_) | Token::Char(_)), 7);
                }
                k
            }
            K::Num => {
                let digits = !joined && w.len() < 19 && w.iter().all(|c| c.is_ascii_digit()) && (w.len() == 1 || w[0] != b'0');
                if digits {
                    check(rest.is_empty() && matches!(t[j], Token::Number(_)), 8);
                    reach(6);
                }
                digits
            }
            K::Punct => {
                // `>=` in `=>=`
                let o = listed(OPS, w) && (u.a == 0 || x.t.iter().all(|v| v.k != K::Punct || v.b != u.a || v.b - v.a == 1));
                if o {
                    check(rest.is_empty() && matches!(t[j], Token::Condition(_) | Token::Operation(_)), 9);
                    reach(7);
                } else {
                    check(!rest.is_empty() || matches!(t[j], Token::Char(_) | Token::Condition(_) | Token::Operation(_) | Token::Other(_)), 10);
                }
                o
            }
        };
        if whole {
            accessors(&t[j]);
            let d = t[j].to_string();
            check(same(d.as_bytes(), w), 11);
            j += 1;
            continue;
        }
        // one or more tokens, the last one perhaps in part
        let mut w = w;
        while !w.is_empty() {
            if rest.is_empty() {
                if j >= t.len() {
                    check(false, 12);
                    return;
                }
                accessors(&t[j]);
                rest = t[j].to_string();
                let number = matches!(t[j], Token::Number(_) | Token::FloatingNumber(_));
                check(!number || u.k == K::Num && rest.len() <= w.len(), 13);
                check(!matches!(t[j], Token::Keyword(_) | Token::String(_) | Token::Regex { .. } | Token::License(_) | Token::Comment(_)), 14);
                j += 1;
            }
            let n = if rest.len() < w.len() { rest.len() } else { w.len() };
            check(same(&rest.as_bytes()[..n], &w[..n]), 15);
            w = &w[n..];
            rest.drain(..n);
        }
    }
    check(rest.is_empty(), 16);
    for i in j..t.len() {
        accessors(&t[i]);
        check(matches!(t[i], Token::Comment(_)) || white(&t[i]), 17);
    }
}
