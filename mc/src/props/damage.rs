//! C16: damaged files.  A strict reader of journals, written apart from the parser of dinero,
//! classifies every file of the space: meaning known, certainly wrong, or not decided (then the
//! commands only have to agree, and no posting may disappear).

use super::*;
use num::{Signed, Zero};
use std::collections::BTreeMap;

pub enum Reading {
    /// the journal it means
    Known(Journal),
    /// cannot be accepted
    Wrong(String),
    /// accounts that must be known to whoever accepts the file
    Open(Vec<String>),
}

enum F {
    Wrong(String),
    Open,
}
fn wrong<T>(s: &str) -> Result<T, F> {
    Err(F::Wrong(s.to_string()))
}

fn ascii_date(s: &str) -> Result<Date, F> {
    let sep = match s.chars().find(|c| !c.is_ascii_digit()) {
        Some(c) if "-/.".contains(c) => c,
        _ => return wrong("date separator"),
    };
    let f: Vec<&str> = s.split(|c| "-/.".contains(c)).collect();
    if f.len() != 3 || f.iter().any(|x| x.is_empty()) {
        return wrong("date");
    }
    if s.matches(sep).count() != 2 {
        return wrong("two separators in a date");
    }
    if f[0].len() != 4 || f[1].len() > 2 || f[2].len() > 2 {
        // 020-01-01, 2020-001-01: leave it to the program
        return Err(F::Open);
    }
    let d = (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap());
    if !valid(d) {
        return wrong("not a date");
    }
    Ok(d)
}
fn is_date_char(c: char) -> bool {
    c.is_ascii_digit() || "-/.".contains(c)
}
fn plain_word(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == ':') && !s.starts_with(' ') && !s.ends_with(' ') && !s.contains("  ")
}
fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

/// number and commodity, in either order; the rest of the text
fn money(s: &str) -> Result<(Amt, &str), F> {
    let s = s.trim_start_matches(is_blank);
    if !s.chars().any(|c| c.is_numeric()) {
        return wrong("an amount without digits");
    }
    let number = |s: &str| -> Result<(String, usize), F> {
        let n = s.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).unwrap_or(s.len());
        let x = &s[..n];
        if s[n..].starts_with(|c: char| c.is_numeric()) {
            return Err(F::Open);
        }
        if x.is_empty() {
            return Err(F::Open);
        }
        if x.matches('.').count() > 1 || x[1..].contains('-') || !x.chars().any(|c| c.is_ascii_digit()) {
            return wrong("a wrong number");
        }
        if x.starts_with('.') || x.ends_with('.') || x.starts_with("-.") {
            return Err(F::Open);
        }
        Ok((x.to_string(), n))
    };
    let name = |s: &str| -> Result<(String, usize), F> {
        if s.starts_with('"') {
            return match s[1..].find('"') {
                Some(k) if plain_word(&s[1..1 + k]) => Ok((s[1..1 + k].to_string(), k + 2)),
                Some(_) => Err(F::Open),
                None => wrong("a quote without end"),
            };
        }
        let n = s.find(|c: char| !(c.is_ascii_alphabetic() || "$€".contains(c))).unwrap_or(s.len());
        if n == 0 {
            return Err(F::Open);
        }
        if let Some(c) = s[n..].chars().next() {
            // what else could belong to the name
            if !(is_blank(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ';') {
                return Err(F::Open);
            }
        }
        Ok((s[..n].to_string(), n))
    };
    if s.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.') {
        let (lit, n) = number(s)?;
        let rest = s[n..].trim_start_matches(is_blank);
        let (c, k) = name(rest)?;
        Ok((am(&lit, &c), &rest[k..]))
    } else {
        let (c, k) = name(s)?;
        let rest = s[k..].trim_start_matches(is_blank);
        let (lit, n) = number(rest)?;
        Ok((am(&lit, &c), &rest[n..]))
    }
}

fn account_text(line: &str) -> (&str, &str) {
    // up to two blanks or a tab
    let b: Vec<(usize, char)> = line.char_indices().collect();
    for (k, (i, c)) in b.iter().enumerate() {
        if *c == '\t' {
            return (&line[..*i], &line[i + 1..]);
        }
        if c.is_whitespace() {
            match b.get(k + 1) {
                None => return (&line[..*i], ""),
                Some((j, d)) if d.is_whitespace() => return (&line[..*i], &line[*j..]),
                _ => {}
            }
        }
    }
    (line, "")
}

fn posting(line: &str, accounts: &mut Vec<String>) -> Result<Post, F> {
    let (acc, rest) = account_text(line);
    let mut kind = Kind::Real;
    let mut name = acc;
    for (k, a, b) in [(Kind::Virt, '(', ')'), (Kind::Brac, '[', ']')] {
        if acc.starts_with(a) {
            if !acc.ends_with(b) {
                return wrong("brackets of a virtual account");
            }
            kind = k;
            name = &acc[1..acc.len() - 1];
        }
    }
    if name.is_empty() {
        return Err(F::Open);
    }
    accounts.push(name.trim().to_string());
    let mut p = el(name);
    p.kind = kind;
    let mut rest = rest.trim_start_matches(is_blank);
    if rest.starts_with('(') {
        return wrong("a value expression as amount");
    }
    if !rest.is_empty() && !rest.starts_with(|c| ";@=".contains(c)) {
        let (a, r) = money(rest)?;
        p.amt = Some(a);
        rest = r.trim_start_matches(is_blank);
    }
    while !rest.is_empty() {
        if rest.starts_with(';') {
            p.inline = Some(rest[1..].to_string());
            break;
        }
        if rest.starts_with('@') {
            if p.amt.is_none() {
                return wrong("a cost without amount");
            }
            if p.cost.is_some() {
                return wrong("two costs");
            }
            let total = rest.starts_with("@@");
            let (a, r) = money(&rest[if total { 2 } else { 1 }..])?;
            if a.q().is_zero() || a.q().is_negative() {
                return Err(F::Open);
            }
            p.cost = Some((total, a));
            rest = r.trim_start_matches(is_blank);
        } else if rest.starts_with('=') {
            if p.bal.is_some() {
                return wrong("two balances");
            }
            let (a, r) = money(&rest[1..])?;
            p.bal = Some(a);
            rest = r.trim_start_matches(is_blank);
        } else {
            // whatever comes after the amount
            if p.amt.is_some() {
                return wrong("something after the amount");
            }
            return Err(F::Open);
        }
    }
    if !plain_word(name) || name.starts_with(|c: char| c.is_ascii_digit()) || name.split(':').any(|x| x.trim() != x || x.is_empty()) {
        return Err(F::Open);
    }
    if name.to_lowercase().ends_with("unknown") {
        return Err(F::Open);
    }
    if let (Some(a), Some(_)) = (&p.amt, &p.cost) {
        if a.q().is_zero() {
            return Err(F::Open);
        }
    }
    Ok(p)
}

fn header(line: &str) -> Result<Txn, F> {
    let n = line.find(|c: char| !is_date_char(c)).unwrap_or(line.len());
    let date = ascii_date(&line[..n])?;
    let rest = &line[n..];
    if rest.is_empty() {
        return Err(F::Open);
    }
    if !rest.starts_with(is_blank) {
        if rest.starts_with('=') {
            return Err(F::Open);
        }
        return wrong("no blank after the date");
    }
    let mut t = tx(date, "", vec![]);
    let (mut body, comment) = match rest.find(';') {
        Some(k) => (&rest[..k], Some(rest[k + 1..].to_string())),
        None => (rest, None),
    };
    t.hdr = comment;
    body = body.trim_matches(is_blank);
    if body.starts_with("* ") || body.starts_with("! ") {
        t.mark = body[..1].to_string();
        body = body[2..].trim_start_matches(is_blank);
    }
    let mut it = body.splitn(2, '|');
    let desc = it.next().unwrap().trim_matches(is_blank);
    if !plain_word(desc) {
        return Err(F::Open);
    }
    // could be a time
    if desc.contains(':') {
        return Err(F::Open);
    }
    t.desc = desc.to_string();
    if let Some(p) = it.next() {
        let p = p.trim_matches(is_blank);
        if !plain_word(p) {
            return Err(F::Open);
        }
        t.payee = Some(p.to_string());
    }
    Ok(t)
}

fn word_and_rest(s: &str) -> (&str, &str) {
    let n = s.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(s.len());
    (&s[..n], &s[n..])
}

/// The strict reader
pub fn read(text: &str) -> Reading {
    let mut j: Journal = vec![];
    let mut open = false;
    let mut bad: Option<String> = None;
    let mut accounts: Vec<String> = vec![];
    // what an indented line belongs to
    #[derive(PartialEq, Clone, Copy)]
    enum B {
        None,
        Txn,
        Auto,
        Account,
        Commodity,
        Payee,
        Tag,
    }
    let mut block = B::None;
    let text = text.replace("\r\n", "\n");
    let note = |r: F, open: &mut bool, bad: &mut Option<String>| match r {
        F::Open => *open = true,
        F::Wrong(s) => {
            bad.get_or_insert(s);
        }
    };
    for line in text.split('\n') {
        if line.trim().is_empty() {
            continue;
        }
        if line.contains('\r') || line.contains(|c: char| c.is_whitespace() && c != ' ' && c != '\t') {
            open = true;
        }
        let first = line.chars().next().unwrap();
        if first.is_whitespace() {
            let s = line.trim();
            if s.starts_with(';') && block != B::None {
                // comments can carry tags, which only matter to queries
                if let (B::Txn, Some(Item::Txn(t))) = (block, j.last_mut()) {
                    match t.posts.last_mut() {
                        Some(p) => p.after.push(s[1..].to_string()),
                        None => t.pre.push(s[1..].to_string()),
                    }
                }
                continue;
            }
            let inner = line.trim_start();
            match block {
                B::None => {
                    bad.get_or_insert("indentation without anything before".to_string());
                }
                B::Txn => {
                    if inner.starts_with(|c: char| c.is_numeric()) {
                        open = true;
                    }
                    match posting(inner, &mut accounts) {
                        Ok(p) => {
                            if let Some(Item::Txn(t)) = j.last_mut() {
                                t.posts.push(p);
                            }
                        }
                        Err(e) => note(e, &mut open, &mut bad),
                    }
                }
                B::Auto => open = true,
                B::Account | B::Commodity | B::Payee | B::Tag => {
                    let (w, rest) = word_and_rest(s);
                    let allowed: &[&str] = match block {
                        B::Account => &["note", "isin", "alias", "check", "assert", "payee", "default"],
                        B::Commodity => &["note", "alias", "format", "default"],
                        B::Payee => &["alias"],
                        _ => &["check", "assert"],
                    };
                    if s.starts_with('"') || (!rest.is_empty() && !rest.starts_with(is_blank)) {
                        // "note", note5: up to the program
                        open = true;
                        continue;
                    }
                    if !allowed.contains(&w) {
                        bad.get_or_insert(format!("unknown property {}", w));
                        continue;
                    }
                    let value = rest.trim();
                    match (j.last_mut(), w) {
                        (Some(Item::Account { aliases, .. }), "alias")
                        | (Some(Item::Commodity { aliases, .. }), "alias")
                        | (Some(Item::Payee { aliases, .. }), "alias") => {
                            if !plain_word(value) || value.contains(' ') {
                                open = true;
                            }
                            aliases.push(value.to_string());
                        }
                        (Some(Item::Account { payees, .. }), "payee") => {
                            if !plain_word(value) {
                                open = true;
                            }
                            payees.push(value.to_string());
                        }
                        (_, "default") if !value.is_empty() => open = true,
                        _ => {}
                    }
                }
            }
            continue;
        }
        block = B::None;
        if ";!*%#".contains(first) {
            continue;
        }
        if first.is_ascii_digit() {
            block = B::Txn;
            match header(line) {
                Ok(t) => j.push(Item::Txn(t)),
                Err(e) => {
                    note(e, &mut open, &mut bad);
                    // keep reading, to know the accounts
                    j.push(Item::Txn(tx(day(0), "?", vec![])));
                }
            }
            continue;
        }
        if first == '=' {
            block = B::Auto;
            open = true;
            continue;
        }
        let (w, rest) = word_and_rest(line);
        if !["include", "commodity", "payee", "tag", "account", "P"].contains(&w) || rest.is_empty() {
            bad.get_or_insert(format!("unknown directive {:?}", line));
            continue;
        }
        if w == "P" {
            if !rest.starts_with(is_blank) {
                if !rest.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
                    bad.get_or_insert("price directive".to_string());
                }
                open = true;
                continue;
            }
            match price(rest.trim_matches(is_blank)) {
                Ok(x) => j.push(x),
                Err(e) => note(e, &mut open, &mut bad),
            }
            continue;
        }
        if !rest.starts_with(' ') {
            if !rest.starts_with('\t') {
                bad.get_or_insert(format!("unknown directive {:?}", line));
            }
            open = true;
        }
        let name = rest.trim_matches(is_blank).to_string();
        if name.is_empty() && w == "commodity" {
            bad.get_or_insert("a commodity without name".to_string());
        }
        if !plain_word(&name) || name.to_lowercase().ends_with("unknown") {
            open = true;
        }
        match w {
            "include" => open = true,
            "tag" => {
                block = B::Tag;
                j.push(Item::Tag { name });
            }
            "account" => {
                block = B::Account;
                j.push(Item::Account { name, aliases: vec![], payees: vec![], extra: vec![] });
            }
            "commodity" => {
                block = B::Commodity;
                if name.contains(' ') && !name.contains(';') && !name.contains(|c| c == '"' || c == '\'') {
                    // unquoted, so it cannot have blanks
                    bad.get_or_insert("a commodity with blanks".to_string());
                }
                if name.contains(|c: char| !c.is_ascii_alphabetic()) {
                    open = true;
                }
                j.push(Item::Commodity { name, aliases: vec![], extra: vec![] });
            }
            _ => {
                block = B::Payee;
                j.push(Item::Payee { name, aliases: vec![] });
            }
        }
    }
    if let Some(why) = bad {
        // a file that is wrong for sure somewhere is wrong, whatever the rest
        return Reading::Wrong(why);
    }
    if open || ambiguous(&j) {
        return Reading::Open(accounts);
    }
    Reading::Known(j)
}

fn price(s: &str) -> Result<Item, F> {
    let n = s.find(|c: char| !is_date_char(c)).unwrap_or(s.len());
    if n == 0 {
        return wrong("a price without date");
    }
    if s.starts_with('-') {
        // years before our era
        return Err(F::Open);
    }
    let date = ascii_date(&s[..n])?;
    let rest = &s[n..];
    if !rest.starts_with(is_blank) {
        return Err(F::Open);
    }
    let rest = rest.trim_start_matches(is_blank);
    let k = rest.find(is_blank).unwrap_or(rest.len());
    let com = &rest[..k];
    if com.is_empty() || !com.chars().all(|c| c.is_ascii_alphabetic() || "$€".contains(c)) {
        return Err(F::Open);
    }
    let rest = rest[k..].trim_start_matches(is_blank);
    if rest.is_empty() {
        return wrong("a price without amount");
    }
    if !rest.starts_with(|c: char| c.is_ascii_digit()) {
        return Err(F::Open);
    }
    // odd names of commodities are up to the program
    let (a, r) = match money(rest) {
        Ok(x) => x,
        Err(_) => return Err(F::Open),
    };
    let r = r.trim_start_matches(is_blank);
    if !r.is_empty() && !r.starts_with(';') {
        return Err(F::Open);
    }
    if a.q().is_zero() {
        return Err(F::Open);
    }
    Ok(Item::Price { date, com: com.to_string(), amt: a })
}

/// Names that differ only in case, aliases that clash: which one is shown is not stated
fn ambiguous(j: &[Item]) -> bool {
    let mut seen: [BTreeMap<String, String>; 3] = Default::default();
    let mut clash = false;
    let mut many = false;
    let mut declared: [BTreeMap<String, usize>; 3] = Default::default();
    {
        let mut put = |k: usize, s: &str| {
            let low = s.to_lowercase();
            if let Some(o) = seen[k].get(&low) {
                if o != s {
                    clash = true;
                }
            }
            seen[k].insert(low, s.to_string());
        };
        let mut decl = |k: usize, s: &str| {
            *declared[k].entry(s.to_lowercase()).or_insert(0) += 1;
        };
        for it in j {
            match it {
                Item::Txn(t) => {
                    put(1, t.payee.as_ref().unwrap_or(&t.desc));
                    for p in &t.posts {
                        put(0, &p.acc);
                        for a in p.amt.iter().chain(p.bal.iter()).chain(p.cost.iter().map(|x| &x.1)) {
                            put(2, &a.c);
                        }
                    }
                }
                Item::Price { com, amt, .. } => {
                    put(2, com);
                    put(2, &amt.c);
                }
                Item::Commodity { name, aliases, .. } => {
                    decl(2, name);
                    aliases.iter().for_each(|x| decl(2, x));
                }
                Item::Account { name, aliases, payees, .. } => {
                    decl(0, name);
                    aliases.iter().for_each(|x| decl(0, x));
                    many |= payees.len() > 1;
                }
                Item::Payee { name, aliases } => {
                    decl(1, name);
                    aliases.iter().for_each(|x| decl(1, x));
                }
                _ => {}
            }
        }
    }
    clash || many || declared.iter().any(|m| m.values().any(|n| *n > 1))
}

/// Everything C16 asks about one file
pub fn judge_text(env: &mut Env, t: &str) -> R {
    let f = env.write("j.ledger", t);
    match read(t) {
        Reading::Known(j) => match ledger(&j, false) {
            Ok(l) => expect_meaning(env, &f, &l, CHECK | BAL | REG | LISTS | PRICES, &[]),
            Err(why) => expect_rejected(env, &f, ALL, &why, &[]),
        },
        Reading::Wrong(why) => expect_rejected(env, &f, ALL, &why, &[]),
        Reading::Open(accounts) => agree(env, &f, &accounts),
    }
}
/// All the commands accept it or none does
pub fn agree(env: &mut Env, f: &str, accounts: &[String]) -> R {
    let o = env.run(&["check", "-f", f]);
    if !o.ok() {
        if !o.refused() {
            return Err(format!("check ends with {:?}", o.status));
        }
        no_figures("check", &o)?;
        return expect_rejected(env, f, BAL | REG | LISTS | PRICES, "check rejects it", &[]);
    }
    let mut listed = String::new();
    for cmd in ["balance", "register", "accounts", "payees", "commodities", "prices"] {
        let o = env.run(&[cmd, "-f", f]);
        must_ok(cmd, &o).map_err(|e| format!("check accepts the file: {}", e))?;
        if cmd == "accounts" {
            listed = o.stdout;
        }
    }
    let o = env.run(&["bal", "--flat", "-X", "EUR", "-f", f]);
    must_ok("bal -X", &o).map_err(|e| format!("check accepts the file: {}", e))?;
    let o = env.run(&["reg", "--real", "-f", f]);
    must_ok("reg --real", &o).map_err(|e| format!("check accepts the file: {}", e))?;
    let low = listed.to_lowercase();
    let names: Vec<&str> = low.lines().map(|x| x.trim()).collect();
    for a in accounts {
        let a = a.to_lowercase();
        if !names.contains(&a.as_str()) && !ALIASES.contains(&a.as_str()) {
            return Err(format!("accepted, and the account {:?} is nowhere", a));
        }
    }
    Ok(())
}
/// aliases of the base journals
const ALIASES: [&str; 2] = ["cash", "c"];

// ------------------------------------------------------------------ spaces

const BASES: [&str; 6] = [
    "2020-01-05 * Shop  ; note\n    Aa  12.5 EUR\n    (Vi)  -3 STK @ 2 EUR\n    Bb Cc\n",
    "P 2020-01-01 USD 0.9 EUR\n2020-01-02 x | Pay\n    A:B  $4 @@ 8 EUR = 4 $\n    [C]  1 EUR\n    [D]  -1 EUR\n    Z  -8 EUR\n",
    "account Assets\n    alias cash\n    note n\n\ncommodity EUR\n    alias e\n\npayee Shop\n    alias sh\n2020-01-05 sh\n    cash  1 EUR\n    B\n",
    "; first\n2020-02-29 one\n    A  1 EUR\n    B  -1 EUR\n\n2020-01-01 two\n    ; :t:\n    A  = 5 EUR  ; x: y\n    B\n# end\n",
    "= /Exp/\n    (Bud)  -1\n    (Tax)  2 EUR\n    (Sum)  (amount * 2)\n2020-01-01 x\n    Exp  3 EUR\n    Z\n",
    "tag one\n    check x\n2020-01-01 \"a b\"\n    A  \"big co\" 2.50\n    A  2 \"big co\"\n    B  -4.5 \"big co\"\n",
];
const ALPHABET: [char; 26] = [
    ' ', '\n', '\t', '-', '.', ';', '@', '=', '"', '(', ')', '[', ']', '0', '7', 'x', 'E', '|', '*', '/', ':', '$', '\'', '%', 'é', ',',
];

/// every insertion, deletion and replacement of one character
fn c16_edit(ch: &mut Ch) -> Option<Case> {
    let b: Vec<char> = BASES[ch.pick(BASES.len())].chars().collect();
    let n = ch.qt(14, ALPHABET.len());
    let t = edit(ch, &b, n)?;
    case(t.clone(), move |env| judge_text(env, &t))
}
fn edit(ch: &mut Ch, b: &[char], n: usize) -> Option<String> {
    let at = ch.pick(b.len() + 1);
    let how = ch.pick(3);
    let mut v = b.to_vec();
    match how {
        0 => {
            if at == b.len() {
                return None;
            }
            v.remove(at);
        }
        1 => v.insert(at, ALPHABET[ch.pick(n)]),
        _ => {
            if at == b.len() {
                return None;
            }
            let c = ALPHABET[ch.pick(n)];
            if v[at] == c {
                return None;
            }
            v[at] = c;
        }
    }
    Some(v.into_iter().collect())
}
/// the file ends anywhere, or starts anywhere
fn c16_cut(ch: &mut Ch) -> Option<Case> {
    let b: Vec<char> = BASES[ch.pick(BASES.len())].chars().collect();
    let at = ch.pick(b.len() + 1);
    let t: String = if ch.flag() { b[..at].iter().collect() } else { b[at..].iter().collect() };
    let t = if ch.flag() { t.replace('\n', "\r\n") } else { t };
    case(t.clone(), move |env| judge_text(env, &t))
}
/// lines dropped, repeated, exchanged, indented, brought to the margin, glued
fn c16_lines(ch: &mut Ch) -> Option<Case> {
    let base = BASES[ch.pick(BASES.len())];
    let mut l: Vec<String> = base.lines().map(|x| x.to_string()).collect();
    let i = ch.pick(l.len());
    match ch.pick(8) {
        0 => {
            l.remove(i);
        }
        1 => l.insert(i, l[i].clone()),
        2 => {
            let k = ch.pick(l.len());
            if k <= i {
                return None;
            }
            l.swap(i, k);
        }
        3 => l[i] = format!("    {}", l[i]),
        4 => l[i] = l[i].trim_start().to_string(),
        5 => l.insert(i, ch.of(&["", "; c", "    ; c", "nonsense", "    ", "x", "include none", "account", "P", "2020-01-01", "~ Monthly", "apply tag x", "end", "comment", "bucket A", "Y 2020", "N EUR", "D 1000.00 EUR", "A Assets"]).to_string()),
        6 => {
            let k = ch.pick(l.len());
            let x = l.remove(i);
            l.insert(k.min(l.len()), x);
        }
        _ => {
            if i + 1 == l.len() {
                return None;
            }
            let x = l.remove(i + 1);
            let g = ch.of(&["", " ", "  "]);
            l[i] = format!("{}{}{}", l[i], g, x.trim());
        }
    }
    let t: String = l.iter().map(|x| format!("{}\n", x)).collect();
    case(t.clone(), move |env| judge_text(env, &t))
}
const PIECES: [&str; 15] = ["5", "-", ".", " ", "EUR", "@", "=", "\"", ";", "(", ")", "\n    B", "x", "  ", "\t"];
/// every sequence of pieces after an account
fn c16_tail(ch: &mut Ch) -> Option<Case> {
    let n = ch.qt(3, 4);
    let mut tail = String::new();
    for _ in 0..n {
        // sequences of every length: the last choice is to stop
        match ch.pick(PIECES.len() + 1) {
            0 => break,
            k => tail.push_str(PIECES[k - 1]),
        }
    }
    let pre = ch.of(&["  ", "  5 EUR", "  5 "]);
    let t = format!("2020-01-01 x\n    A{}{}\n    Z\n", pre, tail);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// every sequence of pieces as amount, with another posting that cannot balance everything
fn c16_amount(ch: &mut Ch) -> Option<Case> {
    let pieces = ["1", "-", ".", " ", "E", "@ ", "= ", "\"", "2"];
    let n = ch.qt(4, 6);
    let mut tail = String::new();
    for _ in 0..n {
        match ch.pick(pieces.len() + 1) {
            0 => break,
            k => tail.push_str(pieces[k - 1]),
        }
    }
    let t = format!("2020-01-01 x\n    A  {}\n    Z\n", tail);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// every sequence of whole clauses after the account
fn c16_clauses(ch: &mut Ch) -> Option<Case> {
    let clauses = ["5 EUR", "3 STK", "@ 2 USD", "@@ 9 USD", "= 5 EUR", "= 6 STK", "(5 EUR)", "; = 7 EUR"];
    let n = ch.qt(4, 5);
    let mut tail = String::new();
    for _ in 0..n {
        match ch.pick(clauses.len() + 1) {
            0 => break,
            k => {
                tail.push_str("  ");
                tail.push_str(clauses[k - 1]);
            }
        }
    }
    let t = format!("2020-01-01 x\n    A{}\n    Z\n", tail);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// A value expression made of + - * ( ) 2 and amount; None if it is something else
struct Expr<'a>(&'a [&'a str], usize);
impl Expr<'_> {
    fn peek(&mut self) -> &str {
        while self.1 < self.0.len() && self.0[self.1] == " " {
            self.1 += 1;
        }
        self.0.get(self.1).copied().unwrap_or("")
    }
    fn sum(&mut self) -> Option<E> {
        let mut a = self.product()?;
        while self.peek() == "-" {
            self.1 += 1;
            a = bin(Op::Sub, a, self.product()?);
        }
        Some(a)
    }
    fn product(&mut self) -> Option<E> {
        let mut a = self.primary()?;
        while self.peek() == "*" {
            self.1 += 1;
            a = bin(Op::Mul, a, self.primary()?);
        }
        Some(a)
    }
    fn primary(&mut self) -> Option<E> {
        let x = self.peek().to_string();
        self.1 += 1;
        match x.as_str() {
            "(" => {
                let a = self.sum()?;
                let close = self.peek() == ")";
                self.1 += 1;
                close.then(|| a)
            }
            "-" => Some(E::Neg(Box::new(self.primary()?))),
            "2" => {
                let mut s = x;
                while self.0.get(self.1) == Some(&"2") {
                    s.push('2');
                    self.1 += 1;
                }
                Some(E::Num(s))
            }
            "amount" => Some(E::Amount),
            _ => None,
        }
    }
}
/// is it an amount of money (true) or a number (false)? None: neither
fn is_money(e: &E) -> Option<bool> {
    Some(match e {
        E::Amount => true,
        E::Neg(a) => is_money(a)?,
        E::Bin(Op::Mul, a, b) => match (is_money(a)?, is_money(b)?) {
            (true, true) => return None,
            (x, y) => x || y,
        },
        E::Bin(_, a, b) => {
            let (x, y) = (is_money(a)?, is_money(b)?);
            if x != y {
                return None;
            }
            x
        }
        _ => false,
    })
}
/// every sequence of pieces as the amount of an automated posting
fn c16_auto(ch: &mut Ch) -> Option<Case> {
    let pieces = ["(", ")", "amount", "*", "2", "-", "EUR", " "];
    let n = ch.qt(5, 6);
    let mut v: Vec<&str> = vec![];
    for _ in 0..n {
        match ch.pick(pieces.len() + 1) {
            0 => break,
            // nothing is looked for between two blanks, or before one
            8 if v.last().map_or(true, |x| *x == " ") => return None,
            k => v.push(pieces[k - 1]),
        }
    }
    let end = ch.of(&["\n", "", "  ; c\n"]);
    let s = v.concat();
    let inside: Vec<&str> = v.iter().filter(|x| **x != " ").copied().collect();
    // (2 EUR) is an amount, EUR2 too, and an expression can have other words
    let words = |x: &str| x == "EUR" || x == "amount";
    let open = inside.windows(2).any(|w| (words(w[0]) && (words(w[1]) || w[1] == "2" || w[1] == "*")) || (w[0] == "2" && words(w[1])))
        || (words(inside.first().copied().unwrap_or("")) || inside.contains(&"EUR"));
    let t = |a: &str| format!("2020-01-01 x\n    A  7 EUR\n    Z  -7 EUR\n\n= /^A$/\n    (Auto)  {}{}", a, end);
    let text = t(&s);
    if !s.starts_with('(') {
        // an amount, perhaps (a commodity can have a strange name), but not with an expression
        let number = s.trim_start_matches('2').trim_start_matches(' ');
        let both = ["-(", "- (", "EUR (", "-EUR ("].iter().any(|x| s.starts_with(x)) || (number.starts_with("EUR (") && s.starts_with('2'));
        if !both {
            return case(text.clone(), move |env| {
                let f = env.write("j.ledger", &text);
                agree(env, &f, &["Auto".to_string()])
            });
        }
        return case(text.clone(), move |env| {
            let f = env.write("j.ledger", &text);
            expect_rejected(env, &f, ALL, "an amount and an expression", &[])
        });
    }
    let mut e = Expr(&v, 0);
    let parsed = e.primary();
    let whole = e.peek().is_empty();
    match parsed {
        Some(x) if whole => {
            let _ = is_money(&x)?;
            if open && v.contains(&"EUR") {
                return None;
            }
            let j = vec![
                Item::Txn(tx((2020, 1, 1), "x", vec![po("A", "7", "EUR"), po("Z", "-7", "EUR")])),
                Item::Auto(Auto {
                    text: "/^A$/".into(),
                    pred: acc_re("^A$"),
                    comments: vec![],
                    posts: vec![AutoPost { kind: Kind::Virt, acc: "Auto".into(), amt: AutoAmt::Written(s, x) }],
                }),
            ];
            let l = ledger(&j, false).ok()?;
            case(text.clone(), move |env| {
                let f = env.write("j.ledger", &text);
                expect_meaning(env, &f, &l, CHECK | BAL | REG | LISTS, &[])
            })
        }
        // an expression and something else, or not an expression
        _ if open && parsed.is_none() => case(text.clone(), move |env| {
            let f = env.write("j.ledger", &text);
            agree(env, &f, &[])
        }),
        _ => case(text.clone(), move |env| {
            let f = env.write("j.ledger", &text);
            expect_rejected(env, &f, ALL, "the expression is not the whole amount", &[])
        }),
    }
}
/// every sequence of pieces in the first line of a transaction
fn c16_head(ch: &mut Ch) -> Option<Case> {
    let pieces = ["2020-01-01", " ", "2", "-", "/", "*", "(", "\"a\"", "'b'", ")", "|", ";", "x", "=", "10:30:00", "\n"];
    let n = ch.qt(3, 4);
    let mut head = ch.of(&["2020-01-01", "2020-01-01 ", ""]).to_string();
    for _ in 0..n {
        match ch.pick(pieces.len() + 1) {
            0 => break,
            k => head.push_str(pieces[k - 1]),
        }
    }
    let t = format!("{}\n    A  1 EUR\n    Z\n", head);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// every short line at the margin
fn c16_margin(ch: &mut Ch) -> Option<Case> {
    let mut line = String::new();
    let words = ["account", "commodity", "payee", "tag", "include", "P", "=", ";", "a", "p", "c", "t", "i", "~", "#", "%", "*", "!", "2020-01-01", " ", "X", "EUR", "5", "apply", "end", "bucket", "alias", "Ñ", "assert", "D", "N", "Y", "\""];
    let n = ch.qt(2, 3);
    for _ in 0..n {
        match ch.pick(words.len() + 1) {
            0 => break,
            k => line.push_str(words[k - 1]),
        }
    }
    let after = ch.of(&["", "    alias q\n", "    A  1 EUR\n    A  -1 EUR\n"]);
    let t = format!("{}\n{}2020-01-03 y\n    A  1 EUR\n    Z\n", line, after);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// lines inside the directives
fn c16_inside(ch: &mut Ch) -> Option<Case> {
    let head = ch.of(&["account Xx", "commodity XX", "payee Xx", "tag xx", "= /A/", "2020-01-01 x", "P 2020-01-01 XX 5 YY", "; c", "include none"]);
    let words = ["alias", "note", "format", "default", "isin", "check", "assert", "payee", "nonsense", ";", " ", "x", "5", "aliases", "(", "[", "\"", "=", "@", "B", "  1 EUR", "*"];
    let n = ch.qt(2, 3);
    let mut line = String::from("    ");
    for _ in 0..n {
        match ch.pick(words.len() + 1) {
            0 => break,
            k => line.push_str(words[k - 1]),
        }
    }
    let t = format!("{}\n{}\n2020-01-03 y\n    A  1 EUR\n    Z\n", head, line);
    case(t.clone(), move |env| judge_text(env, &t))
}
/// two edits at once, on something small
fn c16_two(ch: &mut Ch) -> Option<Case> {
    let bases = ["2020-01-01 x\n A  1 E\n B\n", "2020-01-01 x\n (A)  1 E\n", "P 2020-01-01 A 1 B\n"];
    let b: Vec<char> = bases[ch.pick(bases.len())].chars().collect();
    let t = edit(ch, &b, 7)?;
    let b: Vec<char> = t.chars().collect();
    let t = edit(ch, &b, 7)?;
    case(t.clone(), move |env| judge_text(env, &t))
}
/// what is not text, or not there
fn c16_files(ch: &mut Ch) -> Option<Case> {
    let k = ch.pick(9);
    let how = ch.pick(3);
    case(format!("odd file {} {}", k, how), move |env| {
        let good = "2020-01-01 x\n    A  1 EUR\n    Z\n";
        env.write("j.ledger", good);
        let dir = env.dir.clone();
        let path = dir.join("odd");
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&path);
        let bytes: Option<Vec<u8>> = match k {
            0 => None,
            1 => {
                std::fs::create_dir(&path).unwrap();
                None
            }
            2 => Some(vec![]),
            3 => Some(vec![0xff, 0xfe, 0x41, 0x00]),
            4 => Some([good.as_bytes(), &[0xc3, 0x28, b'\n']].concat()),
            5 => Some([&[0xef, 0xbb, 0xbf], good.as_bytes()].concat()),
            6 => Some([good.as_bytes(), &[0]].concat()),
            7 => Some("\n \n\t\n\r\n".as_bytes().to_vec()),
            _ => Some([good.as_bytes(), &[0xe2, 0x82]].concat()),
        };
        if let Some(b) = &bytes {
            std::fs::write(&path, b).unwrap();
        }
        let r = (|| {
            let f = match how {
                0 => "odd".to_string(),
                1 => path.to_str().unwrap().to_string(),
                _ => env.write("main.ledger", &format!("include odd\n{}", good)),
            };
            match k {
                2 | 7 => {
                    let j = if how == 2 { txs(vec![tx(day(0), "x", vec![po("A", "1", "EUR"), el("Z")])]) } else { vec![] };
                    expect_file(env, &f, &ledger(&j, false), ALL, &[])
                }
                5 | 6 => agree(env, &f, &[]),
                _ => expect_rejected(env, &f, ALL, "not a text file", &[]),
            }
        })();
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&path);
        r
    })
}
/// errors in one file of several, and the commands with their options
fn c16_options(ch: &mut Ch) -> Option<Case> {
    let bad = ch.of(&[
        "2020-01-01 x\n    A  1 EUR\n    B  -2 EUR\n",
        "2020-01-01 x\n    A  1 EUR = 3 EUR\n    B\n",
        "2020-01-01 x\n    A\n    B\n",
        "2020-02-30 x\n    A  1 EUR\n    B\n",
        "nonsense\n",
        "    A  1 EUR\n",
        "2020-01-01 x\n    (A)\n",
        "2020-01-01 x\n    [A]  1 EUR\n",
        "= expr )(\n    (A)  1\n",
        "P 2020-01-01 USD\n",
        "include main.ledger\n",
    ]);
    let place = ch.pick(3);
    let good = "2020-01-01 g\n    Gg  1 EUR\n    Zz\n";
    let args: Vec<&str> = ch.of(&[
        vec!["bal", "--flat"],
        vec!["bal", "--depth", "1"],
        vec!["bal", "--no-total"],
        vec!["bal", "-X", "EUR"],
        vec!["bal", "Gg"],
        vec!["bal", "-b", "2021"],
        vec!["bal", "-e", "2019-01-01"],
        vec!["bal", "--real"],
        vec!["reg", "Gg"],
        vec!["reg", "-b", "2021-01-01"],
        vec!["reg", "--real"],
        vec!["accounts"],
        vec!["payees"],
        vec!["commodities"],
        vec!["currencies"],
        vec!["prices"],
        vec!["check"],
    ]);
    let t = match place {
        0 => format!("{}{}", bad, good),
        1 => format!("{}; c\n{}", good, bad),
        _ => format!("{}include other\n{}", good, good),
    };
    case(format!("{:?} {}\n{}", args, t, bad), move |env| {
        let f = env.write("main.ledger", &t);
        if place == 2 {
            env.write("other", bad);
        }
        let mut a = args.clone();
        a.push("-f");
        a.push(&f);
        let o = env.run(&a);
        if !o.refused() {
            return Err(format!("{:?} should be refused, status {:?}", a, o.status));
        }
        no_figures(args[0], &o)
    })
}

/// Entries out of the ordinary, alone and in pairs, with every option
const ODD: [&str; 31] = [
    "",
    "; only a comment\n",
    "\n\n  \n",
    "P 2020-01-01 AAA 0 EUR\n",
    "P 2020-01-01 EUR 2 EUR\n",
    "P 2999-01-01 AAA 3 EUR\n",
    "P 2020-01-01 AAA 3 EUR\nP 2020-01-01 EUR 3 AAA\n",
    "account A\naccount A\n",
    "commodity EUR\n    alias EUR\n",
    "payee x\n    alias x\n",
    "tag t\n",
    "2020-01-01 empty transaction\n",
    "2020-01-01 *\n    A  1 EUR\n    B\n",
    "2020-01-01 zero\n    A  0 EUR\n    B\n",
    "2020-01-01 zeros\n    A  0 EUR\n    B  0 AAA\n",
    "2020-01-01 zero alone\n    A  0\n",
    "2020-01-01 no commodity\n    A  5\n    B\n",
    "2020-01-01 free\n    A  4 AAA @ 0 EUR\n    B  0 EUR\n",
    "2020-01-01 free in all\n    A  4 AAA @@ 0 EUR\n",
    "2020-01-01 nothing at a price\n    A  0 AAA @ 3 EUR\n    B\n",
    "2020-01-01 same\n    A  4 EUR @ 2 EUR\n    B\n",
    "2020-01-01 only virtual\n    (A)  4 EUR\n",
    "2020-01-01 only brackets\n    [A]  4 EUR\n    [A]  -4 EUR\n",
    "2020-01-01 alone\n    A\n",
    "2020-01-01 exchange\n    A  4 EUR\n    A  -4 AAA\n",
    "2020-01-01 exchange of three\n    A  4 EUR\n    A  -4 AAA\n    A  -4 CCC\n",
    "2020-01-01 nothing to assign\n    A  = 0 EUR\n    B\n",
    "2020-01-01 no account\n    ::  4 EUR\n    :\n",
    "2020-01-01 x\n    A::b  99999999999999999999999999999.999999999999999999999999 EUR\n    A\n",
    "= /./\n    (A:auto)  0\n    (A:auto)  (amount * 0)\n",
    "= /nothing/\n    A\n",
];
fn c16_odd(ch: &mut Ch) -> Option<Case> {
    let a = ch.pick(ODD.len());
    let b = a + ch.pick(ODD.len() - a);
    let mut t = ODD[a].to_string();
    if b > a {
        t.push('\n');
        t.push_str(ODD[b]);
    }
    case(t.clone(), move |env| {
        let f = env.write("main.ledger", &t);
        let mut all: Vec<Vec<&str>> = vec![vec!["check"], vec!["accounts"], vec!["payees"], vec!["commodities"], vec!["prices"]];
        let options: [&[&str]; 15] = [
            &[],
            &["--depth", "1"],
            &["--depth", "99"],
            &["--depth", "0"],
            &["--real"],
            &["-b", "2020-01-01"],
            &["-e", "2020-01-01"],
            &["A"],
            &["@x"],
            &["%t"],
            &["/nowhere/"],
            &["expr", "amount > 0"],
            &["expr", "any(amount < 0)"],
            &["expr", "account =~ /A/ and date < to_date('2021/01/01')"],
            &["expr", "tag('t') == 'v'"],
        ];
        for o in options {
            for c in ["bal", "reg"] {
                let mut v = vec![c];
                v.extend_from_slice(o);
                all.push(v);
            }
        }
        for c in ["EUR", "AAA", "CCC", "ZZZ"] {
            all.push(vec!["bal", "-X", c]);
            all.push(vec!["bal", "-X", c, "--flat"]);
        }
        all.push(vec!["bal", "--flat"]);
        all.push(vec!["bal", "--flat", "--depth", "1"]);
        all.push(vec!["bal", "--flat", "--depth", "0"]);
        all.push(vec!["bal", "--no-total"]);
        let mut accepted = None;
        for mut a in all {
            a.push("-f");
            a.push(&f);
            let o = env.run(&a);
            match accepted {
                None => accepted = Some(!o.refused()),
                Some(x) if x == o.refused() => {
                    return Err(format!("{:?} ends with {:?}, and check {} the file", a, o.status, if x { "accepts" } else { "refuses" }));
                }
                _ => (),
            }
            if o.refused() {
                no_figures(a[0], &o)?;
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        spaces: vec![
            space("one character wrong", c16_edit),
            space("cut files", c16_cut),
            space("lines dropped, repeated, exchanged", c16_lines),
            space("pieces after the account", c16_tail),
            space("pieces of an amount", c16_amount),
            space("clauses of a posting", c16_clauses),
            space("pieces of an automated amount", c16_auto),
            space("pieces of a first line", c16_head),
            space("lines at the margin", c16_margin),
            space("lines inside a directive", c16_inside),
            space("what is not a text file", c16_files),
            space("errors and options", c16_options),
            space("unusual but accepted", c16_odd),
            deep("two characters wrong", c16_two),
        ],
        assumptions: ASSUME.to_vec(),
    }]
}
