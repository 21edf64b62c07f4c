//! Comparison of what the program printed with what the model says.

use crate::model::*;
use num::{Signed, Zero};
use std::collections::{BTreeMap, BTreeSet};

pub type R = Result<(), String>;

macro_rules! bail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
pub(crate) use bail;

#[derive(Clone, Debug, Default)]
pub struct BalOpts {
    pub flat: bool,
    pub depth: Option<usize>,
    pub no_total: bool,
    pub x: Option<String>,
}
impl BalOpts {
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if self.flat {
            v.push("--flat".to_string());
        }
        if let Some(d) = self.depth {
            v.push("--depth".to_string());
            v.push(d.to_string());
        }
        if self.no_total {
            v.push("--no-total".to_string());
        }
        if let Some(x) = &self.x {
            v.push("-X".to_string());
            v.push(x.clone());
        }
        v
    }
}

/// A line of the balance report: what is in front of the account
#[derive(Debug, Clone, PartialEq)]
struct Cell {
    number: String,
    com: String,
    spaces: usize,
    rest: String,
}
fn cell(line: &str) -> Option<Cell> {
    let s = line.trim_start_matches(' ');
    let n: String = s
        .chars()
        .take_while(|c| c.is_ascii_digit() || *c == '.' || *c == '-')
        .collect();
    if n.is_empty() {
        return None;
    }
    let s = &s[n.len()..];
    let sp = s.chars().take_while(|c| *c == ' ').count();
    if sp == 0 {
        return if s.is_empty() {
            Some(Cell {
                number: n,
                com: String::new(),
                spaces: 0,
                rest: String::new(),
            })
        } else {
            None
        };
    }
    if sp == 1 && s.len() > 1 {
        // a commodity, up to two spaces
        let s = &s[1..];
        let (c, r) = match s.find("  ") {
            Some(k) => (&s[..k], &s[k..]),
            None => (s, ""),
        };
        let sp = r.chars().take_while(|c| *c == ' ').count();
        return Some(Cell {
            number: n,
            com: c.to_string(),
            spaces: sp,
            rest: r[sp..].to_string(),
        });
    }
    // a bare zero, or an amount without commodity (which leaves one more space)
    let sp2 = if n == "0" { sp } else { sp - 1 };
    Some(Cell {
        number: n,
        com: String::new(),
        spaces: sp2,
        rest: s[sp..].to_string(),
    })
}

/// The displayed amounts of a balance, as a set
fn shown(b: &Bal) -> BTreeSet<String> {
    if b.is_empty() {
        let mut s = BTreeSet::new();
        s.insert("0 ".to_string());
        return s;
    }
    b.iter().map(|(c, q)| disp(q, c)).collect()
}
fn got(cells: &[Cell]) -> BTreeSet<String> {
    cells
        .iter()
        .map(|c| format!("{} {}", c.number, c.com))
        .collect()
}

/// The sums of the selected postings per account; None if the selection is not defined
pub fn sums(l: &L, sel: &Sel) -> Option<BTreeMap<String, Bal>> {
    let mut m: BTreeMap<String, Bal> = BTreeMap::new();
    for t in &l.txns {
        for p in &t.posts {
            if sel.keeps(p, t)? {
                let (q, c) = p.amt.clone().unwrap();
                add(m.entry(p.acc.clone()).or_default(), &c, &q);
            }
        }
    }
    Some(m)
}

/// The date of the conversions: today in UTC
pub fn today() -> Date {
    use chrono::Datelike;
    let d = chrono::Utc::now().naive_utc().date();
    (d.year(), d.month(), d.day())
}

/// Ways to convert a balance: one per combination of admissible multipliers
fn converters(l: &L, x: &Option<String>) -> Vec<Option<(String, BTreeMap<String, Rat>)>> {
    let x = match x {
        None => return vec![None],
        Some(x) => x,
    };
    if !l.commodities.contains(x) {
        return vec![None];
    }
    let ms = multipliers(&l.prices, x, today());
    let mut all: Vec<BTreeMap<String, Rat>> = vec![BTreeMap::new()];
    for (c, vs) in &ms {
        let mut next = vec![];
        for a in &all {
            for v in vs {
                let mut b = a.clone();
                b.insert(c.clone(), v.clone());
                next.push(b);
            }
        }
        all = next;
        assert!(all.len() < 5000);
    }
    all.into_iter().map(|m| Some((x.clone(), m))).collect()
}
fn convert(b: &Bal, k: &Option<(String, BTreeMap<String, Rat>)>) -> Bal {
    match k {
        None => b.clone(),
        Some((x, m)) => {
            let mut out = Bal::new();
            for (c, q) in b {
                match m.get(c) {
                    Some(f) => add(&mut out, x, &(q * f)),
                    None => add(&mut out, c, q),
                }
            }
            out
        }
    }
}

pub fn check_bal(l: &L, sel: &Sel, o: &BalOpts, stdout: &str) -> R {
    let own = match sums(l, sel) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut first = None;
    for k in converters(l, &o.x) {
        match check_bal_one(&own, o, &k, stdout) {
            Ok(()) => return Ok(()),
            Err(e) => first = first.or(Some(e)),
        }
    }
    Err(first.unwrap())
}

fn prefixes(name: &str) -> Vec<String> {
    let parts: Vec<&str> = name.split(':').collect();
    (1..=parts.len()).map(|i| parts[..i].join(":")).collect()
}
fn depth_of(name: &str) -> usize {
    name.split(':').count()
}

fn check_bal_one(
    own: &BTreeMap<String, Bal>,
    o: &BalOpts,
    k: &Option<(String, BTreeMap<String, Rat>)>,
    stdout: &str,
) -> R {
    // ---- what should be there
    let mut total = Bal::new();
    for b in own.values() {
        for (c, q) in b {
            add(&mut total, c, q);
        }
    }
    let mut want: BTreeMap<String, Bal> = BTreeMap::new();
    for (acc, b) in own {
        let names = if o.flat {
            let d = depth_of(acc);
            let cut = o.depth.map_or(d, |x| x.min(d));
            vec![prefixes(acc)[cut - 1].clone()]
        } else {
            prefixes(acc)
        };
        for n in names {
            let e = want.entry(n).or_default();
            for (c, q) in b {
                add(e, c, q);
            }
        }
    }
    let want: BTreeMap<String, Bal> = want.into_iter().map(|(n, b)| (n, convert(&b, k))).collect();
    let total = convert(&total, k);

    // ---- what is there
    let lines: Vec<&str> = stdout.lines().collect();
    let sep = lines.iter().position(|x| x.starts_with("-----"));
    let body = &lines[..sep.unwrap_or(lines.len())];
    let mut groups: Vec<(Vec<Cell>, usize, String)> = vec![];
    let mut pending: Vec<Cell> = vec![];
    for x in body {
        let c = match cell(x) {
            Some(c) => c,
            None => bail!("cannot read the line {:?}", x),
        };
        let done = !c.rest.is_empty();
        let (sp, rest) = (c.spaces, c.rest.clone());
        pending.push(c);
        if done {
            groups.push((pending.split_off(0), sp, rest));
        }
    }
    if !pending.is_empty() {
        bail!("amounts without account at the end: {:?}", pending);
    }
    let mut seen: BTreeMap<String, Vec<Cell>> = BTreeMap::new();
    let mut folded: BTreeSet<String> = BTreeSet::new();
    if o.flat {
        for (cells, _, name) in &groups {
            if seen.insert(name.clone(), cells.clone()).is_some() {
                bail!("{:?} is shown twice", name);
            }
        }
    } else {
        let mut path: Vec<(usize, String)> = vec![];
        for (cells, sp, name) in &groups {
            let n = sp / 2;
            if n == 0 || sp % 2 != 0 {
                bail!("odd indentation of {:?}", name);
            }
            while path.last().map_or(false, |x| x.0 >= n) {
                path.pop();
            }
            let full = match path.last() {
                None if n == 1 => name.clone(),
                Some(x) if x.0 == n - 1 => format!("{}:{}", x.1, name),
                _ => bail!("{:?} is shown without its parent", name),
            };
            let d = depth_of(&full);
            for f in prefixes(&full) {
                if depth_of(&f) >= n && f != full {
                    folded.insert(f.clone());
                    // a line stands for all the accounts named in it
                    if want.get(&f) != want.get(&full) {
                        bail!("{:?} is folded into {:?} but their balances differ", f, full);
                    }
                    if !path.is_empty() || true {
                        // children of the folded ones go below the last one
                    }
                }
            }
            path.push((d, full.clone()));
            if seen.insert(full.clone(), cells.clone()).is_some() {
                bail!("{:?} is shown twice", full);
            }
        }
    }
    // ---- compare
    for (name, cells) in &seen {
        let b = match want.get(name) {
            Some(b) => b,
            None => bail!("{:?} should not be there", name),
        };
        if o.depth.map_or(false, |d| depth_of(name) > d) {
            bail!("{:?} is deeper than asked", name);
        }
        if got(cells) != shown(b) || cells.len() != b.len().max(1) {
            bail!("{:?} shows {:?} and should be {:?}", name, got(cells), shown(b));
        }
        if b.is_empty() {
            let prefix = format!("{}:", name);
            if !seen.keys().any(|x| x.starts_with(&prefix)) {
                bail!("{:?} is zero and is shown", name);
            }
        }
    }
    for (name, b) in &want {
        if b.is_empty() || o.depth.map_or(false, |d| depth_of(name) > d) {
            continue;
        }
        if !seen.contains_key(name) && !folded.contains(name) {
            bail!("{:?} with {:?} is missing", name, shown(b));
        }
    }
    // ---- total
    match sep {
        None => {
            if groups.len() > 1 && !o.no_total {
                bail!("there is no total");
            }
        }
        Some(s) => {
            if groups.len() < 2 || o.no_total {
                bail!("there is a total and there should not be");
            }
            let mut cells = vec![];
            for x in &lines[s + 1..] {
                match cell(x) {
                    Some(c) if c.rest.is_empty() => cells.push(c),
                    _ => bail!("cannot read the total {:?}", x),
                }
            }
            if got(&cells) != shown(&total) || cells.len() != total.len().max(1) {
                bail!("the total is {:?} and should be {:?}", got(&cells), shown(&total));
            }
        }
    }
    Ok(())
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// The displayed forms of an amount
fn forms(q: &Rat, c: &str) -> Vec<String> {
    let mut v = vec![squash(&disp(q, c))];
    if q.is_zero() {
        v.push("0".to_string());
    }
    v
}

pub fn check_reg(l: &L, sel: &Sel, stdout: &str) -> R {
    let lines: Vec<String> = stdout.lines().map(squash).collect();
    let raw: Vec<&str> = stdout.lines().collect();
    let mut at = 0;
    let mut run = Bal::new();
    for t in &l.txns {
        let mut rows: Vec<(LP, usize)> = vec![];
        for (i, p) in t.posts.iter().enumerate() {
            match sel.keeps(p, t) {
                None => return Ok(()),
                Some(true) => rows.push((p.clone(), i)),
                Some(false) => {}
            }
        }
        let count = rows.len();
        for k in 0..count {
            if at >= lines.len() {
                bail!("the register ends before {} {:?} posting {}", ds(t.date), t.shown, k + 1);
            }
            // what is printed in front of the account
            let head = if k == 0 {
                let d = ds(t.date);
                if !lines[at].starts_with(&d) {
                    bail!("expected the date {} in {:?}", d, raw[at]);
                }
                let name = squash(&t.shown);
                let rest = &lines[at][d.len()..];
                if t.shown.chars().count() < 36 {
                    if !rest.starts_with(&name) {
                        bail!("expected {:?} in {:?}", t.shown, raw[at]);
                    }
                    d.len() + name.len()
                } else {
                    // long names are cut, with two dots at the end
                    let common: usize = rest
                        .chars()
                        .zip(name.chars())
                        .take_while(|(a, b)| a == b)
                        .map(|(a, _)| a.len_utf8())
                        .sum();
                    if rest[..common].chars().count() < 15 {
                        bail!("expected {:?} in {:?}", t.shown, raw[at]);
                    }
                    let back: usize = rest[..common].chars().rev().take(3).map(|c| c.len_utf8()).sum();
                    match rest[common - back..].find("..") {
                        Some(x) => d.len() + common - back + x + 2,
                        None => d.len() + name.len(),
                    }
                }
            } else {
                if raw[at].starts_with(|c: char| !c.is_whitespace()) {
                    bail!("unexpected transaction header {:?}", raw[at]);
                }
                0
            };
            let line = &lines[at][head..];
            // find the posting, the ones with amounts in their order
            let mut found = None;
            for (n, (p, _)) in rows.iter().enumerate() {
                let later = p.explicit
                    && p.kind == Kind::Real
                    && !p.auto
                    && rows[..n]
                        .iter()
                        .any(|(x, _)| x.explicit && x.kind == Kind::Real && !x.auto);
                if later {
                    continue;
                }
                let (q, c) = p.amt.clone().unwrap();
                let mut after = run.clone();
                add(&mut after, &c, &q);
                let acc = squash(&match p.kind {
                    Kind::Real => p.acc.clone(),
                    Kind::Virt => format!("({})", p.acc),
                    Kind::Brac => format!("[{}]", p.acc),
                });
                if !line.starts_with(&acc) {
                    continue;
                }
                let need = after.len().max(1);
                if at + need > lines.len() {
                    continue;
                }
                let mut bals: Vec<String> = if after.is_empty() {
                    vec!["0".to_string()]
                } else {
                    after.iter().map(|(c, q)| squash(&disp(q, c))).collect()
                };
                let mut ok = false;
                for f in forms(&q, &c) {
                    let tail = &line[acc.len()..];
                    if !tail.starts_with(&f) {
                        continue;
                    }
                    let tail = &tail[f.len()..];
                    if let Some(x) = bals.iter().position(|b| b == tail) {
                        bals.remove(x);
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    continue;
                }
                for x in 1..need {
                    match bals.iter().position(|b| *b == lines[at + x]) {
                        Some(y) => {
                            bals.remove(y);
                        }
                        None => ok = false,
                    }
                }
                if ok {
                    found = Some((n, need, after));
                    break;
                }
            }
            match found {
                None => bail!(
                    "line {:?} is none of the postings expected in {} {:?}: {}; running total before it {:?}",
                    raw[at],
                    ds(t.date),
                    t.shown,
                    rows.iter()
                        .map(|(p, _)| format!(
                            "{} {}",
                            p.acc,
                            p.amt.as_ref().map_or("?".into(), |(q, c)| disp(q, c))
                        ))
                        .collect::<Vec<_>>()
                        .join(", "),
                    shown(&run)
                ),
                Some((n, need, after)) => {
                    rows.remove(n);
                    at += need;
                    run = after;
                }
            }
        }
    }
    if at < lines.len() {
        bail!("unexpected line {:?}", raw[at]);
    }
    Ok(())
}

pub fn check_list(name: &str, want: &BTreeSet<String>, stdout: &str) -> R {
    let got: Vec<String> = stdout.lines().map(|x| x.to_string()).collect();
    let want: Vec<String> = want.iter().cloned().collect();
    if got != want {
        bail!("{} lists {:?} and should list {:?}", name, got, want);
    }
    Ok(())
}

pub fn check_prices(l: &L, stdout: &str) -> R {
    let mut got: Vec<String> = stdout.lines().map(|x| x.trim_end().to_string()).collect();
    for p in &l.prices {
        let line = format!("{} {} {}", ds(p.date), p.com, disp(&p.q, &p.to));
        let mut alts = vec![line.trim_end().to_string()];
        if p.implied {
            alts.push(format!(
                "{} {} {}",
                ds(p.date),
                p.to,
                disp(&(int(1) / p.q.clone()), &p.com)
            ).trim_end().to_string());
        }
        match got.iter().position(|x| alts.contains(x)) {
            Some(k) => {
                got.remove(k);
            }
            None => bail!("the price {:?} is not listed", alts[0]),
        }
    }
    if !got.is_empty() {
        bail!("prices that should not be there: {:?}", got);
    }
    let _ = int(1).is_positive();
    Ok(())
}
