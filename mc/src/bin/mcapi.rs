//! Explorer of the public types List, Money and Balance (C21, C22), and of the display of amounts
//! with any precision (C09).

use dinero::models::{Account, Balance, Currency, HasName, Money};
use dinero::parser::Tokenizer;
use dinero::List;
use mcl::engine::*;
use mcl::model::{disp_p, int, rat, Rat};
use num::{Signed, Zero};
use std::collections::BTreeMap;
use std::rc::Rc;

type R = Result<(), String>;

// ------------------------------------------------------------------ C21

/// An account directive, as the parser reads it
fn parsed(name: &str, aliases: &[&str]) -> List<Account> {
    let mut t = format!("account {}\n", name);
    for a in aliases {
        t.push_str(&format!("    alias {}\n", a));
    }
    let mut tokenizer = Tokenizer::from(t);
    match tokenizer.tokenize() {
        Ok(x) => x.accounts,
        Err(_) => panic!("cannot parse an account directive"),
    }
}
fn element(name: &str, aliases: &[&str]) -> Account {
    parsed(name, aliases).get(name).map(|x| x.as_ref().clone()).ok().unwrap()
}

#[derive(Clone, Debug)]
enum Op {
    Insert(&'static str, &'static str),
    /// an element that comes from use, not from a directive
    Use(&'static str),
    Alias(&'static str, &'static str),
    Merge(usize),
    Search(&'static str),
    Get(&'static str),
}
const MERGES: [&[(&str, &str)]; 4] = [&[("Cd", "zz")], &[("AB", "ww")], &[("Ef", ""), ("Gh", "xx")], &[]];
const PATTERNS: [&str; 8] = ["(?i)a", "(?i)^xx$", "(?i)c", "(?i)zz|ww", "(?i)yy", "(?i)^[eg]", "", "(?i)nothing"];
const NAMES: [&str; 9] = ["Ab", "Cd", "Ef", "Gh", "xx", "yy", "zz", "ww", "no"];

/// what the list has to know
#[derive(Clone, Default, Debug)]
struct Reg {
    names: BTreeMap<String, String>,
    aliases: BTreeMap<String, String>,
}
impl Reg {
    /// false when two elements ask for the same alias: not a case of the space
    fn alias(&mut self, a: &str, of: &str) -> bool {
        let (a, of) = (a.to_lowercase(), of.to_lowercase());
        match self.aliases.get(&a) {
            Some(x) if *x != of => false,
            _ => {
                self.aliases.insert(a, of);
                true
            }
        }
    }
    fn insert(&mut self, name: &str, alias: &str) -> bool {
        self.names.entry(name.to_lowercase()).or_insert(name.to_string());
        alias.is_empty() || self.alias(alias, name)
    }
    fn get(&self, s: &str) -> Option<&String> {
        let s = s.to_lowercase();
        self.names.get(&s).or_else(|| self.names.get(self.aliases.get(&s)?))
    }
    /// names of the elements that match
    fn matching(&self, re: &regex::Regex) -> Vec<&String> {
        self.names
            .iter()
            .filter(|(k, n)| re.is_match(n) || self.aliases.iter().any(|(a, of)| of == *k && re.is_match(a)))
            .map(|x| x.1)
            .collect()
    }
}
fn search(l: &mut List<Account>, m: &Reg, p: &str) -> R {
    let re = regex::Regex::new(p).unwrap();
    let want = m.matching(&re);
    let got = l.get_regex(re).map(|x| x.get_name().to_string());
    match &got {
        None if want.is_empty() => Ok(()),
        Some(x) if want.contains(&x) => Ok(()),
        _ => Err(format!("searching {:?} finds {:?} and could find {:?}", p, got, want)),
    }
}
fn lookup(l: &List<Account>, m: &Reg, s: &str) -> R {
    let got = l.get(s).ok().map(|x| x.get_name().to_string());
    let want = m.get(s).cloned();
    if got != want {
        return Err(format!("{:?} is {:?} and should be {:?}", s, got, want));
    }
    Ok(())
}
fn observe(l: &mut List<Account>, m: &Reg) -> R {
    for s in NAMES {
        for v in [s.to_string(), s.to_uppercase(), s.to_lowercase()] {
            lookup(l, m, &v)?;
        }
    }
    if l.len() != m.names.len() {
        return Err(format!("{} elements and should be {}", l.len(), m.names.len()));
    }
    let extra = m.aliases.len();
    if l.len_alias() != m.names.len() + extra {
        return Err(format!("{} names and aliases and should be {}", l.len_alias(), m.names.len() + extra));
    }
    let mut have: Vec<String> = l.values().map(|x| x.get_name().to_string()).collect();
    have.sort();
    let mut want: Vec<String> = m.names.values().cloned().collect();
    want.sort();
    if have != want {
        return Err(format!("the elements are {:?} and should be {:?}", have, want));
    }
    if l.iter().count() != want.len() {
        return Err("iter gives another number of elements".to_string());
    }
    for p in PATTERNS {
        search(l, m, p)?;
    }
    // again, from whatever it remembers
    for p in PATTERNS.iter().rev() {
        search(l, m, p)?;
    }
    Ok(())
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for n in ["Ab", "AB", "Cd"] {
        for a in ["", "xx", "YY"] {
            v.push(Op::Insert(n, a));
        }
    }
    v.push(Op::Use("aB"));
    v.push(Op::Use("Ef"));
    for a in ["XX", "zz"] {
        for n in ["Ab", "Cd"] {
            v.push(Op::Alias(a, n));
        }
    }
    for k in 0..MERGES.len() {
        v.push(Op::Merge(k));
    }
    for p in [0usize, 1, 2, 3, 5] {
        v.push(Op::Search(PATTERNS[p]));
    }
    v.push(Op::Get("xX"));
    v
}
/// The effect on the model; None: the operation is not in the space at this point
fn model(m: &mut Reg, op: &Op) -> Option<()> {
    let ok = match op {
        Op::Insert(n, a) => m.insert(n, a),
        Op::Use(n) => m.insert(n, ""),
        Op::Alias(a, n) => {
            // of an element that is there; a repeated alias is an error
            if !m.names.contains_key(&n.to_lowercase()) || m.aliases.contains_key(&a.to_lowercase()) {
                return None;
            }
            m.alias(a, n)
        }
        Op::Merge(k) => MERGES[*k].iter().all(|(n, a)| m.insert(n, a)),
        Op::Search(_) | Op::Get(_) => true,
    };
    if ok {
        Some(())
    } else {
        None
    }
}
fn run_ops(ops: &[Op]) -> R {
    let mut l: List<Account> = List::new();
    let mut m = Reg::default();
    for op in ops {
        model(&mut m, op);
        match op {
            Op::Insert(n, "") => l.insert(element(n, &[])),
            Op::Insert(n, a) => l.insert(element(n, &[a])),
            Op::Use(n) => l.insert(Account::from(*n)),
            Op::Alias(a, n) => {
                let e = match l.get(n) {
                    Ok(x) => x.as_ref().clone(),
                    Err(_) => return Err(format!("{} is not found", n)),
                };
                l.add_alias(a.to_string(), &e);
            }
            Op::Merge(k) => {
                let mut other: List<Account> = List::new();
                for (n, a) in MERGES[*k] {
                    other.insert(if a.is_empty() { element(n, &[]) } else { element(n, &[a]) });
                }
                // something remembered there
                let _ = other.get_regex(regex::Regex::new("(?i)zz|ww").unwrap());
                l.append(&other);
            }
            Op::Search(p) => {
                search(&mut l, &m, p)?;
            }
            Op::Get(s) => lookup(&l, &m, s)?,
        }
    }
    observe(&mut l, &m)
}
fn c21_sequences(ch: &mut Ch) -> Option<Case> {
    let all = ops();
    let n = ch.qt(3, 4);
    sequence(ch, &all, n)
}
fn sequence(ch: &mut Ch, all: &[Op], n: usize) -> Option<Case> {
    let mut m = Reg::default();
    let mut v: Vec<Op> = vec![];
    for _ in 0..n {
        match ch.pick(all.len() + 1) {
            0 => break,
            k => {
                let op = all[k - 1].clone();
                model(&mut m, &op)?;
                v.push(op);
            }
        }
    }
    let key = format!("{:?}", v);
    case(key, move |_| run_ops(&v))
}
/// longer, with fewer operations
fn c21_long(ch: &mut Ch) -> Option<Case> {
    let all = vec![
        Op::Insert("Ab", "xx"),
        Op::Insert("AB", "YY"),
        Op::Alias("zz", "Ab"),
        Op::Merge(0),
        Op::Merge(1),
        Op::Search("(?i)zz|ww"),
        Op::Search("(?i)c"),
    ];
    let n = ch.qt(5, 7);
    sequence(ch, &all, n)
}
/// merges of lists that were themselves made by a sequence
fn c21_merge(ch: &mut Ch) -> Option<Case> {
    let all: Vec<Op> = vec![
        Op::Insert("Ab", "xx"),
        Op::Insert("AB", ""),
        Op::Insert("Cd", "YY"),
        Op::Alias("zz", "Ab"),
        Op::Alias("ww", "Cd"),
        Op::Search("(?i)zz|ww"),
        Op::Search("(?i)a"),
    ];
    let n = ch.qt(2, 3);
    let mut halves: Vec<Vec<Op>> = vec![];
    let mut m = Reg::default();
    for _ in 0..2 {
        let mut own = Reg::default();
        let mut v = vec![];
        for _ in 0..n {
            match ch.pick(all.len() + 1) {
                0 => break,
                k => {
                    let op = all[k - 1].clone();
                    model(&mut own, &op)?;
                    v.push(op);
                }
            }
        }
        for x in own.names.values() {
            m.insert(x, "");
        }
        for (a, of) in &own.aliases {
            if !m.alias(a, of) {
                return None;
            }
        }
        halves.push(v);
    }
    let last = ch.of(&["(?i)zz|ww", "(?i)a", "(?i)c"]);
    case(format!("{:?} {}", halves, last), move |_| {
        let build = |ops: &[Op]| {
            let mut l: List<Account> = List::new();
            for op in ops {
                match op {
                    Op::Insert(n, "") => l.insert(element(n, &[])),
                    Op::Insert(n, a) => l.insert(element(n, &[a])),
                    Op::Alias(a, n) => {
                        let e = l.get(n).ok().unwrap().as_ref().clone();
                        l.add_alias(a.to_string(), &e);
                    }
                    Op::Search(p) => {
                        let _ = l.get_regex(regex::Regex::new(p).unwrap());
                    }
                    _ => {}
                }
            }
            l
        };
        let mut a = build(&halves[0]);
        let b = build(&halves[1]);
        let _ = a.get_regex(regex::Regex::new(last).unwrap());
        let keep = a.clone();
        a.append(&b);
        observe(&mut a, &m)?;
        // neither the other list nor a copy changes
        let mut own = Reg::default();
        for op in &halves[1] {
            model(&mut own, op);
        }
        observe(&mut b.clone(), &own)?;
        let mut own = Reg::default();
        for op in &halves[0] {
            model(&mut own, op);
        }
        observe(&mut keep.clone(), &own)
    })
}
/// names of any kind of letters
fn c21_letters(ch: &mut Ch) -> Option<Case> {
    let words = ["Ab", "ÑANDÚ", "straße", "Ǆ", "日本", "a b:C d", "€", "x.y*", "", "İ"];
    let name = ch.of(&words);
    let alias = ch.of(&words);
    let other = ch.of(&words);
    if name.is_empty() || alias.is_empty() || other.is_empty() {
        return None;
    }
    let low = |x: &str| x.to_lowercase();
    if low(name) == low(other) || low(alias) == low(other) {
        return None;
    }
    case(format!("{} {} {}", name, alias, other), move |_| {
        let mut l: List<Account> = List::new();
        l.insert(Account::from(name));
        let e = Account::from(name);
        l.add_alias(alias.to_string(), &e);
        for s in [name, alias] {
            for v in [s.to_string(), s.to_lowercase(), s.to_uppercase().to_lowercase()] {
                // upper case is not the inverse of lower case for every letter
                if low(&v) != low(s) {
                    continue;
                }
                if l.get(&v).ok().map(|x| x.get_name().to_string()) != Some(name.to_string()) {
                    return Err(format!("{:?} is not found", v));
                }
            }
        }
        if l.get(other).is_ok() {
            return Err(format!("{:?} is found", other));
        }
        if l.get(&format!("{} ", name)).is_ok() || l.get("").is_ok() {
            return Err("something else is found".to_string());
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C22

fn cur(name: &str) -> Rc<Currency> {
    // a new object each time: commodities are the same by name
    Rc::new(Currency::from(name))
}
const COMS: [&str; 3] = ["EUR", "USD", "eur"];
fn amounts() -> Vec<Rat> {
    let t = |a: i64, b: i64| int(a) / int(b);
    vec![int(0), int(1), int(-1), t(1, 3), t(-1, 3), t(5, 2), rat("100000000000000000000000000000.01"), t(-7, 1000000007)]
}
type Ref = BTreeMap<String, Rat>;
#[derive(Clone, Debug)]
enum M {
    Zero,
    Of(usize, Rat),
}
impl M {
    fn real(&self) -> Money {
        match self {
            M::Zero => Money::new(),
            M::Of(c, q) => Money::from((cur(COMS[*c]), q.clone())),
        }
    }
    fn q(&self) -> Rat {
        match self {
            M::Zero => int(0),
            M::Of(_, q) => q.clone(),
        }
    }
    fn refer(&self) -> Ref {
        let mut r = Ref::new();
        if let M::Of(c, q) = self {
            plus(&mut r, COMS[*c], q);
        }
        r
    }
}
fn plus(r: &mut Ref, c: &str, q: &Rat) {
    let e = r.entry(c.to_string()).or_insert_with(Rat::zero);
    *e = &*e + q;
    if e.is_zero() {
        r.remove(c);
    }
}
fn sum(a: &Ref, b: &Ref) -> Ref {
    let mut r = a.clone();
    for (c, q) in b {
        plus(&mut r, c, q);
    }
    r
}
fn minus(a: &Ref) -> Ref {
    a.iter().map(|(c, q)| (c.clone(), -q.clone())).collect()
}
fn canon(b: &Balance) -> Result<Ref, String> {
    let mut r = Ref::new();
    for (k, v) in b.iter() {
        if v.is_zero() != v.get_amount().is_zero() {
            return Err("is_zero".to_string());
        }
        if v.get_amount().is_zero() {
            continue;
        }
        let c = match v.get_commodity() {
            Some(c) => c.get_name().to_string(),
            None => return Err("an amount without commodity".to_string()),
        };
        if k.as_ref().map(|x| x.get_name().to_string()) != Some(c.clone()) {
            return Err(format!("{} kept under {:?}", c, k));
        }
        if r.insert(c, v.get_amount()).is_some() {
            return Err("a commodity twice".to_string());
        }
    }
    Ok(r)
}
fn same(what: &str, b: &Balance, want: &Ref) -> R {
    let got = canon(b)?;
    if &got != want {
        return Err(format!("{} is {:?} and should be {:?}", what, got, want));
    }
    if b.is_zero() != want.is_empty() {
        return Err(format!("{}: is_zero is {}", what, b.is_zero()));
    }
    let pos = want.values().any(|x| x.is_positive());
    let neg = want.values().any(|x| x.is_negative());
    if b.can_be_zero() != (want.is_empty() || (pos && neg)) {
        return Err(format!("{}: can_be_zero is {}", what, b.can_be_zero()));
    }
    match (b.to_money(), want.len()) {
        (Ok(m), 0) => {
            if !m.is_zero() {
                return Err(format!("{} as money is {}", what, m));
            }
        }
        (Ok(m), 1) => {
            let (c, q) = want.iter().next().unwrap();
            if &m.get_amount() != q || m.get_commodity().map(|x| x.get_name().to_string()).as_ref() != Some(c) {
                return Err(format!("{} as money is {}", what, m));
            }
        }
        (Err(_), n) if n > 1 => {}
        (r, n) => return Err(format!("{} with {} commodities as money: {}", what, n, r.is_ok())),
    }
    Ok(())
}
fn pick_money(ch: &mut Ch, n: usize, coms: usize) -> M {
    let a = amounts();
    let k = ch.pick(n * coms + 1);
    if k == n * coms {
        M::Zero
    } else {
        M::Of(k / n, a[k % n].clone())
    }
}
/// every pair of amounts
fn c22_pairs(ch: &mut Ch) -> Option<Case> {
    let a = pick_money(ch, 8, 3);
    let b = pick_money(ch, 8, 3);
    case(format!("{:?} {:?}", a, b), move |_| {
        let (x, y) = (a.real(), b.real());
        let (r, s) = (a.refer(), b.refer());
        same("a", &Balance::from(x.clone()), &r)?;
        same("a + b", &(x.clone() + y.clone()), &sum(&r, &s))?;
        same("b + a", &(y.clone() + x.clone()), &sum(&r, &s))?;
        same("a - b", &(x.clone() - y.clone()), &sum(&r, &minus(&s)))?;
        same("-a", &Balance::from(-x.clone()), &minus(&r))?;
        same("a - a", &(x.clone() - x.clone()), &Ref::new())?;
        // equality and order
        let equal = r == s;
        if (x == y) != equal || (y == x) != equal || (x != y) == equal {
            // zero of one commodity and zero of another: not stated
            let zeros = r.is_empty() && s.is_empty();
            if !zeros {
                return Err(format!("{} == {} is {}", x, y, x == y));
            }
        }
        let comparable = match (&a, &b) {
            (M::Of(c, _), M::Of(d, _)) => c == d,
            _ => true,
        };
        if comparable {
            let want = a.q().cmp(&b.q());
            if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) {
                return Err(format!("{} compared with {} is {:?}", x, y, x.cmp(&y)));
            }
            if (x < y) != (a.q() < b.q()) || (x <= y) != (a.q() <= b.q()) || (x > y) != (a.q() > b.q()) || (x >= y) != (a.q() >= b.q()) {
                return Err(format!("order of {} and {}", x, y));
            }
            if (x == y) != (a.q() == b.q()) {
                return Err(format!("{} == {} is {}", x, y, x == y));
            }
        }
        // signs
        if x.is_zero() != a.q().is_zero() {
            return Err(format!("{} is_zero", x));
        }
        if !a.q().is_zero() && (x.is_positive() != a.q().is_positive() || x.is_negative() != a.q().is_negative()) {
            return Err(format!("sign of {}", x));
        }
        if x.get_amount() != a.q() {
            return Err(format!("amount of {}", x));
        }
        if x.abs().get_amount() != a.q().abs() {
            return Err(format!("absolute value of {}", x));
        }
        Ok(())
    })
}
/// scaling
fn c22_scale(ch: &mut Ch) -> Option<Case> {
    let a = pick_money(ch, 8, 2);
    let b = pick_money(ch, 8, 2);
    let k = ch.of(&amounts());
    case(format!("{:?} {:?} {}", a, b, k), move |_| {
        let (x, y) = (a.real(), b.real());
        let times = |r: &Ref, k: &Rat| -> Ref { r.iter().map(|(c, q)| (c.clone(), q * k)).filter(|x| !x.1.is_zero()).collect() };
        same("a * k", &Balance::from(x.clone() * k.clone()), &times(&a.refer(), &k))?;
        let d = x.clone() * k.clone() + y.clone() * k.clone();
        same("a * k + b * k", &d, &times(&sum(&a.refer(), &b.refer()), &k))?;
        if !k.is_zero() {
            let inv = int(1) / k.clone();
            same("a / k", &Balance::from(x.clone() / k.clone()), &times(&a.refer(), &inv))?;
            same("a / k * k", &Balance::from(x.clone() / k.clone() * k.clone()), &a.refer())?;
        }
        Ok(())
    })
}
fn pick_balance(ch: &mut Ch, n: usize) -> (Balance, Ref, String) {
    // an amount for each of two commodities, and maybe a zero without commodity
    let a = amounts();
    let mut b = Balance::new();
    let mut r = Ref::new();
    let mut key = String::new();
    for c in 0..2 {
        let k = ch.pick(n + 1);
        if k == n {
            continue;
        }
        let m = M::Of(c, a[k].clone());
        key.push_str(&format!("{} {} ", a[k], COMS[c]));
        if b.len() == 0 {
            b = Balance::from(m.real());
        } else {
            b = b + Balance::from(m.real());
        }
        r = sum(&r, &m.refer());
    }
    if ch.flag() {
        key.push_str("0");
        b = Balance::from(Money::new()) + b;
    }
    (b, r, key)
}
/// every triple of balances
fn c22_triples(ch: &mut Ch) -> Option<Case> {
    let n = ch.qt(3, 4);
    let (a, r, k1) = pick_balance(ch, n);
    let (b, s, k2) = pick_balance(ch, n);
    let (c, t, k3) = pick_balance(ch, n);
    case(format!("{} | {} | {}", k1, k2, k3), move |_| {
        let left = (a.clone() + b.clone()) + c.clone();
        let right = a.clone() + (b.clone() + c.clone());
        let want = sum(&sum(&r, &s), &t);
        same("(a + b) + c", &left, &want)?;
        same("a + (b + c)", &right, &want)?;
        if !(left == right) {
            return Err("(a + b) + c != a + (b + c)".to_string());
        }
        same("a - b - c", &(a.clone() - b.clone() - c.clone()), &sum(&r, &minus(&sum(&s, &t))))?;
        same("a - (b - c)", &(a.clone() - (b.clone() - c.clone())), &sum(&r, &sum(&minus(&s), &t)))?;
        same("-(a + b)", &-(a.clone() + b.clone()), &minus(&sum(&r, &s)))?;
        same("a + (-a)", &(a.clone() + -a.clone()), &Ref::new())?;
        same("a + 0", &(a.clone() + Balance::new()), &r)?;
        same("0 + a", &(Balance::from(Money::new()) + a.clone()), &r)?;
        if (a == b) != (r == s) || (b == a) != (r == s) {
            return Err(format!("equality of {:?} and {:?}", r, s));
        }
        Ok(())
    })
}
/// running totals: sequences of operations from zero
fn c22_sequences(ch: &mut Ch) -> Option<Case> {
    let n = ch.qt(4, 5);
    let q = [int(1), int(-1), int(1) / int(3), int(0)];
    let mut ops: Vec<(usize, M)> = vec![];
    for _ in 0..n {
        let k = ch.pick(2 * (2 * q.len()) + 3);
        if k == 0 {
            break;
        }
        ops.push(match k - 1 {
            0 => (2, M::Zero),
            1 => (0, M::Zero),
            k => {
                let k = k - 2;
                let sub = k % 2;
                let k = k / 2;
                (sub, M::Of(k / q.len(), q[k % q.len()].clone()))
            }
        });
    }
    case(format!("{:?}", ops), move |_| {
        let mut b = Balance::new();
        let mut r = Ref::new();
        for (i, (op, m)) in ops.iter().enumerate() {
            match op {
                0 => {
                    b = b + Balance::from(m.real());
                    r = sum(&r, &m.refer());
                }
                1 => {
                    b = b - Balance::from(m.real());
                    r = sum(&r, &minus(&m.refer()));
                }
                _ => {
                    b = -b;
                    r = minus(&r);
                }
            }
            same(&format!("after step {}", i + 1), &b, &r)?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C09

/// display with any precision
fn c09_precision(ch: &mut Ch) -> Option<Case> {
    let p = ch.pick(ch.qt(6, 9));
    let whole = ch.of(&["0", "1", "9", "99", "1234567", "99999999999999999999"]);
    let frac = ch.of(&["", "0", "5", "4", "49", "50", "51", "99", "995", "994999", "05", "005", "0049", "999999999999", "000000000005"]);
    let over = ch.of(&[1i64, 3, 7]);
    let neg = ch.flag();
    let lit = format!("{}{}.{}", if neg { "-" } else { "" }, whole, if frac.is_empty() { "0" } else { frac });
    let q = rat(&lit) / int(over);
    case(format!("{} {}/{}", p, lit, over), move |_| {
        let mut c = Currency::from("EUR");
        c.set_precision(p);
        let m = Money::from((c, q.clone()));
        let got = format!("{}", m);
        let want = disp_p(&q, "EUR", p);
        if got != want {
            return Err(format!("{} with {} decimals is shown as {:?} and should be {:?}", q, p, got, want));
        }
        let d = Currency::from("EUR");
        let got = format!("{}", Money::from((d, q.clone())));
        if got != disp_p(&q, "EUR", 2) {
            return Err(format!("{} is shown as {:?}", q, got));
        }
        Ok(())
    })
}

fn main() {
    let mut spaces = mcl::props::money::c09_spaces();
    spaces.push(space("display with any precision", c09_precision));
    let assume = |x: &'static str| {
        let mut v = mcl::props::ASSUME.to_vec();
        v.push(x);
        v
    };
    let props = vec![
        Prop {
            id: "C09",
            spaces,
            assumptions: mcl::props::ASSUME.to_vec(),
        },
        Prop {
            id: "C21",
            spaces: vec![
                space("sequences of operations", c21_sequences),
                space("longer sequences", c21_long),
                space("merges", c21_merge),
                space("letters", c21_letters),
            ],
            assumptions: assume("accounts stand for every kind of element: List is generic and never looks inside"),
        },
        Prop {
            id: "C22",
            spaces: vec![
                space("pairs of amounts", c22_pairs),
                space("scaling", c22_scale),
                space("triples of balances", c22_triples),
                space("sequences of operations", c22_sequences),
            ],
            assumptions: assume("the num crate's BigRational is exact"),
        },
    ];
    mcl::engine::main(props, dinero::run_app);
}
