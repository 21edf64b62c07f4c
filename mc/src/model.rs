//! The reference model: what a journal means, written independently of dinero.

use num::{BigInt, BigRational, Signed, Zero};
use std::collections::{BTreeMap, BTreeSet};

pub type Rat = BigRational;
pub type Date = (i32, u32, u32);

pub fn rat(lit: &str) -> Rat {
    let neg = lit.starts_with('-');
    let body = lit.trim_start_matches('-');
    let (i, d) = match body.find('.') {
        Some(k) => (&body[..k], &body[k + 1..]),
        None => (body, ""),
    };
    let digits = format!("0{}{}", i, d);
    let num: BigInt = digits.parse().unwrap();
    let den: BigInt = num::pow(BigInt::from(10), d.len());
    let r = Rat::new(num, den);
    if neg {
        -r
    } else {
        r
    }
}
pub fn int(n: i64) -> Rat {
    Rat::from(BigInt::from(n))
}
pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn days_in(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 0,
    }
}
pub fn valid(d: Date) -> bool {
    d.1 >= 1 && d.1 <= 12 && d.2 >= 1 && d.2 <= days_in(d.0, d.1)
}
/// days since 0000-03-01, for differences
pub fn ordinal(d: Date) -> i64 {
    let mut n = 0i64;
    let y0 = d.0 as i64;
    n += y0 * 365 + if y0 > 0 { (y0 - 1) / 4 - (y0 - 1) / 100 + (y0 - 1) / 400 + 1 } else { 0 };
    for m in 1..d.1 {
        n += days_in(d.0, m) as i64;
    }
    n + d.2 as i64
}
pub fn ds(d: Date) -> String {
    format!("{:04}-{:02}-{:02}", d.0, d.1, d.2)
}
pub fn day(n: u32) -> Date {
    // n-th day counted from 2020-01-01, inside 2020
    let mut m = 1;
    let mut n = n;
    while n >= days_in(2020, m) {
        n -= days_in(2020, m);
        m += 1;
    }
    (2020, m, n + 1)
}

/// display with p decimals, half away from zero
pub fn disp_p(q: &Rat, c: &str, p: usize) -> String {
    let scale = num::pow(BigInt::from(10), p);
    let x = q.abs() * Rat::from(scale);
    // floor(x + 1/2)
    let two = BigInt::from(2);
    let n = (x.numer() * &two + x.denom()) / (x.denom() * &two);
    let mut s = n.to_string();
    while s.len() < p + 1 {
        s.insert(0, '0');
    }
    let (i, d) = s.split_at(s.len() - p);
    let sign = if q.is_negative() && !n.is_zero() { "-" } else { "" };
    if p == 0 {
        format!("{}{} {}", sign, i, c)
    } else {
        format!("{}{}.{} {}", sign, i, d, c)
    }
}
pub fn disp(q: &Rat, c: &str) -> String {
    disp_p(q, c, 2)
}

// ------------------------------------------------------------------ journal

#[derive(Clone, Debug)]
pub struct Amt {
    pub lit: String,
    pub c: String,
    /// written before the number
    pub prefix: bool,
}
impl Amt {
    pub fn q(&self) -> Rat {
        rat(&self.lit)
    }
    pub fn text(&self) -> String {
        let c = if self.c.is_empty() {
            String::new()
        } else if self
            .c
            .chars()
            .any(|x| x.is_whitespace() || x.is_numeric() || ".-;@=\"+*/\\|%<>:?()".contains(x))
        {
            format!("\"{}\"", self.c)
        } else {
            self.c.clone()
        };
        if c.is_empty() {
            self.lit.clone()
        } else if self.prefix {
            format!("{}{}", c, self.lit)
        } else {
            format!("{} {}", self.lit, c)
        }
    }
}
pub fn am(lit: &str, c: &str) -> Amt {
    Amt {
        lit: lit.to_string(),
        c: c.to_string(),
        prefix: false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Real,
    Virt,
    Brac,
}

#[derive(Clone, Debug)]
pub struct Post {
    pub kind: Kind,
    pub acc: String,
    pub amt: Option<Amt>,
    /// (total, cost)
    pub cost: Option<(bool, Amt)>,
    pub bal: Option<Amt>,
    /// comment on the line of the posting
    pub inline: Option<String>,
    /// comment lines that follow it
    pub after: Vec<String>,
}
pub fn po(acc: &str, lit: &str, c: &str) -> Post {
    Post {
        kind: Kind::Real,
        acc: acc.to_string(),
        amt: Some(am(lit, c)),
        cost: None,
        bal: None,
        inline: None,
        after: vec![],
    }
}
pub fn el(acc: &str) -> Post {
    Post {
        kind: Kind::Real,
        acc: acc.to_string(),
        amt: None,
        cost: None,
        bal: None,
        inline: None,
        after: vec![],
    }
}
impl Post {
    pub fn kind(mut self, k: Kind) -> Post {
        self.kind = k;
        self
    }
    pub fn at(mut self, lit: &str, c: &str) -> Post {
        self.cost = Some((false, am(lit, c)));
        self
    }
    pub fn att(mut self, lit: &str, c: &str) -> Post {
        self.cost = Some((true, am(lit, c)));
        self
    }
    pub fn eq(mut self, lit: &str, c: &str) -> Post {
        self.bal = Some(am(lit, c));
        self
    }
    pub fn note(mut self, s: &str) -> Post {
        self.inline = Some(s.to_string());
        self
    }
    pub fn after(mut self, s: &str) -> Post {
        self.after.push(s.to_string());
        self
    }
}

#[derive(Clone, Debug)]
pub struct Txn {
    pub date: Date,
    pub desc: String,
    pub payee: Option<String>,
    /// right after the date: time, effective date
    pub eff: String,
    /// between the date and the description: status, code
    pub mark: String,
    pub hdr: Option<String>,
    pub pre: Vec<String>,
    pub posts: Vec<Post>,
}
pub fn tx(date: Date, desc: &str, posts: Vec<Post>) -> Txn {
    Txn {
        date,
        desc: desc.to_string(),
        payee: None,
        eff: String::new(),
        mark: String::new(),
        hdr: None,
        pre: vec![],
        posts,
    }
}
impl Txn {
    pub fn eff(mut self, s: &str) -> Txn {
        self.eff = s.to_string();
        self
    }
    pub fn hdr(mut self, s: &str) -> Txn {
        self.hdr = Some(s.to_string());
        self
    }
    pub fn pre(mut self, s: &str) -> Txn {
        self.pre.push(s.to_string());
        self
    }
    pub fn payee(mut self, s: &str) -> Txn {
        self.payee = Some(s.to_string());
        self
    }
}

#[derive(Clone, Debug)]
pub enum AutoAmt {
    Mult(String),
    Fixed(Amt),
    Expr(E),
    /// an expression, as it is written
    Written(String, E),
}
#[derive(Clone, Debug)]
pub struct AutoPost {
    pub kind: Kind,
    pub acc: String,
    pub amt: AutoAmt,
}
#[derive(Clone, Debug)]
pub struct Auto {
    pub text: String,
    pub pred: E,
    pub comments: Vec<String>,
    pub posts: Vec<AutoPost>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Txn(Txn),
    Price { date: Date, com: String, amt: Amt },
    Commodity { name: String, aliases: Vec<String>, extra: Vec<String> },
    Account { name: String, aliases: Vec<String>, payees: Vec<String>, extra: Vec<String> },
    Payee { name: String, aliases: Vec<String> },
    Tag { name: String },
    Auto(Auto),
    Raw(String),
}
pub type Journal = Vec<Item>;

/// How a journal is written
#[derive(Clone, Debug)]
pub struct Layout {
    pub indent: String,
    pub gap: String,
    pub trail: String,
    pub eol: String,
    pub final_eol: bool,
    pub date_sep: char,
    pub date_pad: bool,
    pub between: String,
    /// around @ and = (before them at least one blank: they can be part of a commodity)
    pub around: String,
    pub before_comment: String,
}
impl Default for Layout {
    fn default() -> Self {
        Layout {
            indent: "    ".into(),
            gap: "  ".into(),
            trail: "".into(),
            eol: "\n".into(),
            final_eol: true,
            date_sep: '-',
            date_pad: true,
            between: "\n".into(),
            around: " ".into(),
            before_comment: "  ".into(),
        }
    }
}
impl Layout {
    fn date(&self, d: Date) -> String {
        if self.date_pad {
            format!("{:04}{s}{:02}{s}{:02}", d.0, d.1, d.2, s = self.date_sep)
        } else {
            format!("{}{s}{}{s}{}", d.0, d.1, d.2, s = self.date_sep)
        }
    }
}
pub fn quoted(c: &str) -> String {
    am("1", c).text()[2..].to_string()
}
fn acc_text(kind: Kind, acc: &str) -> String {
    match kind {
        Kind::Real => acc.to_string(),
        Kind::Virt => format!("({})", acc),
        Kind::Brac => format!("[{}]", acc),
    }
}
pub fn lines(item: &Item, l: &Layout) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match item {
        Item::Raw(s) => v.extend(s.split('\n').map(|x| x.to_string())),
        Item::Txn(t) => {
            let mut h = l.date(t.date);
            h.push_str(&t.eff);
            if !t.mark.is_empty() {
                h.push(' ');
                h.push_str(&t.mark);
            }
            if !t.desc.is_empty() {
                h.push(' ');
                h.push_str(&t.desc);
            }
            if let Some(p) = &t.payee {
                h.push_str(" | ");
                h.push_str(p);
            }
            if let Some(c) = &t.hdr {
                h.push_str(&l.before_comment);
                h.push(';');
                h.push_str(c);
            }
            v.push(h);
            for c in &t.pre {
                v.push(format!("{};{}", l.indent, c));
            }
            for p in &t.posts {
                let mut s = format!("{}{}", l.indent, acc_text(p.kind, &p.acc));
                if p.amt.is_some() || p.bal.is_some() {
                    s.push_str(&l.gap);
                }
                if let Some(a) = &p.amt {
                    s.push_str(&a.text());
                }
                if let Some((total, a)) = &p.cost {
                    s.push_str(&format!(
                        "{}{}{}{}",
                        if l.around.is_empty() { " " } else { &l.around },
                        if *total { "@@" } else { "@" },
                        l.around,
                        a.text()
                    ));
                }
                if let Some(a) = &p.bal {
                    if p.amt.is_some() {
                        s.push_str(if l.around.is_empty() { " " } else { &l.around });
                    }
                    s.push_str(&format!("={}{}", l.around, a.text()));
                }
                if let Some(c) = &p.inline {
                    s.push_str("  ;");
                    s.push_str(c);
                }
                v.push(s);
                for c in &p.after {
                    v.push(format!("{};{}", l.indent, c));
                }
            }
        }
        Item::Price { date, com, amt } => v.push(format!(
            "P {} {} {}",
            l.date(*date),
            quoted(com),
            amt.text()
        )),
        Item::Commodity { name, aliases, extra } => {
            v.push(format!("commodity {}", quoted(name)));
            for a in aliases {
                v.push(format!("{}alias {}", l.indent, a));
            }
            for a in extra {
                v.push(format!("{}{}", l.indent, a));
            }
        }
        Item::Account { name, aliases, payees, extra } => {
            v.push(format!("account {}", name));
            for a in aliases {
                v.push(format!("{}alias {}", l.indent, a));
            }
            for a in payees {
                v.push(format!("{}payee {}", l.indent, a));
            }
            for a in extra {
                v.push(format!("{}{}", l.indent, a));
            }
        }
        Item::Payee { name, aliases } => {
            v.push(format!("payee {}", name));
            for a in aliases {
                v.push(format!("{}alias {}", l.indent, a));
            }
        }
        Item::Tag { name } => v.push(format!("tag {}", name)),
        Item::Auto(a) => {
            v.push(format!("= {}", a.text));
            for c in &a.comments {
                v.push(format!("{};{}", l.indent, c));
            }
            for p in &a.posts {
                v.push(format!(
                    "{}{}{}{}",
                    l.indent,
                    acc_text(p.kind, &p.acc),
                    l.gap,
                    match &p.amt {
                        AutoAmt::Mult(s) => s.clone(),
                        AutoAmt::Fixed(a) => a.text(),
                        AutoAmt::Expr(e) => format!("({})", e.text()),
                        AutoAmt::Written(w, _) => w.clone(),
                    }
                ));
            }
        }
    }
    v
}
pub fn text_with(j: &[Item], l: &Layout) -> String {
    let mut out = String::new();
    for (i, item) in j.iter().enumerate() {
        if i > 0 {
            out.push_str(&l.between.replace('\n', &l.eol));
        }
        for s in lines(item, l) {
            out.push_str(&s);
            out.push_str(&l.trail);
            out.push_str(&l.eol);
        }
    }
    if !l.final_eol {
        let n = out.len() - l.eol.len();
        out.truncate(n);
    }
    out
}
pub fn text(j: &[Item]) -> String {
    text_with(j, &Layout::default())
}

// ------------------------------------------------------------------ value expressions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Or,
    And,
    Eq,
    Match,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
}
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Or => "or",
            Op::And => "and",
            Op::Eq => "==",
            Op::Match => "=~",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Gt => ">",
            Op::Le => "<=",
            Op::Ge => ">=",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
        }
    }
    pub fn prec(self) -> u8 {
        match self {
            Op::Or => 1,
            Op::And => 2,
            Op::Eq | Op::Match | Op::Ne | Op::Lt | Op::Gt | Op::Le | Op::Ge => 4,
            Op::Add | Op::Sub => 5,
            Op::Mul | Op::Div => 6,
        }
    }
}
#[derive(Clone, Debug)]
pub enum E {
    Num(String),
    Money(String, String),
    Amount,
    Account,
    Payee,
    Note,
    Date,
    Re(String),
    Str(String),
    Neg(Box<E>),
    Not(Box<E>, bool),
    Abs(Box<E>),
    Any(Box<E>),
    HasTag(String),
    TagRe(String),
    TagStr(String),
    ToDate(String),
    Bin(Op, Box<E>, Box<E>),
    True,
}
pub fn bin(op: Op, a: E, b: E) -> E {
    E::Bin(op, Box::new(a), Box::new(b))
}
pub fn acc_re(re: &str) -> E {
    bin(Op::Match, E::Account, E::Re(re.to_string()))
}
impl E {
    fn prec(&self) -> u8 {
        match self {
            E::Bin(op, _, _) => op.prec(),
            E::Not(..) => 3,
            E::Neg(..) => 7,
            E::Num(s) | E::Money(s, _) if s.starts_with('-') => 7,
            _ => 9,
        }
    }
    fn wrap(&self, min: u8) -> String {
        if self.prec() < min {
            format!("({})", self.text())
        } else {
            self.text()
        }
    }
    /// With the fewest parentheses
    pub fn text(&self) -> String {
        match self {
            E::Num(s) => s.clone(),
            E::Money(s, c) => format!("{} {}", s, c),
            E::Amount => "amount".into(),
            E::Account => "account".into(),
            E::Payee => "payee".into(),
            E::Note => "note".into(),
            E::Date => "date".into(),
            E::Re(s) => format!("/{}/", s),
            E::Str(s) => format!("\"{}\"", s),
            E::Neg(e) => format!("-{}", e.wrap(8)),
            E::Not(e, bang) => format!("{}{}", if *bang { "!" } else { "not " }, e.wrap(4)),
            E::Abs(e) => format!("abs({})", e.text()),
            E::Any(e) => format!("any({})", e.text()),
            E::HasTag(s) => format!("has_tag(/{}/)", s),
            E::TagRe(s) => format!("tag(/{}/)", s),
            E::TagStr(s) => format!("tag(\"{}\")", s),
            E::ToDate(s) => format!("to_date(\"{}\")", s),
            E::Bin(op, a, b) => {
                let p = op.prec();
                // comparisons are written with parentheses inside each other
                let left = if p == 4 { p + 1 } else { p };
                format!("{} {} {}", a.wrap(left), op.text(), b.wrap(p + 1))
            }
            E::True => "1 == 1".into(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Num(Rat),
    /// zero has no commodity
    Money(Rat, Option<String>),
    Bool(bool),
    Str(Option<String>),
    Date(Date),
    Account,
    Payee,
    Note,
    Re(String),
}
pub fn rx(p: &str) -> regex::Regex {
    thread_local! {
        static CACHE: std::cell::RefCell<BTreeMap<String, regex::Regex>> = Default::default();
    }
    CACHE.with(|c| {
        c.borrow_mut()
            .entry(p.to_string())
            .or_insert_with(|| regex::Regex::new(p).unwrap())
            .clone()
    })
}

/// None: a type error, the command must fail
pub fn eval(e: &E, p: &LP, t: &LT) -> Option<V> {
    Some(match e {
        E::True => V::Bool(true),
        E::Num(s) => V::Num(rat(s)),
        E::Money(s, c) => V::Money(rat(s), Some(c.clone())),
        E::Amount => {
            let (q, c) = p.amt.clone()?;
            V::Money(q, if c.is_empty() { None } else { Some(c) })
        }
        E::Account => V::Account,
        E::Payee => V::Payee,
        E::Note => V::Note,
        E::Date => V::Date(t.date),
        E::Re(s) => V::Re(s.clone()),
        E::Str(s) => V::Str(Some(s.clone())),
        E::Neg(x) => match eval(x, p, t)? {
            V::Num(n) => V::Num(-n),
            V::Money(n, c) => V::Money(-n, c),
            _ => return None,
        },
        E::Not(x, _) => match eval(x, p, t)? {
            V::Bool(b) => V::Bool(!b),
            _ => return None,
        },
        E::Abs(x) => match eval(x, p, t)? {
            V::Num(n) => V::Num(n.abs()),
            V::Money(n, c) => V::Money(n.abs(), c),
            _ => return None,
        },
        E::Any(x) => {
            // the argument is evaluated for every posting of the transaction
            for q in &t.posts {
                match eval(x, q, t)? {
                    V::Bool(true) => return Some(V::Bool(true)),
                    V::Bool(false) => {}
                    _ => return None,
                }
            }
            V::Bool(false)
        }
        E::HasTag(s) => V::Bool(p.tags.iter().any(|x| rx(s).is_match(&x.0))),
        E::TagRe(s) => V::Str(
            p.tags
                .iter()
                .find(|x| rx(s).is_match(&x.0))
                .and_then(|x| x.1.clone()),
        ),
        E::TagStr(s) => V::Str(p.tags.iter().find(|x| &x.0 == s).and_then(|x| x.1.clone())),
        E::ToDate(s) => {
            let v: Vec<&str> = s.split(|c| c == '-' || c == '/').collect();
            let d = (v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap());
            if !valid(d) {
                return None;
            }
            V::Date(d)
        }
        E::Bin(op, a, b) => {
            let (x, y) = (eval(a, p, t)?, eval(b, p, t)?);
            match op {
                Op::Or | Op::And => match (x, y) {
                    (V::Bool(x), V::Bool(y)) => V::Bool(if *op == Op::Or { x || y } else { x && y }),
                    _ => return None,
                },
                Op::Add | Op::Sub => {
                    let s = |q: Rat| if *op == Op::Add { q } else { -q };
                    match (x, y) {
                        (V::Num(x), V::Num(y)) => V::Num(x + s(y)),
                        (V::Money(x, c), V::Money(y, d)) => {
                            let r = x.clone() + s(y.clone());
                            if c.is_none() || d.is_none() || c == d {
                                if r.is_zero() {
                                    V::Money(r, None)
                                } else {
                                    V::Money(r, c.or(d))
                                }
                            } else if x.is_zero() {
                                V::Money(s(y), d)
                            } else if y.is_zero() {
                                V::Money(x, c)
                            } else {
                                return None;
                            }
                        }
                        _ => return None,
                    }
                }
                Op::Mul => match (x, y) {
                    (V::Num(x), V::Num(y)) => V::Num(x * y),
                    (V::Num(x), V::Money(y, c)) | (V::Money(y, c), V::Num(x)) => V::Money(x * y, c),
                    _ => return None,
                },
                Op::Div => match (x, y) {
                    (_, V::Num(y)) if y.is_zero() => return None,
                    (V::Num(x), V::Num(y)) => V::Num(x / y),
                    (V::Money(x, c), V::Num(y)) => V::Money(x / y, c),
                    _ => return None,
                },
                Op::Match | Op::Eq if matches!(y, V::Re(_)) => {
                    let re = match y {
                        V::Re(s) => rx(&s),
                        _ => unreachable!(),
                    };
                    V::Bool(match x {
                        V::Account => re.is_match(&p.acc),
                        V::Payee => re.is_match(&p.payee),
                        V::Str(Some(s)) => re.is_match(&s),
                        V::Str(None) => false,
                        V::Note => t.comments.iter().any(|c| re.is_match(c)),
                        _ => return None,
                    })
                }
                Op::Match | Op::Eq | Op::Ne => {
                    let e = match (x, y) {
                        (V::Num(x), V::Num(y)) => x == y,
                        (V::Num(x), V::Money(y, _)) | (V::Money(y, _), V::Num(x)) => x == y,
                        (V::Money(x, c), V::Money(y, d)) => {
                            x == y && (c == d || c.is_none() || d.is_none() )
                        }
                        (V::Bool(x), V::Bool(y)) => x == y,
                        (V::Str(x), V::Str(y)) => x == y,
                        (V::Date(x), V::Date(y)) => x == y,
                        _ => return None,
                    };
                    V::Bool(e == (*op != Op::Ne))
                }
                Op::Lt | Op::Gt | Op::Le | Op::Ge => {
                    let o = match (x, y) {
                        (V::Num(x), V::Num(y)) => x.cmp(&y),
                        (V::Num(x), V::Money(y, _)) => x.cmp(&y),
                        (V::Money(x, _), V::Num(y)) => x.cmp(&y),
                        (V::Money(x, c), V::Money(y, d)) => {
                            if c.is_some() && d.is_some() && c != d {
                                return None;
                            }
                            x.cmp(&y)
                        }
                        (V::Str(x), V::Str(y)) => x.cmp(&y),
                        (V::Date(x), V::Date(y)) => x.cmp(&y),
                        _ => return None,
                    };
                    V::Bool(match op {
                        Op::Lt => o.is_lt(),
                        Op::Gt => o.is_gt(),
                        Op::Le => o.is_le(),
                        _ => o.is_ge(),
                    })
                }
            }
        }
    })
}

// ------------------------------------------------------------------ meaning

pub type Bal = BTreeMap<String, Rat>;
pub fn add(b: &mut Bal, c: &str, q: &Rat) {
    let e = b.entry(c.to_string()).or_insert_with(Rat::zero);
    *e += q;
    if e.is_zero() {
        b.remove(c);
    }
}
fn can_be_zero(b: &Bal) -> bool {
    b.is_empty() || (b.values().any(|x| x.is_positive()) && b.values().any(|x| x.is_negative()))
}

#[derive(Clone, Debug)]
pub struct LP {
    pub kind: Kind,
    pub acc: String,
    /// the commodity is empty when the amount is zero and has none
    pub amt: Option<(Rat, String)>,
    pub cost: Option<(bool, Rat, String)>,
    pub bal: Option<(Rat, String)>,
    pub payee: String,
    pub tags: Vec<(String, Option<String>)>,
    /// written with an amount
    pub explicit: bool,
    pub auto: bool,
}
#[derive(Clone, Debug)]
pub struct LT {
    pub date: Date,
    pub shown: String,
    pub comments: Vec<String>,
    pub posts: Vec<LP>,
}
#[derive(Clone, Debug)]
pub struct PriceL {
    pub date: Date,
    pub com: String,
    pub q: Rat,
    pub to: String,
    /// from an exchange: either direction will do
    pub implied: bool,
}
#[derive(Clone, Debug)]
pub struct L {
    pub txns: Vec<LT>,
    pub prices: Vec<PriceL>,
    pub accounts: BTreeSet<String>,
    pub payees: BTreeSet<String>,
    pub commodities: BTreeSet<String>,
}

/// Names by directive, alias or first use
#[derive(Clone, Debug, Default)]
pub struct Names {
    declared: BTreeMap<String, String>,
    aliases: BTreeMap<String, String>,
    pub all: BTreeSet<String>,
    patterns: Vec<(String, String)>,
}
impl Names {
    fn declare(&mut self, name: &str, aliases: &[String]) {
        // declared again: the first one stays
        let name = match self.declared.get(&name.to_lowercase()) {
            Some(x) => x.clone(),
            None => {
                self.declared.insert(name.to_lowercase(), name.to_string());
                self.all.insert(name.to_string());
                name.to_string()
            }
        };
        for a in aliases {
            self.aliases.insert(a.to_lowercase(), name.clone());
        }
    }
    fn find(&self, name: &str) -> Option<String> {
        let low = name.to_lowercase();
        self.declared.get(&low).or(self.aliases.get(&low)).cloned()
    }
    fn get(&mut self, name: &str) -> String {
        if let Some(x) = self.find(name) {
            return x;
        }
        for (re, n) in &self.patterns {
            if rx(re).is_match(name) {
                let n = n.clone();
                self.aliases.insert(name.to_lowercase(), n.clone());
                return n;
            }
        }
        self.declare(name, &[]);
        name.to_string()
    }
}

pub fn tags_of(comment: &str) -> Vec<(String, Option<String>)> {
    // ':a:b:' at the end, or 'name: value'
    let c = comment.trim();
    if c.ends_with(':') && c.len() > 2 {
        if let Some(k) = c.find(':') {
            if k < c.len() - 1 {
                let inner = &c[k + 1..c.len() - 1];
                return inner.split(':').map(|x| (x.to_string(), None)).collect();
            }
        }
        return vec![];
    }
    match c.matches(':').count() {
        1 => {
            let k = c.find(':').unwrap();
            vec![(c[..k].to_string(), Some(c[k + 1..].trim().to_string()))]
        }
        _ => vec![],
    }
}

fn at_cost(p: &LP) -> Option<(Rat, String)> {
    let (q, c) = p.amt.clone()?;
    Some(match &p.cost {
        None => (q, c),
        Some((true, k, kc)) => (
            if q.is_negative() { -k.clone() } else { k.clone() },
            kc.clone(),
        ),
        Some((false, k, kc)) => (q * k, kc.clone()),
    })
}

/// One transaction; Err: rejected
fn settle(t: &mut LT, balances: &mut BTreeMap<String, Bal>, no_check: bool) -> Result<Bal, String> {
    let mut brac = Bal::new();
    for p in t.posts.iter() {
        if p.kind != Kind::Real && p.amt.is_none() {
            return Err("virtual posting without amount".into());
        }
        if p.kind == Kind::Brac {
            let (q, c) = at_cost(p).unwrap();
            add(&mut brac, &c, &q);
        }
    }
    if !can_be_zero(&brac) {
        return Err("bracketed postings do not balance".into());
    }
    let mut sum = Bal::new();
    let mut empty: Vec<usize> = vec![];
    for i in 0..t.posts.len() {
        if t.posts[i].kind != Kind::Real {
            continue;
        }
        let acc = t.posts[i].acc.clone();
        let b = balances.entry(acc).or_default();
        if let Some((q, c)) = t.posts[i].amt.clone() {
            add(b, &c, &q);
            if !no_check {
                if let Some((want, wc)) = &t.posts[i].bal {
                    let have = b.get(wc).cloned().unwrap_or_else(Rat::zero);
                    if &have != want {
                        return Err("balance assertion".into());
                    }
                }
            }
            let (q, c) = at_cost(&t.posts[i]).unwrap();
            add(&mut sum, &c, &q);
        } else if t.posts[i].bal.is_some() && !no_check {
            let (want, wc) = t.posts[i].bal.clone().unwrap();
            let have = b.get(&wc).cloned().unwrap_or_else(Rat::zero);
            let d = want - have;
            add(b, &wc, &d);
            add(&mut sum, &wc, &d);
            t.posts[i].amt = Some((d, wc));
        } else {
            empty.push(i);
        }
    }
    match empty.len() {
        0 => {
            if !can_be_zero(&sum) {
                return Err("unbalanced".into());
            }
            Ok(sum)
        }
        1 => {
            let p = t.posts.remove(empty[0]);
            for (c, q) in sum.iter() {
                let mut x = p.clone();
                x.amt = Some((-q.clone(), c.clone()));
                add(balances.entry(p.acc.clone()).or_default(), c, &-q.clone());
                t.posts.push(x);
            }
            Ok(Bal::new())
        }
        _ => Err("too many empty postings".into()),
    }
}

pub fn ledger(j: &[Item], no_check: bool) -> Result<L, String> {
    let mut accs = Names::default();
    let mut coms = Names::default();
    let mut pays = Names::default();
    let mut acc_payees: Vec<(String, String)> = vec![];
    for it in j {
        match it {
            Item::Account { name, aliases, payees, .. } => {
                accs.declare(name, aliases);
                let first = accs.find(name).unwrap();
                for p in payees {
                    acc_payees.push((p.clone(), first.clone()));
                }
            }
            Item::Commodity { name, aliases, .. } => coms.declare(name, aliases),
            Item::Payee { name, aliases } => {
                // aliases of payees are patterns, and also names
                pays.declare(name, aliases);
                let first = pays.find(name).unwrap();
                for a in aliases {
                    pays.patterns.push((a.clone(), first.clone()));
                }
            }
            _ => {}
        }
    }
    let mut prices = vec![];
    for it in j {
        if let Item::Price { date, com, amt } = it {
            if !valid(*date) {
                return Err("date".into());
            }
            prices.push(PriceL {
                date: *date,
                com: coms.get(com),
                q: amt.q(),
                to: coms.get(&amt.c),
                implied: false,
            });
        }
    }
    let mut txns: Vec<LT> = vec![];
    for it in j {
        let t = match it {
            Item::Txn(t) => t,
            _ => continue,
        };
        if !valid(t.date) {
            return Err("date".into());
        }
        let payee_name = match &t.payee {
            Some(p) => p.clone(),
            None if t.desc.is_empty() => "[Unspecified payee]".to_string(),
            None => t.desc.clone(),
        };
        let mut comments: Vec<String> = vec![];
        if let Some(c) = &t.hdr {
            comments.push(c.trim().to_string());
        }
        comments.extend(t.pre.iter().map(|x| x.trim().to_string()));
        let ttags: Vec<_> = comments.iter().flat_map(|c| tags_of(c)).collect();
        let mut lt = LT {
            date: t.date,
            shown: String::new(),
            comments,
            posts: vec![],
        };
        let payee = if t.posts.is_empty() {
            payee_name.clone()
        } else {
            pays.get(&payee_name)
        };
        lt.shown = match &t.payee {
            None if !t.desc.is_empty() => payee.clone(),
            _ => t.desc.clone(),
        };
        for p in &t.posts {
            let mut acc = accs.get(&p.acc);
            if p.acc.to_lowercase().ends_with("unknown") {
                if let Some((_, a)) = acc_payees.iter().rev().find(|(re, _)| rx(re).is_match(&payee)) {
                    acc = a.clone();
                }
            }
            let mut tags = ttags.clone();
            for c in p.inline.iter().chain(p.after.iter()) {
                tags.extend(tags_of(c));
            }
            let amt = p.amt.as_ref().map(|a| (a.q(), coms.get(&a.c)));
            let cost = p.cost.as_ref().map(|(t, a)| (*t, a.q(), coms.get(&a.c)));
            let bal = p.bal.as_ref().map(|a| (a.q(), coms.get(&a.c)));
            if let (Some((q, c)), Some((total, k, kc))) = (&amt, &cost) {
                if *total && q.is_zero() {
                    return Err("division by zero".into());
                }
                prices.push(PriceL {
                    date: t.date,
                    com: c.clone(),
                    q: if *total { k / q.abs() } else { k.clone() },
                    to: kc.clone(),
                    implied: false,
                });
            }
            lt.posts.push(LP {
                kind: p.kind,
                acc,
                amt,
                cost,
                bal,
                payee: payee.clone(),
                tags,
                explicit: p.amt.is_some() || p.bal.is_some(),
                auto: false,
            });
        }
        txns.push(lt);
    }
    txns.sort_by_key(|t| t.date);
    let autos: Vec<&Auto> = j
        .iter()
        .filter_map(|x| if let Item::Auto(a) = x { Some(a) } else { None })
        .collect();
    let mut implied = vec![];
    let mut balances: BTreeMap<String, Bal> = BTreeMap::new();
    for t in txns.iter_mut() {
        let rem = settle(t, &mut balances, no_check)?;
        note_implied(&mut implied, t.date, &rem);
    }
    if !autos.is_empty() {
        implied.clear();
        for a in autos.iter() {
            for p in &a.posts {
                accs.get(&p.acc);
                if let AutoAmt::Fixed(x) = &p.amt {
                    coms.get(&x.c);
                }
            }
        }
        for t in txns.iter_mut() {
            for a in autos.iter() {
                let mut extra = vec![];
                for i in 0..t.posts.len() {
                    if t.posts[i].auto {
                        continue;
                    }
                    match eval(&a.pred, &t.posts[i], t) {
                        Some(V::Bool(true)) => {}
                        Some(V::Bool(false)) => continue,
                        _ => return Err("type error".into()),
                    }
                    for c in &a.comments {
                        t.posts[i].tags.extend(tags_of(c));
                    }
                    for p in &a.posts {
                        let (q, c) = t.posts[i].amt.clone().unwrap();
                        let amt = match &p.amt {
                            AutoAmt::Mult(m) => (q * rat(m), c),
                            AutoAmt::Fixed(x) => (x.q(), coms.get(&x.c)),
                            AutoAmt::Expr(e) | AutoAmt::Written(_, e) => match eval(e, &t.posts[i], t) {
                                Some(V::Num(n)) => (q * n, c),
                                Some(V::Money(n, c)) => (n, c.unwrap_or_default()),
                                _ => return Err("type error".into()),
                            },
                        };
                        extra.push(LP {
                            kind: p.kind,
                            acc: accs.get(&p.acc),
                            amt: Some(amt),
                            cost: None,
                            bal: None,
                            payee: t.posts[i].payee.clone(),
                            tags: vec![],
                            explicit: true,
                            auto: true,
                        });
                    }
                }
                t.posts.append(&mut extra);
            }
        }
        let mut balances: BTreeMap<String, Bal> = BTreeMap::new();
        for t in txns.iter_mut() {
            let rem = settle(t, &mut balances, no_check)?;
            note_implied(&mut implied, t.date, &rem);
        }
    }
    prices.append(&mut implied);
    Ok(L {
        txns,
        prices,
        accounts: accs.all,
        payees: pays.all,
        commodities: coms.all,
    })
}
fn note_implied(prices: &mut Vec<PriceL>, date: Date, rem: &Bal) {
    if rem.len() == 2 {
        let v: Vec<_> = rem.iter().collect();
        prices.push(PriceL {
            date,
            com: v[0].0.clone(),
            q: v[1].1.abs() / v[0].1.abs(),
            to: v[1].0.clone(),
            implied: true,
        });
    }
}

// ------------------------------------------------------------------ selection

#[derive(Clone, Debug, Default)]
pub struct Sel {
    pub begin: Option<Date>,
    pub end: Option<Date>,
    pub real: bool,
    pub pred: Option<E>,
    /// the words of the query
    pub query: Vec<String>,
}
impl Sel {
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if let Some(d) = self.begin {
            v.push("-b".to_string());
            v.push(ds(d));
        }
        if let Some(d) = self.end {
            v.push("-e".to_string());
            v.push(ds(d));
        }
        if self.real {
            v.push("--real".to_string());
        }
        v.extend(self.query.iter().cloned());
        v
    }
    /// None: the query has a type error on this posting
    pub fn keeps(&self, p: &LP, t: &LT) -> Option<bool> {
        if self.real && p.kind != Kind::Real {
            return Some(false);
        }
        if self.begin.map_or(false, |d| t.date < d) || self.end.map_or(false, |d| t.date >= d) {
            return Some(false);
        }
        match &self.pred {
            None => Some(true),
            Some(e) => match eval(e, p, t)? {
                V::Bool(b) => Some(b),
                _ => None,
            },
        }
    }
}

// ------------------------------------------------------------------ conversion

/// All the multipliers that a shortest chain of latest quotes may give, per commodity
pub fn multipliers(prices: &[PriceL], target: &str, today: Date) -> BTreeMap<String, Vec<Rat>> {
    // the latest quotes of every pair; several of the same date are all possible
    let mut pairs: BTreeMap<(String, String), Vec<&PriceL>> = BTreeMap::new();
    for p in prices {
        if p.date > today || p.com == p.to {
            continue;
        }
        let k = if p.com < p.to {
            (p.com.clone(), p.to.clone())
        } else {
            (p.to.clone(), p.com.clone())
        };
        let e = pairs.entry(k).or_default();
        if e.is_empty() || e[0].date < p.date {
            *e = vec![p];
        } else if e[0].date == p.date {
            e.push(p);
        }
    }
    // nodes: (commodity, date)
    let mut nodes: BTreeSet<(String, Date)> = BTreeSet::new();
    nodes.insert((target.to_string(), today));
    for (k, v) in &pairs {
        nodes.insert((k.0.clone(), v[0].date));
        nodes.insert((k.1.clone(), v[0].date));
    }
    let nodes: Vec<(String, Date)> = nodes.into_iter().collect();
    let n = nodes.len();
    let o: Vec<i64> = nodes.iter().map(|x| ordinal(x.1)).collect();
    let inf = i64::MAX / 4;
    let mut dist: Vec<i64> = nodes
        .iter()
        .enumerate()
        .map(|(i, x)| if x.0 == target { ordinal(today) - o[i] } else { inf })
        .collect();
    let linked = |i: usize, j: usize| -> Option<Vec<Rat>> {
        // multiplier from j to i
        if nodes[i].0 == nodes[j].0 {
            return Some(vec![int(1)]);
        }
        if nodes[i].1 != nodes[j].1 {
            return None;
        }
        let k = if nodes[i].0 < nodes[j].0 {
            (nodes[i].0.clone(), nodes[j].0.clone())
        } else {
            (nodes[j].0.clone(), nodes[i].0.clone())
        };
        let v = pairs.get(&k)?;
        if v[0].date != nodes[i].1 {
            return None;
        }
        // a quote of zero gives a value of zero, and cannot be inverted
        let r: Vec<Rat> = v
            .iter()
            .filter(|p| p.com == nodes[j].0 || !p.q.is_zero())
            .map(|p| if p.com == nodes[j].0 { p.q.clone() } else { int(1) / p.q.clone() })
            .collect();
        if r.is_empty() {
            None
        } else {
            Some(r)
        }
    };
    // relax until nothing changes
    loop {
        let mut changed = false;
        for i in 0..n {
            if dist[i] >= inf {
                continue;
            }
            for j in 0..n {
                if i != j && linked(i, j).is_some() {
                    let d = dist[i] + (o[i] - o[j]).abs();
                    if d < dist[j] {
                        dist[j] = d;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    // every value along simple shortest paths
    let mut vals: Vec<BTreeSet<Rat>> = vec![BTreeSet::new(); n];
    assert!(n <= 127);
    let mut stack: Vec<(usize, u128, Rat)> = vec![];
    for i in 0..n {
        if nodes[i].0 == target {
            stack.push((i, 1 << i, int(1)));
        }
    }
    while let Some((i, seen, v)) = stack.pop() {
        for j in 0..n {
            if seen >> j & 1 == 1 || nodes[j].0 == target {
                continue;
            }
            if let Some(ms) = linked(i, j) {
                if dist[j] == dist[i] + (o[i] - o[j]).abs() {
                    for m in &ms {
                        let w = m * &v;
                        vals[j].insert(w.clone());
                        stack.push((j, seen | 1 << j, w));
                    }
                }
            }
        }
    }
    let mut out: BTreeMap<String, (Date, Vec<Rat>)> = BTreeMap::new();
    for j in 0..n {
        if nodes[j].0 == target || vals[j].is_empty() {
            continue;
        }
        let e = out.entry(nodes[j].0.clone()).or_insert((nodes[j].1, vec![]));
        if nodes[j].1 >= e.0 {
            *e = (nodes[j].1, vals[j].iter().cloned().collect());
        }
    }
    out.into_iter().map(|(k, v)| (k, v.1)).collect()
}
