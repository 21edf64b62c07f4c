//! Journals made of two or three entries taken from a pool that has every feature of the language.
//! Each property looks at what it is about; the pool is the same for all of them.
use super::*;

fn auto(text: &str, pred: E, comments: Vec<&str>, posts: Vec<(Kind, &str, AutoAmt)>) -> Item {
    Item::Auto(Auto {
        text: text.to_string(),
        pred,
        comments: comments.into_iter().map(|x| x.to_string()).collect(),
        posts: posts
            .into_iter()
            .map(|(kind, acc, amt)| AutoPost { kind, acc: acc.to_string(), amt })
            .collect(),
    })
}
fn mul(s: &str) -> AutoAmt {
    AutoAmt::Mult(s.into())
}
fn price(d: Date, com: &str, v: &str, c: &str) -> Item {
    Item::Price { date: d, com: com.into(), amt: am(v, c) }
}

/// Every entry can appear with any other
pub fn pool() -> Vec<Item> {
    use Kind::*;
    let d = |n: u32| day(n);
    let t = |n: u32, desc: &str, posts: Vec<Post>| tx(d(n), desc, posts);
    let txns = vec![
        t(1, "plain", vec![po("A", "1", "EUR"), po("B", "-1", "EUR")]),
        t(0, "filled", vec![po("A", "-1.5", "EUR"), el("B:C")]),
        t(2, "filled first", vec![el("A"), po("B", "2", "EUR"), po("B:C", "-7", "EUR")]),
        t(1, "filled of three", vec![po("B", "-100", "EUR"), po("B:C", "20", "EUR"), el("A")]),
        t(0, "filled in two commodities", vec![po("B", "-1", "EUR"), el("A"), po("B:C", "2", "USD")]),
        t(1, "filled with virtual", vec![po("V", "3", "EUR").kind(Virt), po("B", "-3", "EUR"), el("A")]),
        t(1, "asserted", vec![po("A", "1", "EUR").eq("1", "EUR"), el("B")]),
        t(2, "asserted other", vec![po("A", "1", "EUR").eq("0", "USD"), el("B")]),
        t(1, "asserted below", vec![po("B:C", "5", "EUR").eq("25", "EUR"), el("A")]),
        t(2, "assigned", vec![el("A").eq("5", "EUR"), el("B")]),
        t(1, "assigned other", vec![el("A").eq("-2", "USD"), el("B")]),
        t(0, "assigned between", vec![po("B", "1", "EUR"), el("A").eq("3", "EUR"), el("B")]),
        t(1, "bought", vec![po("A", "2", "STK").at("3", "EUR"), el("B")]),
        t(2, "sold", vec![po("A", "-2", "STK").att("7", "EUR"), po("B", "7", "EUR")]),
        t(0, "sold for two", vec![po("A", "-2", "STK").at("3", "EUR"), po("B", "5", "EUR"), po("B:C", "1", "EUR")]),
        t(1, "cost of fill", vec![po("A", "3", "STK").att("10", "USD"), po("B", "-1", "EUR"), el("B:C")]),
        t(0, "two costs", vec![po("A", "2", "STK").at("3", "EUR"), po("B", "4", "USD").att("3", "EUR"), el("B:C")]),
        t(2, "one account", vec![po("A", "5", "EUR"), po("A", "-3", "EUR"), el("A")]),
        t(1, "exchange", vec![po("A", "3", "EUR"), po("B", "-4", "USD")]),
        t(2, "exchange of several", vec![po("A", "3", "USD"), po("A", "1", "USD"), po("B", "-2", "EUR"), po("B:C", "-4", "EUR")]),
        t(0, "three ways", vec![po("A", "1", "EUR"), po("A", "2", "STK"), po("B", "-3", "USD")]),
        t(1, "same sign", vec![po("A", "1", "EUR"), po("A", "2", "STK")]),
        t(0, "unbalanced", vec![po("A", "1", "EUR"), po("B", "-2", "EUR")]),
        t(1, "too many", vec![po("A", "1", "EUR"), el("B"), el("B:C")]),
        t(1, "brackets", vec![po("A", "4", "EUR").kind(Brac), po("B", "-4", "EUR").kind(Brac), po("A", "1", "EUR"), el("B")]),
        t(2, "bracketed sale", vec![po("A", "-2", "STK").att("6", "EUR").kind(Brac), po("W", "6", "EUR").kind(Brac)]),
        t(0, "loose brackets", vec![po("A", "4", "EUR").kind(Brac), po("A", "1", "EUR"), el("B")]),
        t(1, "zero", vec![po("A", "0", "EUR"), po("B", "1", "EUR"), po("B", "-1", "EUR")]),
        t(2, "small", vec![po("A", "0.001", "EUR"), po("B:C", "0.004", "EUR"), el("B")]),
        t(1, "huge", vec![po("A", "123456789012345678901234567890.123456789", "EUR"), el("B")]),
        t(0, "back and forth", vec![po("A", "2", "EUR"), po("A", "-2", "EUR"), po("B:C", "1", "EUR"), po("B:C", "-1", "EUR")]),
        t(1, "tagged", vec![po("A", "1", "EUR"), el("B")]).hdr(" :t1:t2:"),
        t(2, "tag below", vec![po("A", "1", "EUR"), el("B")]).pre(" t1: value"),
        t(0, "tagged posting", vec![po("A", "1", "EUR").note(" :t1:"), po("B", "-1", "EUR").after(" t2: other")]),
        t(1, "tagged fill", vec![po("A", "1", "EUR"), el("B").note(" t1: x").after(" :t3:")]),
        t(1, "Shop 12", vec![po("A", "6", "EUR"), el("B")]),
        t(2, "The Shop", vec![po("Misc:Unknown", "8", "EUR"), el("A")]),
        t(0, "plain", vec![po("Misc:Unknown", "9", "EUR"), el("A")]),
        t(1, "said", vec![po("A", "1", "EUR"), el("B")]).payee("Somebody"),
        t(0, "later", vec![po("A", "1", "EUR").eq("1", "EUR"), el("B")]).eff("=2020-03-01"),
        t(2, "sooner", vec![po("A", "16", "EUR"), po("B", "-16", "EUR")]).eff(" 10:20:30=2019-03-01"),
        t(1, "timed", vec![po("A", "32", "EUR"), po("B", "-32", "EUR")]).eff(" 23:59:59"),
        t(1, "called", vec![po("BANK", "1", "EUR"), el("B")]),
        t(0, "symbol", vec![po("A", "1", "€"), po("B", "-1", "EUR")]),
        t(2, "quoted", vec![po("A", "1", "ACME 2"), el("B")]),
    ];
    let mut v: Vec<Item> = txns
        .into_iter()
        .map(|mut x| {
            if x.desc == "sooner" {
                x.mark = "!".into();
            }
            Item::Txn(x)
        })
        .collect();
    v.extend(vec![
        price(d(0), "STK", "2", "EUR"),
        price(d(1), "STK", "2.5", "EUR"),
        price(d(2), "EUR", "4", "STK"),
        price(d(1), "USD", "0.5", "EUR"),
        price((2999, 1, 1), "USD", "50", "EUR"),
        Item::Account { name: "A".into(), aliases: vec!["Bank".into()], payees: vec![], extra: vec!["note x".into()] },
        Item::Account { name: "Food".into(), aliases: vec!["B".into()], payees: vec!["shop".into(), "Shop".into()], extra: vec![] },
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] },
        Item::Commodity { name: "Euro".into(), aliases: vec!["eur".into(), "€".into()], extra: vec![] },
        Item::Payee { name: "Store".into(), aliases: vec!["Shop".into()] },
        Item::Tag { name: "t1".into() },
        Item::Raw("; a comment".into()),
        auto("A", acc_re("(?i)A"), vec![], vec![(Virt, "Budget", mul("-1"))]),
        auto("expr account=~/^B/", acc_re("^B"), vec![" :auto:"], vec![(Real, "A", mul("0.5")), (Real, "Tax", mul("-0.5"))]),
        auto("%t1", E::HasTag("(?i)t1".into()), vec![], vec![(Brac, "Env", AutoAmt::Fixed(am("2", "USD"))), (Brac, "Bud", AutoAmt::Fixed(am("-2", "USD")))]),
        auto(
            "@plain",
            bin(Op::Match, E::Payee, E::Re("(?i)plain".into())),
            vec![],
            vec![(Virt, "Double", AutoAmt::Expr(bin(Op::Mul, E::Amount, E::Num("2".into()))))],
        ),
        auto("B", acc_re("(?i)B"), vec![], vec![(Real, "A", mul("1"))]),
    ]);
    v
}

/// Two entries in every order; three when thorough, and over a part of the pool (one of `with`, in one
/// of `places`) when quick
fn entries(ch: &mut Ch, with: &[&str], places: &[usize]) -> Option<Journal> {
    let p = pool();
    let kind = ch.pick(4);
    if kind == 2 {
        return product(ch);
    }
    if kind == 3 {
        return dressed(ch);
    }
    let three = kind == 1;
    if !three {
        let a = ch.of(&p);
        let b = ch.of(&p);
        return Some(vec![a, b]);
    }
    if ch.thorough() {
        let a = ch.of(&p);
        let b = ch.of(&p);
        let c = ch.of(&p);
        return Some(vec![a, b, c]);
    }
    // the first one among those that matter most here
    let first: Vec<Item> = p
        .iter()
        .filter(|x| match x {
            Item::Txn(t) => with.contains(&t.desc.as_str()),
            Item::Price { .. } => with.contains(&"P"),
            Item::Account { .. } | Item::Commodity { .. } | Item::Payee { .. } => with.contains(&"names"),
            Item::Auto(_) => with.contains(&"auto"),
            _ => false,
        })
        .cloned()
        .collect();
    let a = ch.of(&first);
    let b = ch.of(&p);
    let c = ch.of(&p);
    let k = ch.of(places);
    let mut v = vec![b, c];
    v.insert(k, a);
    Some(v)
}
/// One posting with everything that a posting can have, in all combinations
fn product(ch: &mut Ch) -> Option<Journal> {
    let kind = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
    let lit = ch.of(&["3", "-3", "0", ""]);
    let cost = ch.pick(4);
    let eq = ch.pick(4);
    let payee = ch.flag();
    let tag = ch.flag();
    let filled = ch.flag();
    let last = ch.flag();
    let rule = ch.pick(3);
    if lit.is_empty() && cost > 0 {
        return None;
    }
    if !ch.thorough() && (rule == 2) != (payee && tag) {
        return None;
    }
    let mut x = if lit.is_empty() { el("A") } else { po("A", lit, "STK") };
    let n: i64 = lit.parse().unwrap_or(5);
    x = match cost {
        0 => x,
        1 => x.at("2", "EUR"),
        2 => x.att("7", "EUR"),
        _ => x.att("0.5", "USD"),
    };
    // there are 2 before
    x = match eq {
        0 => x,
        1 => x.eq(&format!("{}", n + 2), "STK"),
        2 => x.eq("1", "STK"),
        _ => x.eq("0", "USD"),
    };
    x = x.kind(kind);
    if tag {
        x = x.note(" :t1:");
    }
    // what balances it
    let other = match cost {
        0 => (-n, "STK"),
        1 => (-2 * n, "EUR"),
        2 => (-7 * n.signum(), "EUR"),
        _ => (-n.signum(), "USD"),
    };
    // half of one
    let amount = if cost == 3 { if n < 0 { "0.5".to_string() } else { "-0.5".to_string() } } else { other.0.to_string() };
    let mut posts = vec![];
    let second = po("B", &amount, other.1);
    match kind {
        Kind::Real if filled => posts.push(el("B")),
        Kind::Real => posts.push(second),
        Kind::Virt if filled => posts.extend(vec![po("C", "4", "EUR"), el("B")]),
        Kind::Virt => posts.extend(vec![po("C", "4", "EUR"), po("B", "-4", "EUR")]),
        Kind::Brac if filled => posts.extend(vec![second.kind(Kind::Brac), po("C", "4", "EUR"), el("B")]),
        Kind::Brac => posts.push(second.kind(Kind::Brac)),
    }
    posts.insert(if last { posts.len() } else { 0 }, x);
    if tag {
        posts.insert(1, po("Zed", "0", "EUR").note(" t2: v"));
    }
    let mut t = tx(day(1), "said", posts);
    if payee {
        t = t.payee("Somebody");
    }
    let mut j = txs(vec![t, tx(day(0), "before", vec![po("A", "2", "STK").at("4", "EUR"), el("B")])]);
    match rule {
        0 => (),
        1 => j.push(auto("A", acc_re("(?i)A"), vec![" :auto:"], vec![(Kind::Virt, "Bud", mul("-1"))])),
        _ => j.insert(0, auto("@some", bin(Op::Match, E::Payee, E::Re("(?i)some".into())), vec![], vec![(Kind::Virt, "Bud", mul("2"))])),
    }
    Some(j)
}
/// The day after
fn next(d: Date) -> Date {
    if d.2 < days_in(d.0, d.1) {
        (d.0, d.1, d.2 + 1)
    } else if d.1 < 12 {
        (d.0, d.1 + 1, 1)
    } else {
        (d.0 + 1, 1, 1)
    }
}
/// A date that has something to do with the transactions
fn mid(j: &Journal) -> Date {
    let ds: Vec<Date> = j
        .iter()
        .filter_map(|x| match x {
            Item::Txn(t) => Some(t.date),
            _ => None,
        })
        .collect();
    if ds.is_empty() || ds.contains(&day(1)) {
        day(1)
    } else {
        ds[0]
    }
}
/// A number n times (also a tenth of, ...)
fn times(a: &mut Amt, n: &str, always_positive: bool) {
    let n = if always_positive { n.trim_start_matches('-') } else { n };
    a.lit = super::balancing::dec(&(a.q() * rat(n)));
}
/// Applies f to all amounts; the second argument is 0 for a quantity, 1 for a total cost, 2 for the price of a unit
fn amounts(j: &mut Journal, f: &dyn Fn(&mut Amt, usize)) {
    for x in j.iter_mut() {
        match x {
            Item::Txn(t) => {
                for p in t.posts.iter_mut() {
                    p.amt.iter_mut().for_each(|a| f(a, 0));
                    p.bal.iter_mut().for_each(|a| f(a, 0));
                    if let Some((total, a)) = p.cost.as_mut() {
                        f(a, if *total { 1 } else { 2 });
                    }
                }
            }
            Item::Price { amt, .. } => f(amt, 2),
            Item::Auto(a) => {
                for p in a.posts.iter_mut() {
                    if let AutoAmt::Fixed(a) = &mut p.amt {
                        f(a, 0);
                    }
                }
            }
            _ => (),
        }
    }
}
fn each_txn(j: &mut Journal, f: &dyn Fn(&mut Txn)) {
    for x in j.iter_mut() {
        if let Item::Txn(t) = x {
            f(t);
        }
    }
}
/// All the accounts, component by component
fn accounts(j: &mut Journal, f: &dyn Fn(&str) -> String) {
    let g = |a: &mut String| {
        *a = a.split(':').map(|c| if ["bank", "unknown"].contains(&c.to_lowercase().as_str()) { c.to_string() } else { f(c) }).collect::<Vec<String>>().join(":");
    };
    for x in j.iter_mut() {
        match x {
            Item::Txn(t) => t.posts.iter_mut().for_each(|p| g(&mut p.acc)),
            Item::Account { name, aliases, .. } => {
                g(name);
                aliases.iter_mut().for_each(g);
            }
            Item::Auto(a) => a.posts.iter_mut().for_each(|p| g(&mut p.acc)),
            _ => (),
        }
    }
}
fn commodities(j: &mut Journal, f: &dyn Fn(&str) -> String) {
    amounts(j, &|a, _| a.c = f(&a.c));
    for x in j.iter_mut() {
        match x {
            Item::Price { com, .. } => *com = f(com),
            Item::Commodity { name, .. } => *name = f(name),
            _ => (),
        }
    }
}
/// The pool and a few transactions more
fn crowd() -> Vec<Item> {
    let mut p = pool();
    p.push(Item::Txn(tx(day(1), "one virtual", vec![po("A", "5", "EUR").kind(Kind::Virt)])));
    p.push(Item::Txn(tx(day(1), "one zero", vec![po("A", "0", "EUR")])));
    p.push(Item::Txn(tx(day(1), "five", vec![po("A", "1", "EUR"), po("B", "2", "USD"), po("B:C", "3", "EUR"), po("V", "-4", "EUR"), po("W", "-2", "USD")])));
    p
}
/// An entry among others
fn in_company(x: Item, company: usize) -> Journal {
    let before = Item::Txn(tx(day(0), "before", vec![po("A", "2", "STK").at("4", "EUR").note(" t1: x"), el("B")]));
    let after = Item::Txn(tx(day(2), "after", vec![po("A", "-3", "EUR"), po("B", "3", "EUR")]));
    match company {
        0 => vec![x, before, price(day(0), "STK", "2", "EUR"), price(day(1), "USD", "0.5", "EUR")],
        _ => vec![
            auto("A", acc_re("(?i)A"), vec![" :auto:"], vec![(Kind::Virt, "Budget", mul("-1")), (Kind::Real, "T", mul("0.5")), (Kind::Real, "T:U", mul("-0.5"))]),
            x,
            after,
            before,
        ],
    }
}
/// Each entry of the pool in company, with all dates, names, numbers, ... of the journal changed in one way
fn dressed(ch: &mut Ch) -> Option<Journal> {
    let x = ch.of(&crowd());
    let company = ch.pick(2);
    let mut j = in_company(x, company);
    let starts: [Date; 8] = [(2020, 12, 30), (2020, 2, 28), (1969, 12, 30), (2100, 2, 27), (9998, 12, 30), (999, 12, 30), (1600, 2, 28), (2021, 4, 29)];
    let scales = ["1000000", "100000000000000000000", "0.01", "0.0000001", "0.333", "-1", "7"];
    match ch.pick(14) {
        0 => {
            let s = ch.of(&starts);
            let days = [s, next(s), next(next(s))];
            let f = |d: &mut Date| {
                if let Some(n) = [day(0), day(1), day(2)].iter().position(|x| x == d) {
                    *d = days[n];
                }
            };
            for x in j.iter_mut() {
                match x {
                    Item::Txn(t) => f(&mut t.date),
                    Item::Price { date, .. } => f(date),
                    _ => (),
                }
            }
        }
        1 => {
            let s = ch.of(&["", "é 漢字", " that is longer than what fits in its column, and then some more", " 12 - 3.4 (5)"]);
            each_txn(&mut j, &|t| t.desc = if s.is_empty() { String::new() } else { format!("{}{}", t.desc, s) });
        }
        2 => {
            let s = ch.of(&["ñ", " b", "1", "-_.b", "bcdefghijklmnopqrstuvwxyzabcdefghijklmnopq", ":x:y:z:w", ""]);
            accounts(&mut j, &|c| if s.is_empty() { c.to_lowercase() } else { format!("{}{}", c, s) });
        }
        3 => {
            let k = ch.of(&[["E", "S", "U"], ["€uro", "ß", "ñu"], ["E 2", "S-3", "u 1.5"], ["", "S", "U"], ["Loooooooooooooong", "lOoooooooooooooong", "longer"]]);
            if k[0].is_empty() && j.iter().any(|x| matches!(x, Item::Price { .. } | Item::Commodity { .. })) {
                j.retain(|x| !matches!(x, Item::Price { .. }));
                if j.iter().any(|x| matches!(x, Item::Commodity { .. })) {
                    return None;
                }
            }
            commodities(&mut j, &|c| match c {
                "EUR" => k[0].to_string(),
                "STK" => k[1].to_string(),
                "USD" => k[2].to_string(),
                x => x.to_string(),
            });
        }
        4 => {
            let n = ch.of(&scales);
            amounts(&mut j, &|a, what| {
                if what < 2 {
                    times(a, n, what == 1)
                }
            });
        }
        5 => {
            // the prices
            let n = ch.of(&scales[..5]);
            amounts(&mut j, &|a, what| {
                if what > 0 {
                    times(a, n, true)
                }
            });
        }
        6 => {
            let k = ch.of(&[Kind::Virt, Kind::Brac]);
            each_txn(&mut j, &|t| t.posts.iter_mut().for_each(|p| p.kind = k));
        }
        7 => {
            let h = ch.of(&[" :h1:", " h1: value", " just words", " :h1:h2:"]);
            each_txn(&mut j, &|t| t.hdr = Some(h.to_string()));
        }
        8 => {
            let h = ch.of(&[" :h1:", " h1: value", " just words"]);
            each_txn(&mut j, &|t| t.pre.push(h.to_string()));
        }
        9 => {
            let h = ch.of(&[" :p1:", " p1: value", " just words", " :p1:q1:"]);
            each_txn(&mut j, &|t| t.posts.iter_mut().for_each(|p| p.inline = Some(h.to_string())));
        }
        10 => {
            let h = ch.of(&[" :p1:", " p1: value", " just words"]);
            each_txn(&mut j, &|t| t.posts.iter_mut().for_each(|p| p.after.push(h.to_string())));
        }
        11 => {
            let s = ch.of(&["Some one", "Año", "x"]);
            each_txn(&mut j, &|t| t.payee = Some(s.to_string()));
        }
        12 => {
            let s = ch.of(&["=2020-02-01", " 12:00:00", "=2019-02-01"]);
            each_txn(&mut j, &|t| t.eff = s.to_string());
        }
        _ => {
            let s = ch.of(&["*", "!"]);
            each_txn(&mut j, &|t| t.mark = s.to_string());
        }
    }
    Some(j)
}
fn accepted(j: &Journal) -> Option<L> {
    ledger(j, false).ok()
}

pub fn c01(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["unbalanced", "loose brackets", "three ways"], &[0, 1, 2])?;
    journal_case(j, CHECK | BAL)
}
pub fn c02(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["filled of three", "filled in two commodities", "filled with virtual", "cost of fill"], &[0, 1, 2])?;
    accepted(&j)?;
    journal_case(j, REG)
}
pub fn c03(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["asserted", "asserted below", "assigned", "later"], &[0, 1, 2])?;
    let no = ch.flag();
    if !no {
        return journal_case(j, CHECK | REG);
    }
    let t = text(&j);
    case(format!("no check\n{}", t), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, true), REG, &["--no-balance-check"])
    })
}
/// The k-th posting of the transaction that is in company
fn posting<'a>(j: &'a mut Journal, k: usize) -> Option<(&'a mut Txn, usize)> {
    j.iter_mut().find_map(|x| match x {
        Item::Txn(t) if t.desc != "before" && t.desc != "after" && k < t.posts.len() => Some((t, k)),
        _ => None,
    })
}
/// Every entry with one of its postings changed, most times into something wrong
fn changed(ch: &mut Ch) -> Option<Journal> {
    let p: Vec<Item> = crowd().into_iter().filter(|x| matches!(x, Item::Txn(_))).collect();
    let x = ch.of(&p);
    let k = ch.pick(5);
    let what = ch.pick(12);
    let company = ch.pick(2);
    let mut j = in_company(x, company);
    {
        let (t, k) = posting(&mut j, k)?;
        let has = t.posts[k].amt.is_some();
        let other = po("Other", "1", "EUR");
        let p = &mut t.posts[k];
        match what {
            0..=3 if !has => return None,
            0 => p.amt.as_mut().map(|a| a.lit = super::balancing::dec(&(a.q() + rat("0.001"))))?,
            1 => p.amt.as_mut().map(|a| times(a, "-1", false))?,
            2 => p.amt.as_mut().map(|a| a.c = if a.c == "USD" { "EUR".into() } else { "USD".into() })?,
            3 => {
                p.amt = None;
                p.cost = None;
            }
            4 => p.kind = if p.kind == Kind::Virt { Kind::Real } else { Kind::Virt },
            5 => p.kind = if p.kind == Kind::Brac { Kind::Real } else { Kind::Brac },
            6 => {
                t.posts.remove(k);
            }
            7 => {
                let q = t.posts[k].clone();
                t.posts.push(q);
            }
            8 => t.posts.insert(k, other),
            9 => t.posts.insert(k, other.kind(Kind::Brac)),
            10 => p.cost = if p.cost.is_some() || !has { return None } else { Some((false, am("2", "GBP"))) },
            _ => p.cost = if p.cost.is_some() || !has { return None } else { Some((true, am("2", "GBP"))) },
        }
        if t.posts.is_empty() {
            return None;
        }
    }
    Some(j)
}
pub fn c01_each(ch: &mut Ch) -> Option<Case> {
    let j = changed(ch)?;
    journal_case(j, CHECK | REG)
}
pub fn c14_each(ch: &mut Ch) -> Option<Case> {
    let mut j = changed(ch)?;
    j.retain(|x| !matches!(x, Item::Auto(_)));
    let a = match ch.pick(3) {
        0 => auto("/./", acc_re("."), vec![], vec![(Kind::Virt, "Budget", mul("-2"))]),
        1 => auto("/./", acc_re("."), vec![" :auto:"], vec![(Kind::Real, "T", mul("0.5")), (Kind::Real, "U", mul("-0.5")), (Kind::Brac, "V", mul("0"))]),
        _ => auto("/^[A-C]/", acc_re("^[A-C]"), vec![], vec![(Kind::Real, "T", mul("1"))]),
    };
    j.insert(0, a);
    journal_case(j, CHECK | REG)
}
/// A tag in every place of every entry
pub fn c18_each(ch: &mut Ch) -> Option<Case> {
    let p: Vec<Item> = crowd().into_iter().filter(|x| matches!(x, Item::Txn(_))).collect();
    let x = ch.of(&p);
    let k = ch.pick(6);
    let what = ch.of(&[" :new:", " new: value", " :other:new:"]);
    let below = ch.flag();
    let company = ch.pick(2);
    let mut j = in_company(x, company);
    {
        // the first ones are the places of the transaction
        let (t, _) = posting(&mut j, k.saturating_sub(1))?;
        match k {
            0 if below => t.pre.insert(0, what.to_string()),
            0 if t.hdr.is_some() => return None,
            0 => t.hdr = Some(what.to_string()),
            _ if below => t.posts[k - 1].after.insert(0, what.to_string()),
            _ if t.posts[k - 1].inline.is_some() => return None,
            _ => t.posts[k - 1].inline = Some(what.to_string()),
        }
    }
    let l = accepted(&j)?;
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let e = bin(Op::Match, E::TagStr("new".into()), E::Re("^value$".into()));
        let sels = vec![
            Sel { query: vec!["%^new$".into()], pred: Some(E::HasTag("(?i)^new$".into())), ..Default::default() },
            Sel { query: vec!["%^t1$".into()], pred: Some(E::HasTag("(?i)^t1$".into())), ..Default::default() },
            Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() },
        ];
        for sel in &sels {
            expect_reports(env, &f, &l, sel, None, true)?;
        }
        Ok(())
    })
}
/// Every posting with an amount of every entry, with an assertion that is right, nearly right, or about
/// another commodity
pub fn c03_each(ch: &mut Ch) -> Option<Case> {
    let p: Vec<Item> = crowd().into_iter().filter(|x| matches!(x, Item::Txn(_))).collect();
    let x = ch.of(&p);
    let k = ch.pick(9);
    let what = ch.pick(4);
    let company = ch.pick(2);
    let no = ch.flag();
    let mut j = in_company(x, company);
    let (date, desc, com, acc) = j.iter().find_map(|x| match x {
        Item::Txn(t) if t.desc != "before" && t.desc != "after" => {
            let p = t.posts.get(k)?;
            if p.kind != Kind::Real || p.bal.is_some() {
                return None;
            }
            let a = p.amt.clone()?;
            Some((t.date, t.desc.clone(), a.c, p.acc.clone()))
        }
        _ => None,
    })?;
    let l = accepted(&j)?;
    // what is there by then
    let mut sum = rat("0");
    'all: for t in &l.txns {
        let mut i = 0;
        let here = t.date == date && t.shown != "before" && t.shown != "after";
        for p in t.posts.iter().filter(|p| p.amt.is_some()) {
            let a = p.amt.as_ref().unwrap();
            if p.kind == Kind::Real && p.acc == acc && a.1 == com {
                sum = sum + a.0.clone();
            }
            if here && i == k {
                break 'all;
            }
            i += 1;
        }
        if here {
            break;
        }
    }
    let (q, c) = match what {
        0 => (sum, com),
        1 => (sum + rat("0.001"), com),
        2 => (rat("0"), if com == "USD" { "EUR".to_string() } else { "USD".to_string() }),
        _ => (rat("0"), com),
    };
    for x in j.iter_mut() {
        if let Item::Txn(t) = x {
            if t.desc == desc && t.date == date {
                t.posts[k].bal = Some(am(&super::balancing::dec(&q), &c));
            }
        }
    }
    if !no {
        return journal_case(j, CHECK | REG);
    }
    let t = text(&j);
    case(format!("no check\n{}", t), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, true), REG, &["--no-balance-check"])
    })
}
pub fn c04(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["filled", "exchange of several", "auto", "called"], &[2])?;
    let l = accepted(&j)?;
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let sel = Sel::default();
        for flat in [false, true] {
            for depth in [None, Some(1), Some(2)] {
                let bo = BalOpts { flat, depth, ..Default::default() };
                expect_reports(env, &f, &l, &sel, Some(&bo), false)?;
            }
        }
        Ok(())
    })
}
pub fn c05(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["later", "sooner", "zero", "brackets", "auto"], &[0, 1, 2])?;
    accepted(&j)?;
    journal_case(j, REG)
}
pub fn c06(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["later", "tagged posting", "said"], &[1])?;
    let l = accepted(&j)?;
    let t = text(&j);
    let d = mid(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
        let pay = |x: &str| bin(Op::Match, E::Payee, E::Re(x.into()));
        let sels = vec![
            Sel { begin: Some(d), ..Default::default() },
            Sel { end: Some(d), ..Default::default() },
            Sel { begin: Some(d), end: Some(next(d)), real: true, ..Default::default() },
            Sel { real: true, ..Default::default() },
            Sel { query: s(&["b"]), pred: Some(acc_re("(?i)b")), ..Default::default() },
            Sel { query: s(&["/^B/", "@some"]), pred: Some(bin(Op::Or, acc_re("^B"), pay("(?i)some"))), ..Default::default() },
            Sel { query: s(&["@sAi"]), pred: Some(pay("(?i)sai")), ..Default::default() },
            Sel { query: s(&["%t1", "and", "a"]), pred: Some(bin(Op::And, E::HasTag("(?i)t1".into()), acc_re("(?i)a"))), ..Default::default() },
        ];
        for sel in &sels {
            expect_reports(env, &f, &l, sel, Some(&BalOpts { flat: true, ..Default::default() }), true)?;
        }
        Ok(())
    })
}
pub fn c07(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["tagged fill", "exchange", "auto"], &[1])?;
    let l = accepted(&j)?;
    let t = text(&j);
    let d = mid(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let n = |x: &str| E::Num(x.into());
        let es = vec![
            bin(Op::Gt, E::Amount, n("0")),
            bin(Op::Le, bin(Op::Mul, E::Amount, n("2")), n("-3")),
            bin(Op::And, bin(Op::Match, E::Account, E::Re("^A".into())), bin(Op::Lt, E::Amount, n("2"))),
            bin(Op::Ge, E::Date, E::ToDate(ds(d))),
            bin(Op::Or, E::HasTag("t1".into()), bin(Op::Eq, E::Amount, n("6"))),
            bin(Op::Match, E::Note, E::Re("t".into())),
            E::Any(Box::new(bin(Op::Gt, E::Amount, n("5")))),
            E::Not(Box::new(bin(Op::Match, E::Payee, E::Re("[aS]".into()))), true),
            bin(Op::Match, E::Payee, E::Re("^S".into())),
            E::Any(Box::new(bin(Op::Match, E::Account, E::Re("Zed|B:C".into())))),
        ];
        for e in es {
            let sel = Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() };
            expect_reports(env, &f, &l, &sel, None, true)?;
        }
        Ok(())
    })
}
pub fn c08(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["P", "bought", "exchange", "cost of fill"], &[2])?;
    let l = accepted(&j)?;
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let sel = Sel::default();
        for x in l.commodities.iter().filter(|x| !x.is_empty()) {
            for flat in [false, true] {
                let bo = BalOpts { flat, x: Some(x.clone()), ..Default::default() };
                expect_reports(env, &f, &l, &sel, Some(&bo), false)?;
            }
        }
        Ok(())
    })
}
pub fn c13(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["names", "called", "symbol", "The Shop"], &[2])?;
    accepted(&j)?;
    journal_case(j, FLAT | REG | LISTS)
}
pub fn c14(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["auto"], &[1])?;
    if !j.iter().any(|x| matches!(x, Item::Auto(_))) {
        return None;
    }
    journal_case(j, CHECK | REG)
}
pub fn c17(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["names", "P", "auto", "bracketed sale", "three ways"], &[2])?;
    accepted(&j)?;
    journal_case(j, LISTS | PRICES)
}
pub fn c18(ch: &mut Ch) -> Option<Case> {
    let j = entries(ch, &["tagged", "tag below", "tagged posting", "tagged fill", "auto"], &[2])?;
    let l = accepted(&j)?;
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        for n in ["t1", "t2", "t3", "auto"] {
            let sel = Sel { query: vec![format!("%{}", n)], pred: Some(E::HasTag(format!("(?i){}", n))), ..Default::default() };
            expect_reports(env, &f, &l, &sel, None, true)?;
        }
        let e = bin(Op::Match, E::TagStr("t1".into()), E::Re("v|x".into()));
        let sel = Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() };
        expect_reports(env, &f, &l, &sel, None, true)
    })
}

// ------------------------------------------------------------------ sizes

/// The kinds of things that can be long or many
const KINDS: usize = 23;
fn sizes(ch: &mut Ch) -> usize {
    let mut v: Vec<usize> = (1..=12).collect();
    v.extend([15, 16, 17, 20, 24, 25, 31, 32, 33, 36, 40, 41, 50, 51, 60, 63, 64, 65, 70, 80, 81, 99, 100, 101, 127, 128, 129]);
    if ch.thorough() {
        v = (1..=140).chain([199, 200, 201, 255, 256, 257]).collect();
    }
    ch.of(&v)
}
fn word(n: usize) -> String {
    "Abcdefghij klmnopqrs tuvwxyz".chars().filter(|c| n > 3 || *c != ' ').cycle().take(n).collect::<String>().trim_end().replace("  ", " ")
}
/// A journal where one thing has the size n; the rest is always the same
fn scaled(kind: usize, n: usize) -> Journal {
    let mut j: Journal = vec![];
    let base = |acc: &str, c: &str, desc: &str| {
        vec![
            tx(day(1), desc, vec![po(acc, "2", c), po("Exp:Food", "3", "EUR"), el("Cash")]),
            tx(day(0), "other", vec![po(acc, "1.5", c).eq("1.5", c), el("Exp:Home")]),
            tx(day(2), desc, vec![po("Exp:Food", "7", "USD"), po(acc, "-8", "EUR")]),
        ]
    };
    let i2s = |i: usize| format!("{}", i + 1);
    let num = |i: usize| super::order::letters(i);
    match kind {
        0 => {
            // postings in one transaction
            let mut v: Vec<Post> = (0..n).map(|i| po(["Exp:Food", "Exp:Home", "A"][i % 3], &i2s(i), ["EUR", "USD"][i / 3 % 2])).collect();
            v.insert(n / 2, el("Cash"));
            j.extend(txs(vec![tx(day(1), "many", v), tx(day(0), "one", vec![po("A", "1", "EUR"), el("Cash")])]));
        }
        1 => {
            // transactions
            j.extend((0..n).map(|i| {
                Item::Txn(tx(day((i * 7 % 5) as u32), &format!("t{}", num(i)), vec![po(["A", "Exp:Food"][i % 2], &i2s(i), "EUR"), el("Cash")]))
            }));
        }
        2 => j.extend(txs(base(&word(n), "EUR", "x"))),
        3 => {
            let acc = (0..n).map(|i| ((b'a' + (i % 26) as u8) as char).to_string()).collect::<Vec<String>>().join(":");
            j.extend(txs(base(&acc, "EUR", "x")));
        }
        4 => j.extend(txs(base("A", &word(n).replace(' ', "x"), "x"))),
        5 => {
            // commodities
            let mut v: Vec<Post> = (0..n).map(|i| po(["A", "Exp:Food"][i % 2], &i2s(i), &format!("C{}", num(i)))).collect();
            v.push(el("Cash"));
            j.extend(txs(vec![tx(day(1), "many", v), tx(day(0), "one", vec![po("A", "1", "EUR"), el("Cash")])]));
        }
        6 => j.extend(txs(base("A", "EUR", &word(n)))),
        7 => {
            // comments of a transaction
            let mut v = base("A", "EUR", "x");
            v[0].pre = (0..n).map(|i| if i % 2 == 0 { format!(" t{}: v{}", num(i), num(i)) } else { format!(" word {}", num(i)) }).collect();
            j.extend(txs(v));
        }
        8 => {
            // comments of a posting
            let mut v = base("A", "EUR", "x");
            v[0].posts[0].after = (0..n).map(|i| if i % 2 == 0 { format!(" t{}: v{}", num(i), num(i)) } else { format!(" word {}", num(i)) }).collect();
            j.extend(txs(v));
        }
        9 => {
            // tags in one comment
            let mut v = base("A", "EUR", "x");
            v[0].posts[1].inline = Some(format!(" :{}:", (0..n).map(|i| format!("t{}", num(i))).collect::<Vec<String>>().join(":")));
            v[1].hdr = Some(format!(" :{}:", (0..n).map(|i| format!("t{}", num(i))).collect::<Vec<String>>().join(":")));
            j.extend(txs(v));
        }
        10 | 11 => {
            // digits, decimals
            let d: String = "1234567890".chars().cycle().take(n).collect();
            let d = if kind == 10 { format!("{}.25", d) } else { format!("12.{}", d) };
            let mut v = base("A", "EUR", "x");
            v.push(tx(day(1), "long", vec![po("A", &d, "EUR"), po("Exp:Food", &format!("-{}", d), "EUR"), po("B", &d, "USD").at("2", "EUR"), el("Cash")]));
            v.push(tx(day(2), "long", vec![po("B", &d, "GBP").kind(Kind::Virt)]));
            j.extend(txs(v));
        }
        12 => {
            // aliases; the last, the first and one of the middle are used
            let al: Vec<String> = (0..n).map(|i| format!("al {}", num(i))).collect();
            j.push(Item::Account { name: "A".into(), aliases: al.clone(), payees: vec![], extra: vec![] });
            let cl: Vec<String> = (0..n).map(|i| format!("c{}", num(i))).collect();
            j.push(Item::Commodity { name: "EUR".into(), aliases: cl.clone(), extra: vec![] });
            for i in [0, n / 2, n - 1] {
                j.push(Item::Txn(tx(day(0), "x", vec![po(&al[i], "1", &cl[i]), el("Cash")])));
            }
            j.push(Item::Txn(tx(day(1), "y", vec![po("A", "1", "EUR").eq("4", "EUR"), el("Cash")])));
        }
        13 => {
            // prices of one pair
            for i in 0..n {
                let k = (i * 5 + 3) % n;
                let d = (2019 + (k / 336) as i32, 1 + (k / 28 % 12) as u32, 1 + (k % 28) as u32);
                if !j.iter().any(|x| matches!(x, Item::Price { date, .. } if *date == d)) {
                    j.push(price(d, "USD", &i2s(k), "EUR"));
                }
            }
            j.extend(txs(base("A", "USD", "x")));
        }
        14 => {
            // a chain of prices (the model handles 127 quotes)
            let n = n.min(60);
            for i in 0..n {
                j.push(price(day(0), &format!("C{}", num(i)), if i % 7 == 0 { "2" } else { "1" }, &format!("C{}", num(i + 1))));
            }
            j.push(Item::Txn(tx(day(1), "x", vec![po("A", "1", &format!("C{}", num(0))), po("B", "1", &format!("C{}", num(n))), el("Cash")])));
        }
        15 => {
            // automated transactions
            for i in 0..n {
                j.push(auto("/A/", acc_re("A"), vec![], vec![(Kind::Virt, "Auto", mul(&i2s(i)))]));
            }
            j.extend(txs(base("A", "EUR", "x")));
        }
        16 => {
            // postings of an automated transaction
            let posts: Vec<(Kind, &str, AutoAmt)> = (0..n).map(|i| (Kind::Virt, ["Auto", "Auto:b"][i % 2], mul(&i2s(i)))).collect();
            j.push(auto("/A/", acc_re("A"), vec![" :auto:"], posts));
            j.extend(txs(base("A", "EUR", "x")));
        }
        17 => {
            // declared things
            for i in 0..n {
                j.push(Item::Account { name: format!("D:{}", num(i)), aliases: vec![], payees: vec![], extra: vec![] });
                j.push(Item::Commodity { name: format!("D{}", num(i)), aliases: vec![], extra: vec![] });
                j.push(Item::Payee { name: format!("pay {}", num(i)), aliases: vec![format!("^shop {}$", num(i))] });
            }
            j.extend(txs(base(&format!("d:{}", num(n - 1)), &format!("D{}", num(n - 1)), &format!("shop {}", num(n - 1)))));
        }
        18 => {
            // virtual postings
            let mut v = vec![];
            for i in 0..n {
                v.push(po("V", &i2s(i), "EUR").kind(Kind::Virt));
                v.push(po("W:a", &i2s(i), "EUR").kind(Kind::Brac));
                v.push(po("W:b", &format!("-{}", i + 1), "EUR").kind(Kind::Brac));
            }
            v.push(po("A", "1", "EUR"));
            v.push(el("Cash"));
            j.extend(txs(vec![tx(day(1), "x", v)]));
        }
        19 => {
            // assertions in one transaction, and along several
            let mut v: Vec<Post> = (0..n).map(|i| po("A", "1", "EUR").eq(&i2s(i), "EUR")).collect();
            v.push(el("Cash"));
            j.push(Item::Txn(tx(day(0), "x", v)));
            for i in 0..n {
                j.push(Item::Txn(tx(day(1), "y", vec![el("A").eq(&i2s(n - i), "EUR"), el("Cash").eq(&format!("-{}", n - i + 1), "EUR")])));
            }
        }
        20 => {
            // names and values of tags
            let w = word(n);
            let mut v = base("A", "EUR", "x");
            v[0].posts[1].inline = Some(format!(" :{}:", w.replace(' ', "_")));
            v[1].posts[0].inline = Some(format!(" key: {}", w));
            v[2].posts[0].after = vec![format!(" {}: value", w)];
            j.extend(txs(v));
        }
        21 => {
            // costs
            let mut v: Vec<Post> = (0..n).map(|i| if i % 2 == 0 { po("A", &i2s(i), "STK").at("2", "EUR") } else { po("A", &i2s(i), "STK").att("2", "EUR") }).collect();
            v.push(el("Cash"));
            j.push(Item::Txn(tx(day(0), "x", v)));
        }
        _ => {
            // accounts below one
            let mut v: Vec<Post> = (0..n).map(|i| po(&format!("P:{}", num(i)), &i2s(i), "EUR")).collect();
            v.push(po("P", "1", "EUR"));
            v.push(el("Cash"));
            j.push(Item::Txn(tx(day(0), "x", v)));
        }
    }
    j
}
fn of_kinds(ch: &mut Ch, kinds: &[usize]) -> Journal {
    let k = ch.of(kinds);
    let n = sizes(ch);
    scaled(k, n)
}
fn every() -> Vec<usize> {
    (0..KINDS).collect()
}
fn with_reports(j: Journal, sels: Vec<Sel>, bals: Vec<BalOpts>, reg: bool) -> Option<Case> {
    let l = ledger(&j, false).map_err(|e| format!("{} {}", e, text(&j))).unwrap();
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        for sel in &sels {
            for b in &bals {
                expect_reports(env, &f, &l, sel, Some(b), false)?;
            }
            if reg {
                expect_reports(env, &f, &l, sel, None, true)?;
            }
        }
        Ok(())
    })
}
pub fn s_check(ch: &mut Ch) -> Option<Case> {
    // as it is, and with one transaction that does not balance
    let mut j = of_kinds(ch, &every());
    match ch.pick(3) {
        0 => (),
        1 => j.insert(j.len() / 2, Item::Txn(tx(day(1), "bad", vec![po("A", "1", "EUR"), po("B", "-2", "EUR")]))),
        _ => {
            // the last one gets a posting more
            let t = j.iter_mut().rev().find_map(|x| match x {
                Item::Txn(t) => Some(t),
                _ => None,
            });
            if let Some(t) = t {
                t.posts.push(po("A", "0.001", "XXX"));
                t.posts.push(el("Cash"));
            }
        }
    }
    journal_case(j, CHECK)
}
pub fn s_fill(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &[0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 17, 18, 20, 21, 22]);
    journal_case(j, REG)
}
pub fn s_assert(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &[0, 1, 2, 3, 4, 5, 10, 11, 12, 17, 18, 19, 22]);
    let l = ledger(&j, false).unwrap();
    // one more assertion, right or wrong, on an account of the last transaction
    let (acc, mut b) = {
        let p = l.txns.iter().rev().flat_map(|t| &t.posts).find(|p| p.kind == Kind::Real && p.amt.is_some()).unwrap();
        let c = p.amt.as_ref().map(|x| x.1.clone()).unwrap_or("EUR".into());
        let q = l.txns.iter().flat_map(|t| &t.posts).filter(|x| x.kind == Kind::Real && x.acc == p.acc).filter_map(|x| x.amt.clone()).filter(|x| x.1 == c).fold(rat("0"), |a, x| a + x.0);
        ((p.acc.clone(), c), q)
    };
    if ch.flag() {
        b = b + rat("0.01");
    }
    let mut j = j;
    j.push(Item::Txn(tx(day(9), "last", vec![po(&acc.0, "0", &acc.1).eq(&super::balancing::dec(&b), &acc.1), el("Cash")])));
    journal_case(j, CHECK)
}
pub fn s_bal(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &every());
    let mut bals = vec![];
    for flat in [false, true] {
        for depth in [None, Some(1), Some(2), Some(3)] {
            bals.push(BalOpts { flat, depth, ..Default::default() });
        }
    }
    with_reports(j, vec![Sel::default()], bals, false)
}
pub fn s_reg(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &every());
    with_reports(j, vec![Sel::default()], vec![], true)
}
pub fn s_query(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &every());
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
    let pay = |x: &str| bin(Op::Match, E::Payee, E::Re(x.into()));
    let sels = vec![
        Sel { begin: Some(day(1)), ..Default::default() },
        Sel { end: Some(day(2)), real: true, ..Default::default() },
        Sel { query: s(&["^a"]), pred: Some(acc_re("(?i)^a")), ..Default::default() },
        Sel { query: s(&["/z$/", "@j"]), pred: Some(bin(Op::Or, acc_re("z$"), pay("(?i)j"))), ..Default::default() },
        Sel { query: s(&["%b$", "and", "a"]), pred: Some(bin(Op::And, E::HasTag("(?i)b$".into()), acc_re("(?i)a"))), ..Default::default() },
    ];
    with_reports(j, sels, vec![BalOpts { flat: true, ..Default::default() }], true)
}
pub fn s_expr(ch: &mut Ch) -> Option<Case> {
    let k = ch.of(&[0, 2, 3, 4, 6, 7, 8, 9, 10, 11, 20]);
    let n = sizes(ch);
    let j = scaled(k, n);
    let last = super::order::letters(n - 1);
    let q = (n + 1) / 2;
    let num = |x: usize| E::Num(format!("{}", x));
    let es = vec![
        E::Any(Box::new(bin(Op::Eq, E::Amount, num(n)))),
        E::Any(Box::new(bin(Op::Gt, E::Amount, num(n)))),
        bin(Op::Match, E::Note, E::Re(format!("v?{}$", last))),
        bin(Op::Match, E::Account, E::Re(format!("[a-z ]{{{}}}$", q))),
        bin(Op::Match, E::Payee, E::Re(format!("^.{{{}}}$", n))),
        E::HasTag(format!("t{}$", last)),
        bin(Op::Eq, E::TagStr(format!("t{}", last)), E::Str(format!("v{}", last))),
        bin(Op::Match, E::TagRe("y$".into()), E::Re(format!(".{{{}}}", q))),
    ];
    let sels = es.into_iter().map(|e| Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() }).collect();
    with_reports(j, sels, vec![], true)
}
pub fn s_convert(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &[0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 21, 22]);
    let l = ledger(&j, false).unwrap();
    let first = l.commodities.iter().filter(|x| !x.is_empty()).next().unwrap().clone();
    let mut xs = vec!["EUR".to_string(), first];
    xs.extend(l.commodities.iter().last().cloned());
    xs.retain(|x| l.commodities.contains(x));
    xs.dedup();
    let bals = xs
        .into_iter()
        .flat_map(|x| vec![BalOpts { x: Some(x.clone()), ..Default::default() }, BalOpts { flat: true, depth: Some(1), x: Some(x), ..Default::default() }])
        .collect();
    with_reports(j, vec![Sel::default()], bals, false)
}
pub fn s_names(ch: &mut Ch) -> Option<Case> {
    // the same names, declared, in capitals
    let j = of_kinds(ch, &[2, 3, 4, 6, 12, 17]);
    let mut j = j;
    let decl: Vec<Item> = j
        .iter()
        .filter_map(|x| match x {
            Item::Txn(t) => Some(t.posts.clone()),
            _ => None,
        })
        .flatten()
        .flat_map(|p| {
            let mut v = vec![Item::Account { name: p.acc.clone(), aliases: vec![], payees: vec![], extra: vec![] }];
            v.extend(p.amt.as_ref().map(|a| Item::Commodity { name: a.c.clone(), aliases: vec![], extra: vec![] }));
            v
        })
        .collect();
    if ch.flag() {
        for x in j.iter_mut() {
            if let Item::Txn(t) = x {
                if t.date == day(1) {
                    for p in t.posts.iter_mut() {
                        p.acc = p.acc.to_uppercase();
                        if let Some(a) = p.amt.as_mut() {
                            a.c = a.c.to_lowercase();
                        }
                    }
                }
            }
        }
        for d in decl.into_iter().rev() {
            if !j.iter().any(|x| matches!((x, &d), (Item::Account { name: a, .. }, Item::Account { name: b, .. }) | (Item::Commodity { name: a, .. }, Item::Commodity { name: b, .. }) if a.to_lowercase() == b.to_lowercase())) {
                j.insert(0, d);
            }
        }
    }
    ledger(&j, false).ok()?;
    journal_case(j, FLAT | REG | LISTS)
}
pub fn s_auto(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &every());
    let mut j = j;
    if !j.iter().any(|x| matches!(x, Item::Auto(_))) {
        let a = match ch.pick(3) {
            0 => auto("a", acc_re("(?i)a"), vec![" :auto:"], vec![(Kind::Virt, "Budget", mul("-2"))]),
            1 => auto("/^Exp:/ /^A/", bin(Op::Or, acc_re("^Exp:"), acc_re("^A")), vec![], vec![(Kind::Real, "T", mul("0.5")), (Kind::Real, "U", mul("-0.5"))]),
            _ => auto(
                "expr any(amount>3)",
                E::Any(Box::new(bin(Op::Gt, E::Amount, E::Num("3".into())))),
                vec![],
                vec![(Kind::Virt, "Big", AutoAmt::Expr(bin(Op::Mul, E::Amount, E::Num("2".into()))))],
            ),
        };
        j.push(a);
    }
    ledger(&j, false).ok()?;
    journal_case(j, REG)
}
pub fn s_lists(ch: &mut Ch) -> Option<Case> {
    let j = of_kinds(ch, &every());
    journal_case(j, LISTS | PRICES)
}
pub fn s_tags(ch: &mut Ch) -> Option<Case> {
    let k = ch.of(&[7, 8, 9, 20]);
    let n = sizes(ch);
    let j = scaled(k, n);
    let mut names: Vec<String> = vec![0, 1, n / 2, n.saturating_sub(2), n - 1].into_iter().map(|i| format!("t{}", super::order::letters(i))).collect();
    names.push(word(n).replace(' ', "_"));
    names.push("key".into());
    let mut sels: Vec<Sel> = names.iter().map(|x| Sel { query: vec![format!("%^{}$", x)], pred: Some(E::HasTag(format!("(?i)^{}$", x))), ..Default::default() }).collect();
    let mut es = vec![bin(Op::Eq, E::TagStr("key".into()), E::Str(word(n))), bin(Op::Eq, E::TagStr(word(n)), E::Str("value".into()))];
    for x in &names[..5] {
        es.push(bin(Op::Eq, E::TagStr(x.clone()), E::Str(x.replacen('t', "v", 1))));
    }
    sels.extend(es.into_iter().map(|e| Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() }));
    with_reports(j, sels, vec![], true)
}
