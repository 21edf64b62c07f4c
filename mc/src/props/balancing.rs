//! C01, C02, C03: acceptance, missing amounts, balance assertions
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            spaces: vec![
                space("amounts, commodities and costs", c01_real),
                space("kinds of postings", c01_kinds),
                space("bracketed with costs", c01_brackets),
                space("tiny differences", c01_tiny),
                space("many postings", c01_many),
                space("signs of three and four commodities", c01_signs),
                space("a bad transaction anywhere", c01_history),
                space("every command, whatever the options", c01_commands),
                deep("four postings", c01_four),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C02",
            spaces: vec![
                space("one missing amount", c02_fill),
                space("position, virtual postings, costs", c02_pos),
                space("decimals and sizes", c02_decimals),
                space("many postings and commodities", c02_many),
                space("payee, tags and alias of the filled posting", c02_context),
                space("several transactions", c02_history),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C03",
            spaces: vec![
                space("histories of three transactions", c03_hist),
                space("inside one transaction", c03_inside),
                space("many transactions on one date", c03_many),
                space("--no-balance-check", c03_nocheck),
                space("what counts for the balance", c03_what),
                space("exactness of assertions", c03_exact),
                deep("histories of four transactions", c03_hist4),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

fn a_post(ch: &mut Ch, acc: &str, amounts: &[&str], coms: &[&str], costs: bool, elided: bool) -> Post {
    let n = amounts.len() + if elided { 1 } else { 0 };
    let k = ch.pick(n);
    if k == amounts.len() {
        return el(acc);
    }
    let c = ch.of(coms);
    let p = po(acc, amounts[k], c);
    if !costs {
        return p;
    }
    let other = if c == coms[0] { coms[1] } else { coms[0] };
    match ch.pick(3) {
        0 => p,
        1 => p.at("2", other),
        _ => p.att("3", other),
    }
}

const ACCS: [&str; 6] = ["A", "B", "C", "D", "E:F", "G"];

fn c01_real(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let amounts: &[&str] = if n < 3 || ch.thorough() {
        &["1", "-1", "2", "-2", "-3", "1.5", "0"]
    } else {
        &["1", "-1", "2", "-3"]
    };
    let posts = (0..n)
        .map(|i| a_post(ch, ACCS[i], amounts, &["EUR", "USD"], true, true))
        .collect();
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | BAL | REG)
}
fn c01_four(ch: &mut Ch) -> Option<Case> {
    let posts = (0..4)
        .map(|i| a_post(ch, ACCS[i], &["1", "-1", "2", "-3"], &["EUR", "USD"], true, true))
        .collect();
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | REG)
}
fn c01_kinds(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(4, 5));
    let mut posts = vec![];
    for i in 0..n {
        let k = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
        let p = match ch.pick(3) {
            0 => po(ACCS[i], "1", "EUR"),
            1 => po(ACCS[i], "-1", "EUR"),
            _ => el(ACCS[i]),
        };
        posts.push(p.kind(k));
    }
    journal_case(txs(vec![tx(day(0), "x", posts)]), if n < 4 { CHECK | BAL | REG } else { CHECK | REG })
}
fn c01_brackets(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let real = ch.flag();
    let mut posts = vec![];
    let alph: &[&str] = if n < 3 || ch.thorough() { &["1", "-1", "2", "-2", "-3", "6"] } else { &["1", "-2", "-3"] };
    for i in 0..n {
        let p = a_post(ch, ACCS[i], alph, &["EUR", "USD"], true, false);
        posts.push(p.kind(Kind::Brac));
    }
    if real {
        posts.insert(1, po("R", "5", "EUR"));
        posts.push(po("S", "-5", "EUR"));
    }
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | REG)
}
fn neg(s: &str) -> String {
    if let Some(x) = s.strip_prefix('-') {
        x.to_string()
    } else {
        format!("-{}", s)
    }
}
/// decimal text of an exact decimal number
pub fn dec(q: &Rat) -> String {
    use num::{BigInt, One, Signed};
    let mut den = q.denom().clone();
    let mut k = 0;
    let ten = BigInt::from(10);
    let mut num = q.numer().abs();
    while !den.is_one() {
        num *= &ten;
        k += 1;
        let g = num::integer::gcd(num.clone(), den.clone());
        num /= &g;
        den /= &g;
        assert!(k < 200);
    }
    let mut s = num.to_string();
    while s.len() < k + 1 {
        s.insert(0, '0');
    }
    let (i, d) = s.split_at(s.len() - k);
    let body = if k == 0 { i.to_string() } else { format!("{}.{}", i, d) };
    if q.is_negative() {
        format!("-{}", body)
    } else {
        body
    }
}
pub const SIZES: [&str; 12] = [
    "0.1",
    "0.2",
    "0.005",
    "33.333333333333333333333333",
    "1",
    "9007199254740993",
    "18446744073709551616",
    "340282366920938463463374607431768211457.01",
    "99999999999999999999999999999999999999999999999.99",
    "0.00000000000000000000000000001",
    "4611686018427387904.5",
    "1234567.89",
];
fn c01_tiny(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let sb = ch.flag();
    let delta = ch.of(&["0", "0.01", "0.005", "0.0000000001", "0.000000000000000000000000000001", "-0.004999", "1"]);
    let bq = if sb { -rat(b) } else { rat(b) };
    let last = -(rat(a) + bq.clone()) + rat(delta);
    let shape = ch.pick(3);
    let j = match shape {
        0 => vec![po("A", a, "EUR"), po("B", &dec(&bq), "EUR"), po("C", &dec(&last), "EUR")],
        // the same through a cost of 3 units
        1 => vec![
            po("A", a, "EUR"),
            po("B", "3", "STK").at(&dec(&bq), "EUR"),
            po("C", &dec(&(last - bq.clone() * int(2))), "EUR"),
        ],
        _ => vec![
            po("A", a, "EUR").kind(Kind::Brac),
            po("B", &dec(&bq), "EUR").kind(Kind::Brac),
            po("C", &dec(&last), "EUR").kind(Kind::Brac),
        ],
    };
    journal_case(txs(vec![tx(day(0), "x", j)]), CHECK | BAL)
}
fn c01_many(ch: &mut Ch) -> Option<Case> {
    let n = 2 + ch.pick(ch.qt(40, 120));
    let off = ch.of(&["0", "0.01", "-1"]);
    let kind = ch.of(&[Kind::Real, Kind::Brac]);
    let at = ch.pick(3);
    let mut posts = vec![];
    let mut sum = rat("0");
    for i in 0..n {
        let q = rat(&format!("{}.{:02}", i * i + 1, i));
        let q = if i % 3 == 1 { -q } else { q };
        sum += q.clone();
        posts.push(po(&format!("A:{}", i % 7), &dec(&q), "EUR").kind(kind));
    }
    let k = match at {
        0 => 0,
        1 => n / 2,
        _ => n,
    };
    posts.insert(k, po("Z", &dec(&(rat(off) - sum)), "EUR").kind(kind));
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | BAL | REG)
}
fn c01_signs(ch: &mut Ch) -> Option<Case> {
    let four = ch.flag();
    let n = if four { 4 } else { 3 };
    let kind = ch.of(&[Kind::Real, Kind::Brac]);
    let mut posts = vec![];
    for i in 0..n {
        let s = ch.of(&["0", "1.25", "-7"]);
        posts.push(po(ACCS[i], s, ["EUR", "USD", "GBP", "$"][i]).kind(kind));
    }
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | BAL | REG | PRICES)
}
fn bad_or_good(ch: &mut Ch, d: u32) -> (Txn, bool) {
    let k = ch.pick(6);
    let date = day(d);
    let t = match k {
        0 => tx(date, "good", vec![po("A", "1", "EUR"), po("B", "-1", "EUR")]),
        1 => tx(date, "exchange", vec![po("A", "1", "EUR"), po("B", "-1", "USD")]),
        2 => tx(date, "fill", vec![po("A", "1", "EUR"), el("B")]),
        3 => tx(date, "bad", vec![po("A", "1", "EUR"), po("B", "-2", "EUR")]),
        4 => tx(date, "two empty", vec![po("A", "1", "EUR"), el("B"), el("C")]),
        _ => tx(date, "bad virtual", vec![po("A", "1", "EUR"), el("B"), po("V", "1", "EUR").kind(Kind::Brac)]),
    };
    (t, k >= 3)
}
fn c01_history(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let mut v = vec![];
    for _ in 0..n {
        let d = ch.pick(2) as u32;
        v.push(bad_or_good(ch, d).0);
    }
    journal_case(txs(v), CHECK | REG)
}
fn c01_commands(ch: &mut Ch) -> Option<Case> {
    let (t, bad) = bad_or_good(ch, 0);
    let good = tx(day(1), "ok", vec![po("A", "1", "EUR"), el("B")]);
    let included = ch.flag();
    let pos = ch.flag();
    let extra: Vec<&str> = ch.of(&[
        vec![],
        vec!["-b", "2020-06-01"],
        vec!["-e", "2019-01-01"],
        vec!["nothing"],
        vec!["--real"],
        vec!["--no-balance-check"],
        vec!["--depth", "1"],
        vec!["-X", "EUR"],
    ]);
    let cmd = ch.of(&COMMANDS);
    let t1 = text(&txs(vec![t]));
    let t2 = text(&txs(vec![good]));
    let body = if included { "include other.ledger\n".to_string() } else { t1.clone() };
    let main = if pos { format!("{}\n{}", t2, body) } else { format!("{}\n{}", body, t2) };
    case(format!("{} {:?}\n{}\n{}", cmd, extra, main, t1), move |env| {
        let f = env.write("j.ledger", &main);
        env.write("other.ledger", &t1);
        let mut args = vec![cmd, "-f", &f];
        args.extend(extra.iter());
        let o = env.run(&args);
        if bad {
            if !o.refused() {
                return Err(format!("a journal with an unbalanced transaction is accepted by {} {:?}", cmd, extra));
            }
            no_figures(cmd, &o)
        } else {
            must_ok(cmd, &o)
        }
    })
}

// ------------------------------------------------------------------ C02

fn c02_fill(ch: &mut Ch) -> Option<Case> {
    let n = ch.pick(ch.qt(4, 5));
    let empties = ch.of(&[1usize, 1, 2, 3]);
    let mut posts = vec![];
    let amounts: &[&str] = if n < 3 { &["1", "-1", "2.5", "-3", "0"] } else { &["1", "-1", "2.5"] };
    for i in 0..n {
        posts.push(a_post(ch, ACCS[i], amounts, &["EUR", "USD"], n < 3, false));
    }
    let pos = ch.pick(n + 1);
    for k in 0..empties {
        posts.insert(pos, el(["Z", "Y:Z", "Z"][k]));
    }
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | BAL | REG)
}
fn c02_pos(ch: &mut Ch) -> Option<Case> {
    // real, virtual and bracketed postings around the empty one, which may share its account
    let mut posts = vec![];
    let acc = ch.of(&["A", "Z"]);
    posts.push(po(acc, ch.of(&["5", "-5.25"]), "EUR"));
    match ch.pick(5) {
        0 => {}
        1 => posts.push(po("V", "100", "EUR").kind(Kind::Virt)),
        2 => {
            posts.push(po("W", "7", "EUR").kind(Kind::Brac));
            posts.push(po("W2", "-7", "EUR").kind(Kind::Brac));
        }
        3 => posts.push(po("S", "-3", "STK").at("1.1", "EUR")),
        _ => posts.push(po("S", "-3", "STK").att("1.1", "USD")),
    }
    if ch.flag() {
        posts.push(po("B", "2", "USD"));
    }
    if ch.flag() {
        posts.push(po("V", "1", "GBP").kind(Kind::Virt));
    }
    let n = posts.len();
    let pos = ch.pick(n + 1);
    posts.insert(pos, el("Z"));
    let before = ch.flag();
    let after = ch.flag();
    let mut v = vec![];
    if before {
        v.push(tx(day(0), "before", vec![po("Z", "1", "EUR"), el("A")]));
    }
    v.push(tx(day(1), "x", posts));
    if after {
        v.push(tx(day(2), "after", vec![el("Z"), po("A", "1", "GBP")]));
    }
    journal_case(txs(v), CHECK | BAL | REG)
}
fn c02_decimals(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let sa = ch.flag();
    let shape = ch.pick(4);
    let a = if sa { neg(a) } else { a.to_string() };
    let posts = match shape {
        0 => vec![po("A", &a, "EUR"), po("B", b, "EUR"), el("Z")],
        1 => vec![po("A", "3", "STK").at(&a, "EUR"), po("B", b, "EUR"), el("Z")],
        2 => vec![po("A", b, "STK").at(&a, "EUR"), el("Z")],
        _ => vec![el("Z"), po("A", &a, "EUR"), po("B", b, "USD"), po("C", &a, "USD")],
    };
    // the filled amount balances what is asserted to the last digit
    let l = ledger(&txs(vec![tx(day(0), "x", posts.clone())]), false).ok()?;
    let mut check = vec![];
    for p in l.txns[0].posts.iter().filter(|p| p.acc == "Z") {
        let (q, c) = p.amt.clone().unwrap();
        check.push(po("Z", "0", &c).eq(&dec(&q), &c));
    }
    journal_case(
        txs(vec![tx(day(0), "x", posts), tx(day(1), "exact", check)]),
        CHECK | BAL | REG,
    )
}
fn c02_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(40, 120));
    let coms = ch.of(&[1usize, 2, 3, 5]);
    let pos = ch.pick(3);
    let mut posts = vec![];
    for i in 0..n {
        let q = rat(&format!("{}.{:02}", i * 7 % 13, i % 100));
        let q = if i % 4 == 3 { -q } else { q };
        posts.push(po(&format!("A:{}", i % 5), &dec(&q), ["EUR", "USD", "GBP", "$", "STK"][i % coms]));
    }
    posts.insert([0, n / 2, n][pos], el("Z"));
    journal_case(txs(vec![tx(day(0), "x", posts)]), CHECK | BAL | REG)
}
fn c02_context(ch: &mut Ch) -> Option<Case> {
    let acc = ch.of(&["Z", "zed", "ZED", "Zeta"]);
    let two = ch.flag();
    let mut posts = vec![po("A", "1", "EUR").note(" :own:")];
    if two {
        posts.push(po("B", "2", "USD").after(" other: value"));
    }
    let mut e = el(acc);
    match ch.pick(4) {
        0 => {}
        1 => e = e.note(" :mine:"),
        2 => e = e.after(" key: mine"),
        _ => e = e.note(" :one:two:").after(" key: mine"),
    }
    let pos = ch.pick(posts.len() + 1);
    posts.insert(pos, e);
    let mut t = tx(day(0), "Shop", posts);
    if ch.flag() {
        t = t.pre(" :whole:");
    }
    if ch.flag() {
        t = t.payee("Someone");
    }
    let j: Journal = vec![
        Item::Account {
            name: "Zeta".into(),
            aliases: vec!["Z".into(), "zed".into()],
            payees: vec![],
            extra: vec![],
        },
        Item::Txn(t),
    ];
    let q = ch.pick(8);
    let (query, pred) = match q {
        0 => (vec!["%own"], E::HasTag("(?i)own".into())),
        1 => (vec!["%mine"], E::HasTag("(?i)mine".into())),
        2 => (vec!["%key"], E::HasTag("(?i)key".into())),
        3 => (vec!["%two"], E::HasTag("(?i)two".into())),
        4 => (vec!["%whole"], E::HasTag("(?i)whole".into())),
        5 => (vec!["@some"], bin(Op::Match, E::Payee, E::Re("(?i)some".into()))),
        6 => (vec!["@shop"], bin(Op::Match, E::Payee, E::Re("(?i)shop".into()))),
        _ => (vec!["^zeta$"], acc_re("(?i)^zeta$")),
    };
    let sel = Sel {
        query: query.iter().map(|x| x.to_string()).collect(),
        pred: Some(pred),
        ..Default::default()
    };
    let t = text(&j);
    case(format!("{:?}\n{}", sel.query, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, Some(&BalOpts::default()), true)
    })
}
fn c02_history(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let mut v = vec![];
    for i in 0..n {
        let d = ch.pick(2) as u32;
        let e = ch.of(&["A", "B"]);
        let posts = match ch.pick(4) {
            0 => vec![po("A", "1", "EUR"), el(e)],
            1 => vec![el(e), po("B", "-2.5", "EUR"), po("C", "1", "USD")],
            2 => vec![po("A", "2", "EUR"), po("B", "-2", "EUR"), el(e)],
            _ => vec![po("A", "2", "EUR").eq("2", "EUR"), el(e)],
        };
        v.push(tx(day(d), &format!("t{}", i), posts));
    }
    journal_case(txs(v), CHECK | BAL | REG)
}

// ------------------------------------------------------------------ C03

fn hist_txn(ch: &mut Ch, name: &str, small: bool) -> Txn {
    let d = day(ch.pick(2) as u32);
    let mut posts = vec![];
    let vals: &[&str] = if small { &["0", "1", "2"] } else { &["0", "1", "2", "-1", "3"] };
    match ch.pick(4) {
        0 => posts.push(po("A", "1", "EUR")),
        1 => {
            let v = ch.of(vals);
            posts.push(po("A", "1", "EUR").eq(v, "EUR"));
        }
        2 => {
            let v = ch.of(vals);
            let c = ch.of(&["EUR", "USD"]);
            let mut p = el("A").eq(v, c);
            p.amt = None;
            posts.push(p);
        }
        _ => {
            let v = ch.of(&["0", "1"]);
            posts.push(po("A", "-1", "USD").eq(v, "EUR"));
        }
    }
    posts.push(el("B"));
    tx(d, name, posts)
}
fn c03_hist(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let small = n == 3 && !ch.thorough();
    let v = (0..n).map(|i| hist_txn(ch, &format!("t{}", i), small)).collect();
    journal_case(txs(v), CHECK | REG)
}
fn c03_hist4(ch: &mut Ch) -> Option<Case> {
    let v = (0..4).map(|i| hist_txn(ch, &format!("t{}", i), true)).collect();
    journal_case(txs(v), CHECK | REG)
}
fn c03_inside(ch: &mut Ch) -> Option<Case> {
    let mut posts = vec![];
    let n = 1 + ch.pick(3);
    for _ in 0..n {
        let acc = ch.of(&["A", "A:B"]);
        let p = match ch.pick(3) {
            0 => po(acc, "2", "EUR"),
            1 => {
                let v = ch.of(&["2", "4", "0", "-1"]);
                po(acc, "2", "EUR").eq(v, "EUR")
            }
            _ => {
                let v = ch.of(&["2", "4", "0", "-1"]);
                el(acc).eq(v, "EUR")
            }
        };
        posts.push(p);
    }
    let pos = ch.pick(n + 1);
    posts.insert(pos, el("Z"));
    let mut v = vec![tx(day(1), "x", posts)];
    if ch.flag() {
        v.push(tx(day(0), "before", vec![po("A", "2", "EUR"), el("A:B")]));
    }
    journal_case(txs(v), CHECK | REG)
}
fn c03_many(ch: &mut Ch) -> Option<Case> {
    // n transactions, dates by a pattern, every one asserted in its place in time
    let n = 1 + ch.pick(ch.qt(48, 150));
    let pattern = ch.pick(5);
    let bad = ch.pick(4); // none, first, middle, last
    let assign = ch.flag();
    let dates: Vec<u32> = (0..n)
        .map(|i| match pattern {
            0 => 0,
            1 => (i % 2) as u32,
            2 => (n - i) as u32,
            3 => ((i * 7) % 5) as u32,
            _ => (i / 3) as u32,
        })
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| dates[*i]);
    let mut want = vec![0i64; n];
    let mut run = 0i64;
    for i in order.iter() {
        run += (*i as i64 % 4) + 1;
        want[*i] = run;
    }
    let wrong = match bad {
        0 => n,
        1 => 0,
        2 => n / 2,
        _ => n - 1,
    };
    let mut v = vec![];
    for i in 0..n {
        let w = if i == wrong { want[i] + 1 } else { want[i] };
        let p = if assign && i % 3 == 2 {
            el("A").eq(&w.to_string(), "EUR")
        } else {
            po("A", &((i as i64 % 4) + 1).to_string(), "EUR").eq(&w.to_string(), "EUR")
        };
        v.push(tx(day(dates[i]), &format!("t{}", i), vec![p, el("B")]));
    }
    journal_case(txs(v), CHECK | REG)
}
fn c03_nocheck(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(2);
    let mut v = vec![];
    for i in 0..n {
        let d = day(ch.pick(2) as u32);
        let posts = match ch.pick(9) {
            6 => vec![el("A").eq("5", "EUR"), po("B", "-1", "EUR")],
            7 => vec![el("A").eq("5", "EUR"), el("B")],
            8 => vec![po("A", "2", "EUR").eq("5", "EUR"), po("C", "1", "EUR"), el("B").eq("-3", "EUR")],
            0 => vec![po("A", "1", "EUR").eq("1", "EUR"), el("B")],
            1 => vec![po("A", "1", "EUR").eq("9", "EUR"), el("B")],
            2 => vec![po("A", "1", "EUR").eq("0", "USD"), po("B", "-1", "EUR").eq("7", "EUR")],
            3 => vec![po("A", "1", "EUR").eq("1", "EUR"), po("B", "-2", "EUR")],
            4 => vec![po("A", "1", "EUR"), po("B", "-1", "EUR")],
            _ => vec![po("A", "1", "EUR"), el("B"), el("C")],
        };
        v.push(tx(d, &format!("t{}", i), posts));
    }
    let flag = ch.flag();
    let j = txs(v);
    let t = text(&j);
    case(format!("{} {}", flag, t), move |env| {
        let f = env.write("j.ledger", &t);
        let extra: &[&str] = if flag { &["--no-balance-check"] } else { &[] };
        expect_file(env, &f, &ledger(&j, flag), BAL | REG | LISTS | PRICES, extra)
    })
}
fn c03_what(ch: &mut Ch) -> Option<Case> {
    // virtual postings, sub-accounts, aliases, costs and filled amounts before an assertion
    let mut v = vec![];
    let k = ch.pick(10);
    let posts = match k {
        0 => vec![po("A", "5", "EUR").kind(Kind::Virt)],
        1 => vec![po("A", "5", "EUR").kind(Kind::Brac), po("A", "-5", "EUR").kind(Kind::Brac)],
        2 => vec![po("A:B", "5", "EUR"), el("Z")],
        3 => vec![po("alia", "5", "EUR"), el("Z")],
        4 => vec![po("A", "5", "STK").at("2", "EUR"), el("Z")],
        5 => vec![po("Z", "-5", "EUR"), el("A")],
        6 => vec![po("A", "5", "eur"), el("Z")],
        7 => vec![po("a", "5", "EUR"), el("Z")],
        8 => vec![po("A", "5", "EUR"), po("A", "-5", "EUR")],
        _ => vec![po("Z", "-5", "STK").at("1", "EUR"), el("A")],
    };
    v.push(tx(day(0), "before", posts));
    let (lit, c) = ch.of(&[("6", "EUR"), ("1", "EUR"), ("11", "EUR"), ("5", "STK"), ("0", "USD"), ("6", "€")]);
    let assign = ch.flag();
    let p = if assign { el("A").eq(lit, c) } else { po("A", "1", "EUR").eq(lit, c) };
    v.push(tx(day(1), "now", vec![p, el("Z")]));
    if ch.flag() {
        v.push(tx(day(2), "later", vec![po("A", "100", "EUR"), el("Z")]));
        v.rotate_right(1);
    }
    let mut j = vec![
        Item::Account { name: "A".into(), aliases: vec!["alia".into()], payees: vec![], extra: vec![] },
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] },
    ];
    j.extend(txs(v));
    journal_case(j, CHECK | REG)
}
fn c03_exact(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let delta = ch.of(&["0", "0.01", "0.004", "0.000000000000000000000000000000001"]);
    let mode = ch.pick(2);
    let want = dec(&(rat(a) - rat(b) + rat(delta)));
    let p = if mode == 0 { po("A", &neg(b), "EUR").eq(&want, "EUR") } else { el("A").eq(&want, "EUR") };
    journal_case(
        txs(vec![
            tx(day(0), "x", vec![po("A", a, "EUR"), el("Z")]),
            tx(day(1), "y", vec![p, el("Z")]),
        ]),
        CHECK | REG,
    )
}
