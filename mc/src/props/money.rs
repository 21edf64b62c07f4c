//! C08, C09, C17, C20: conversion, exact amounts, listings, dates
use super::balancing::{dec, SIZES};
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            spaces: vec![
                space("one pair: directions, dates, order", c08_pair),
                space("trees of prices", c08_trees),
                space("triangles and squares", c08_cycles),
                space("sources of prices", c08_sources),
                space("long chains and stars", c08_long),
                space("future quotes and quotes of today", c08_future),
                space("options together with -X", c08_options),
                space("names of the target", c08_names),
                space("exact products", c08_exact),
                space("many quotes of one pair", c08_many),
                space("zero and cancelling balances", c08_zero),
                space("prices of zero", c08_free),
                deep("two pairs with three quotes each", c08_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C17",
            spaces: vec![
                space("declared and used names", c17_names),
                space("where commodities and accounts come from", c17_sources),
                space("prices", c17_prices),
                space("implied prices", c17_implied),
                space("spellings and order", c17_order),
                space("payees", c17_payees),
                space("many", c17_many),
                space("automated transactions", c17_auto),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C20",
            spaces: vec![
                space("every date of a year, valid or not", c20_journal),
                space("prices", c20_price),
                space("dates on the command line", c20_cli),
                space("months on the command line", c20_month),
                space("all years", c20_years),
                space("order of pairs of dates", c20_pairs),
                space("to_date in expressions", c20_todate),
                space("times and effective dates", c20_times),
                space("something before or after a date", c20_more),
                space("things that are not dates", c20_not),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

fn price(d: Date, com: &str, lit: &str, to: &str) -> Item {
    Item::Price { date: d, com: com.into(), amt: am(lit, to) }
}
/// one account per commodity, with sub-accounts
fn holdings(coms: &[&str]) -> Txn {
    let mut posts = vec![];
    for (i, c) in coms.iter().enumerate() {
        posts.push(po(&format!("A:{}", i), &format!("{}", 10 * (i + 1)), c).kind(Kind::Virt));
    }
    tx((2020, 1, 1), "holdings", posts)
}
fn x(c: &str) -> BalOpts {
    BalOpts { x: Some(c.to_string()), ..Default::default() }
}
fn x_case(j: Journal, opts: Vec<BalOpts>) -> Option<Case> {
    let t = text(&j);
    let k: Vec<_> = opts.iter().map(|o| o.args()).collect();
    case(format!("{:?}\n{}", k, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        for o in &opts {
            // the target under its proper name
            let mut a = vec!["bal".to_string(), "-f".to_string(), f.clone()];
            a.extend(o.args());
            let out = env.run(&a);
            must_ok("bal", &out)?;
            check_bal(&l, &Sel::default(), o, &out.stdout).map_err(|e| format!("{}: {}", o.args().join(" "), e))?;
        }
        Ok(())
    })
}
fn two(c: &[&str]) -> Vec<BalOpts> {
    c.iter().map(|c| x(c)).collect()
}

// ------------------------------------------------------------------ C08

const D: [Date; 4] = [(2018, 5, 5), (2019, 12, 31), (2020, 1, 1), (2020, 7, 1)];
fn c08_pair(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let mut j = vec![];
    for i in 0..n {
        let d = D[ch.pick(4)];
        let dir = ch.flag();
        let v = ["2", "4", "0.5"][i];
        j.push(if dir { price(d, "AAA", v, "BBB") } else { price(d, "BBB", v, "AAA") });
    }
    j.push(Item::Txn(holdings(&["AAA", "BBB", "CCC"])));
    let r = ch.pick(n + 1);
    j.rotate_left(r);
    x_case(j, two(&["AAA", "BBB", "CCC"]))
}
fn c08_deep(ch: &mut Ch) -> Option<Case> {
    let mut j = vec![];
    for i in 0..6 {
        let d = D[ch.pick(3)];
        let (a, b) = if i < 3 { ("AAA", "BBB") } else { ("BBB", "CCC") };
        let v = ["2", "4", "0.5", "3", "8", "10"][i];
        j.push(if ch.flag() { price(d, a, v, b) } else { price(d, b, v, a) });
    }
    j.push(Item::Txn(holdings(&["AAA", "BBB", "CCC"])));
    x_case(j, two(&["AAA", "CCC"]))
}
fn c08_trees(ch: &mut Ch) -> Option<Case> {
    // every labelled tree over four commodities (parent functions without cycles), and forests
    let c = ["AAA", "BBB", "CCC", "DDD"];
    let mut j = vec![];
    let mut parent = vec![0usize; 4];
    for i in 1..4 {
        // a parent among the previous ones, or none
        let p = ch.pick(i + 1);
        parent[i] = p;
        if p == i {
            continue;
        }
        let d = D[ch.pick(3)];
        let v = ["2", "4", "0.5", "5"][i];
        j.push(if ch.flag() { price(d, c[i], v, c[p]) } else { price(d, c[p], v, c[i]) });
    }
    if ch.flag() {
        j.reverse();
    }
    j.push(Item::Txn(holdings(&c)));
    let t = ch.of(&[vec!["AAA"], vec!["CCC", "DDD"]]);
    x_case(j, two(&t))
}
fn c08_cycles(ch: &mut Ch) -> Option<Case> {
    // consistent prices: every way round gives the same, whichever is taken
    let c = ["AAA", "BBB", "CCC", "DDD"];
    let w = [rat("1"), rat("2"), rat("8"), rat("0.5")];
    let shape = ch.pick(2);
    let edges: Vec<(usize, usize)> = if shape == 0 {
        vec![(0, 1), (1, 2), (2, 0)]
    } else {
        vec![(0, 1), (1, 2), (2, 3), (3, 0)]
    };
    let mut j = vec![];
    for (a, b) in edges {
        let d = D[ch.pick(3)];
        let v = dec(&(w[a].clone() / w[b].clone()));
        let r = dec(&(w[b].clone() / w[a].clone()));
        j.push(if ch.flag() { price(d, c[a], &v, c[b]) } else { price(d, c[b], &r, c[a]) });
    }
    j.push(Item::Txn(holdings(&c)));
    x_case(j, two(&["AAA", "CCC"]))
}
fn c08_sources(ch: &mut Ch) -> Option<Case> {
    let mut j = vec![];
    for i in 0..2 {
        let d = D[ch.pick(3)];
        let (a, b) = if i == 0 { ("AAA", "BBB") } else { ch.of(&[("BBB", "CCC"), ("AAA", "BBB")]) };
        let v = ["2", "5"][i];
        j.push(match ch.pick(7) {
            0 => price(d, a, v, b),
            1 => Item::Txn(tx(d, "per unit", vec![po("X", "10", a).at(v, b), el("Y")])),
            2 => Item::Txn(tx(d, "total", vec![po("X", "10", a).att(&format!("{}0", v), b), el("Y")])),
            3 => Item::Txn(tx(d, "sale", vec![po("X", "-4", a).att("12", b), el("Y")])),
            4 => Item::Txn(tx(d, "implied", vec![po("X", "10", a), po("Y", &format!("-{}0", v), b)])),
            5 => Item::Txn(tx(
                d,
                "implied of several",
                vec![po("X", "3", b), po("X", "10", a), po("Y", "-10", b), po("Z", "-1", b)],
            )),
            _ => Item::Txn(tx(
                d,
                "bracketed",
                vec![po("X", "10", a).kind(Kind::Brac).at(v, b), po("Y", &format!("-{}0", v), b).kind(Kind::Brac)],
            )),
        });
    }
    j.push(Item::Txn(holdings(&["AAA", "BBB", "CCC"])));
    x_case(j, two(&["AAA", "BBB", "CCC"]))
}
fn c08_long(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(14, 20));
    let shape = ch.pick(3);
    let dir = ch.pick(3);
    let dates = ch.pick(3);
    let name = |i: usize| format!("C{}", (b'a' + i as u8) as char);
    let mut j = vec![];
    let mut coms = vec![name(0)];
    for i in 1..=n {
        let p = match shape {
            0 => i - 1,
            1 => 0,
            _ => i / 2,
        };
        let p = if p == i { i - 1 } else { p };
        let d = match dates {
            0 => day(0),
            1 => day(i as u32 * 3),
            _ => day(200 - i as u32 * 3),
        };
        let v = ["2", "4", "0.5", "0.25"][i % 4];
        let fwd = match dir {
            0 => true,
            1 => false,
            _ => i % 2 == 0,
        };
        j.push(if fwd { price(d, &name(i), v, &name(p)) } else { price(d, &name(p), v, &name(i)) });
        coms.push(name(i));
    }
    let names: Vec<&str> = coms.iter().map(|s| s.as_str()).collect();
    j.push(Item::Txn(holdings(&names)));
    let last = name(n);
    let mid = name(n / 2);
    x_case(j, two(&["Ca", &last, &mid]))
}
fn c08_future(ch: &mut Ch) -> Option<Case> {
    let t = today();
    let back = |n: i64| -> Date {
        use chrono::Datelike;
        let d = chrono::NaiveDate::from_ymd(t.0, t.1, t.2) + chrono::Duration::days(n);
        (d.year(), d.month(), d.day())
    };
    let dates = [back(-400), back(-1), back(0), back(2), back(300), (9999, 12, 31)];
    let mut j = vec![];
    let n = 1 + ch.pick(2);
    let mut key = vec![];
    for i in 0..n {
        let k = ch.pick(6);
        key.push(k);
        let a = if i == 0 { "AAA" } else { ch.of(&["AAA", "CCC"]) };
        let kind = ch.pick(2);
        j.push(match kind {
            0 => price(dates[k], a, ["2", "5"][i], "BBB"),
            _ => Item::Txn(tx(dates[k], "buy", vec![po("X", "10", a).at(["2", "5"][i], "BBB"), el("Y")])),
        });
    }
    j.push(Item::Txn(holdings(&["AAA", "BBB", "CCC"])));
    let c = x_case(j, two(&["AAA", "BBB"]))?;
    let run = c.run;
    case(format!("{:?} {}", key, n), move |env| {
        let r = run(env);
        if today() != t {
            // midnight passed
            return Ok(());
        }
        r
    })
}
fn c08_options(ch: &mut Ch) -> Option<Case> {
    let j = vec![
        price((2019, 1, 1), "AAA", "3", "BBB"),
        price((2019, 6, 1), "CCC", "0.25", "BBB"),
        Item::Txn(tx(
            (2020, 1, 1),
            "one",
            vec![
                po("A:B:C", "1", "AAA"),
                po("A:B", "-3", "BBB"),
                po("A:D", "4", "CCC"),
                po("E", "7", "ZZZ"),
                el("F:G"),
            ],
        )),
        Item::Txn(tx((2020, 2, 1), "two", vec![po("A:B:C", "1.1", "AAA"), po("V", "3", "CCC").kind(Kind::Virt), el("F:H")])),
    ];
    let o = BalOpts {
        flat: ch.flag(),
        depth: ch.of(&[None, Some(1), Some(2), Some(3)]),
        no_total: ch.flag(),
        x: Some(ch.of(&["AAA", "BBB", "CCC", "ZZZ"]).to_string()),
    };
    let mut sel = Sel { real: ch.flag(), ..Default::default() };
    match ch.pick(4) {
        0 => {}
        1 => sel.begin = Some((2020, 2, 1)),
        2 => sel.end = Some((2020, 2, 1)),
        _ => {
            sel.query = vec!["^[af]".into()];
            sel.pred = Some(acc_re("(?i)^[af]"));
        }
    }
    let t = text(&j);
    case(format!("{:?} {:?} {}", o.args(), sel.args(), t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, Some(&o), false)
    })
}
fn c08_names(ch: &mut Ch) -> Option<Case> {
    let mut j = vec![];
    let declared = ch.flag();
    if declared {
        j.push(Item::Commodity { name: "EUR".into(), aliases: vec!["€".into(), "euros".into()], extra: vec![] });
    }
    let c1 = if declared { ch.of(&["EUR", "€", "euros", "eur"]) } else { "EUR" };
    let c2 = ch.of(&["usd", "USD", "Us d"]);
    j.push(price((2019, 1, 1), c2, "0.5", c1));
    j.push(Item::Txn(tx(
        (2020, 1, 1),
        "x",
        vec![po("A", "8", if declared { "€" } else { "EUR" }), po("B", "3", c2), po("C", "5", "none"), el("Z")],
    )));
    let t = text(&j);
    let want = if declared { ch.of(&["EUR", "€", "EUROS", "eUr"]) } else { ch.of(&["EUR", "eur"]) };
    case(format!("{} {}", want, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        let name = l.commodities.iter().find(|c| c.to_lowercase() == "eur").unwrap().clone();
        let o = BalOpts { x: Some(name), ..Default::default() };
        let out = env.run(&["bal", "-f", &f, "-X", want]);
        must_ok("bal", &out)?;
        check_bal(&l, &Sel::default(), &o, &out.stdout)?;
        // something nobody knows converts nothing
        let out = env.run(&["bal", "-f", &f, "-X", "nowhere"]);
        must_ok("bal", &out)?;
        check_bal(&l, &Sel::default(), &BalOpts::default(), &out.stdout)
    })
}
fn c08_exact(ch: &mut Ch) -> Option<Case> {
    let p1 = ch.of(&["3", "7", "0.333333333333333333", "1234567.89", "0.00001", "9007199254740993"]);
    let p2 = ch.of(&["3", "0.1", "11"]);
    let q = ch.of(&SIZES);
    let d1 = ch.flag();
    let d2 = ch.flag();
    let j = vec![
        if d1 { price(D[0], "AAA", p1, "BBB") } else { price(D[0], "BBB", p1, "AAA") },
        if d2 { price(D[1], "BBB", p2, "CCC") } else { price(D[1], "CCC", p2, "BBB") },
        Item::Txn(tx(
            D[2],
            "x",
            vec![po("A:1", q, "AAA"), po("A:2", q, "BBB"), po("A:3", q, "CCC"), po("A:4", "0.01", "AAA"), el("Z")],
        )),
    ];
    x_case(j, two(&["AAA", "CCC"]))
}
fn c08_many(ch: &mut Ch) -> Option<Case> {
    // n quotes of a pair, the latest one anywhere in the file
    let n = 1 + ch.pick(ch.qt(25, 60));
    let at = ch.pick(n);
    let other = ch.flag();
    let mut j = vec![];
    for i in 0..n {
        let d = if i == at { day(300) } else { day((i * 7 % 50) as u32) };
        // distinct values
        let v = format!("{}.5", i + 1);
        j.push(if i % 3 == 1 { price(d, "BBB", &v, "AAA") } else { price(d, "AAA", &v, "BBB") });
        if other {
            j.push(price(d, "CCC", &format!("{}", i + 2), "BBB"));
        }
    }
    j.push(Item::Txn(holdings(&["AAA", "BBB", "CCC"])));
    x_case(j, two(&["AAA", "BBB", "CCC"]))
}
fn c08_zero(ch: &mut Ch) -> Option<Case> {
    // balances that cancel only once converted, or only before
    let j = vec![
        price(D[0], "AAA", "2", "BBB"),
        Item::Txn(tx(
            D[2],
            "x",
            vec![
                po("A:1", ch.of(&["1", "-2", "0"]), "AAA"),
                po("A:1", ch.of(&["-2", "4", "1"]), "BBB"),
                po("A:2:3", ch.of(&["1", "-1"]), "AAA"),
                po("B", ch.of(&["1", "-2"]), "CCC"),
                el("Z"),
            ],
        )),
    ];
    x_case(
        j,
        vec![
            x("AAA"),
            x("BBB"),
            BalOpts { flat: true, ..x("BBB") },
            BalOpts { depth: Some(1), ..x("AAA") },
            BalOpts { flat: true, depth: Some(1), ..x("AAA") },
        ],
    )
}
fn c08_free(ch: &mut Ch) -> Option<Case> {
    // things that cost nothing, alone or on the way to another commodity
    let q = |ch: &mut Ch| ch.of(&["0", "2"]);
    let mut j = vec![];
    for (a, b) in [("AAA", "BBB"), ("BBB", "CCC"), ("AAA", "CCC")] {
        let k = ch.pick(3);
        if k > 0 {
            let (a, b) = if k == 1 { (a, b) } else { (b, a) };
            j.push(price(ch.of(&[D[0], D[1]]), a, q(ch), b));
        }
    }
    let free = ch.pick(4);
    j.push(Item::Txn(tx(
        D[2],
        "x",
        vec![po("A:1", "3", "AAA"), po("A:2", "5", "BBB"), po("B", "7", "CCC"), el("Z")],
    )));
    if free > 0 {
        let p = po("S", "4", "AAA");
        let p = match free {
            1 => p.at("0", "DDD"),
            2 => p.att("0", "DDD"),
            _ => p.at("0", "BBB"),
        };
        j.push(Item::Txn(tx(D[3], "gift", vec![p, po("W", "0", "DDD")])));
    }
    x_case(j, vec![x("AAA"), x("BBB"), x("CCC"), BalOpts { flat: true, ..x("DDD") }])
}

// ------------------------------------------------------------------ C09

pub fn c09_spaces() -> Vec<Space> {
    vec![
        space("all amounts of three decimals", c09_round),
        space("digits and decimals", c09_digits),
        space("forms of the number", c09_forms),
        space("sums", c09_sums),
        space("products and quotients", c09_products),
        space("comparisons", c09_compare),
        space("repeated small amounts", c09_repeat),
        space("halves", c09_halves),
        space("commodities and signs", c09_commodities),
        space("converted amounts", c09_convert),
    ]
}
fn c09_round(ch: &mut Ch) -> Option<Case> {
    // sign i.ddd, fifty amounts per journal, one account each
    let sign = ch.flag();
    let base = ch.of(&["0", "1", "9", "99", "1999"]);
    let block = ch.pick(20);
    let mut posts = vec![];
    for i in 0..50 {
        let lit = format!("{}{}.{:03}", if sign { "-" } else { "" }, base, block * 50 + i);
        posts.push(po(&format!("A:{:02}", i), &lit, "EUR"));
    }
    posts.push(el("Z"));
    journal_case(txs(vec![tx(day(0), "x", posts)]), REG | FLAT)
}
fn c09_digits(ch: &mut Ch) -> Option<Case> {
    let n = ch.pick(ch.qt(45, 90));
    let d = ch.pick(ch.qt(45, 90));
    let pat = ch.of(&["9", "5", "10", "49", "123456789"]);
    let sign = ch.of(&["", "-"]);
    let i: String = if n == 0 { "0".into() } else { pat.chars().cycle().take(n).collect() };
    let f: String = pat.chars().cycle().take(d).collect();
    let lit = if d == 0 { format!("{}{}", sign, i) } else { format!("{}{}.{}", sign, i, f) };
    journal_case(
        txs(vec![tx(day(0), "x", vec![po("A", &lit, "EUR"), po("B", &lit, "EUR"), el("Z")])]),
        if ch.thorough() { REG | BAL } else { BAL },
    )
}
fn c09_forms(ch: &mut Ch) -> Option<Case> {
    let lits = ["1", "1.", "01", "001.10", "1.0", "1.000000", "-1", "-0.5", "0", "-0", "0.0", "100", "1000000", ".5", "-.5"];
    let lit = ch.of(&lits);
    let c = ch.of(&["EUR", "$", "€", "a b", "Ñ1", "%"]);
    let prefix = ch.flag();
    let sp = ch.flag();
    let mut a = am(lit, c);
    a.prefix = prefix;
    let full = a.text();
    let written = if prefix && sp { format!("{} {}", &full[..full.len() - lit.len()], lit) } else { full };
    let q = rat(lit.trim_end_matches('.'));
    let cc = c.to_string();
    let t = format!("2020-01-01 x\n    A  {}\n    Z\n", written);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let mut p = po("A", "0", &cc);
        p.amt = Some(am(&dec(&q), &cc));
        let j = txs(vec![tx(day(0), "x", vec![p, el("Z")])]);
        expect_file(env, &f, &ledger(&j, false), REG | BAL | LISTS, &[])
    })
}
fn c09_sums(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let c = ch.of(&SIZES);
    let s = ch.pick(4);
    let neg = |x: &str, n: bool| if n { dec(&-rat(x)) } else { x.to_string() };
    let b = neg(b, s & 1 == 1);
    let c = neg(c, s & 2 == 2);
    let total = rat(a) + rat(&b) + rat(&c);
    // displayed sum, and asserted to the last digit
    journal_case(
        txs(vec![
            tx(day(0), "x", vec![po("A", a, "EUR"), po("A", &b, "EUR"), el("Z")]),
            tx(day(1), "y", vec![po("A", &c, "EUR").eq(&dec(&total), "EUR"), el("Z:Z")]),
        ]),
        REG | BAL,
    )
}
fn c09_products(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let s = ch.of(&["", "-"]);
    let mode = ch.pick(3);
    let a = format!("{}{}", s, a);
    let j = match mode {
        0 => txs(vec![tx(day(0), "x", vec![po("A", &a, "STK").at(b, "EUR"), el("Z")])]),
        1 => txs(vec![tx(day(0), "x", vec![po("A", &a, "STK").att(b, "EUR"), el("Z")])]),
        _ => {
            let mut j = txs(vec![tx(day(0), "x", vec![po("A", &a, "EUR"), el("Z")])]);
            j.push(Item::Auto(Auto {
                text: "/A/".into(),
                pred: acc_re("A"),
                comments: vec![],
                posts: vec![
                    AutoPost { kind: Kind::Virt, acc: "M".into(), amt: AutoAmt::Mult(b.into()) },
                    AutoPost { kind: Kind::Virt, acc: "Q".into(), amt: AutoAmt::Expr(bin(Op::Div, E::Amount, E::Num(b.into()))) },
                ],
            }));
            j
        }
    };
    journal_case(j, REG | BAL | PRICES)
}
fn c09_compare(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let delta = ch.of(&["0", "0.004", "-0.004", "0.00000000000000000000000000000000001", "-0.00000000000000000000000000000000001"]);
    let s = ch.flag();
    let op = ch.of(&[Op::Eq, Op::Ne, Op::Lt, Op::Gt, Op::Le, Op::Ge]);
    let q = if s { -rat(a) } else { rat(a) };
    let money = ch.flag();
    let r = dec(&(q.clone() + rat(delta)));
    let e = bin(op, E::Amount, if money { E::Money(r, "EUR".into()) } else { E::Num(r) });
    let j = txs(vec![tx(day(0), "x", vec![po("A", &dec(&q), "EUR"), el("Z")])]);
    let sel = Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() };
    let t = text(&j);
    case(format!("{:?} {}", sel.query, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, None, true)
    })
}
fn c09_repeat(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(60, 200));
    let a = ch.of(&["0.004", "0.005", "0.1", "-0.0049", "0.3333333333333333", "1.995"]);
    let each = ch.flag();
    let v = (0..n)
        .map(|i| tx(day(i as u32 % 28), "x", vec![po(&if each { format!("A:{}", i % 5) } else { "A".into() }, a, "EUR"), el("Z")]))
        .collect();
    journal_case(txs(v), REG | BAL)
}
fn c09_halves(ch: &mut Ch) -> Option<Case> {
    // i.dd4999…, i.dd5, i.dd5000…1 around every digit
    let i = ch.of(&["0", "1", "9", "19", "99", "999999999999999999999"]);
    let d = ch.of(&["00", "01", "04", "05", "09", "49", "50", "89", "90", "94", "95", "98", "99"]);
    let tail = ch.of(&["5", "49999999999999999999", "50000000000000000001", "4", "6", "45", "55", "499", "500"]);
    let s = ch.of(&["", "-"]);
    let lit = format!("{}{}.{}{}", s, i, d, tail);
    journal_case(txs(vec![tx(day(0), "x", vec![po("A", &lit, "EUR"), el("Z")])]), REG | BAL)
}
fn c09_commodities(ch: &mut Ch) -> Option<Case> {
    let coms = ["EUR", "$", "€", "Two words", "日本", "x1"];
    let mut posts = vec![];
    for c in &coms[..ch.qt(4, 5)] {
        let q = ch.of(&["0.005", "-0.004", "-1234567.895", "0", "99.999"]);
        posts.push(po("A", q, c));
    }
    posts.push(el("Z"));
    journal_case(txs(vec![tx(day(0), "x", posts)]), REG | BAL)
}
fn c09_convert(ch: &mut Ch) -> Option<Case> {
    let q = ch.of(&SIZES);
    let p = ch.of(&["3", "0.07", "1.005", "123456789.123456789"]);
    let n = ch.of(&[1usize, 2, 3, 10]);
    let mut j = vec![price(D[0], "AAA", p, "BBB")];
    for i in 0..n {
        j.push(Item::Txn(tx(day(i as u32), "x", vec![po(&format!("A:{}", i % 2), q, "AAA"), po("B", "0.005", "BBB"), el("Z")])));
    }
    x_case(j, two(&["AAA", "BBB"]))
}

// ------------------------------------------------------------------ C17

fn c17_names(ch: &mut Ch) -> Option<Case> {
    let mut j: Journal = vec![];
    // each: absent, declared, used, both, used through an alias
    let k = ch.pick(5);
    if k == 1 || k == 3 || k == 4 {
        j.push(Item::Account { name: "Assets:Bank".into(), aliases: vec!["bk".into()], payees: vec![], extra: vec![] });
    }
    let acc = match k {
        2 | 3 => Some("Assets:Bank"),
        4 => Some("bk"),
        _ => None,
    };
    let k = ch.pick(5);
    if k == 1 || k == 3 || k == 4 {
        j.push(Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] });
    }
    let com = match k {
        2 | 3 => "EUR",
        4 => "€",
        _ => "USD",
    };
    let k = ch.pick(5);
    if k == 1 || k == 3 || k == 4 {
        j.push(Item::Payee { name: "The Shop".into(), aliases: vec!["^shop \\d+$".into()] });
    }
    let pay = match k {
        2 | 3 => "The Shop",
        4 => "shop 12",
        _ => "someone",
    };
    let mut posts = vec![po("Other", "1", com)];
    if let Some(a) = acc {
        posts.push(po(a, "2", com));
    }
    posts.push(el("Z"));
    j.push(Item::Txn(tx(day(0), pay, posts)));
    if ch.flag() {
        j.reverse();
    }
    journal_case(j, LISTS)
}
fn c17_sources(ch: &mut Ch) -> Option<Case> {
    // every place where a commodity or account may appear for the only time
    let mut j: Journal = vec![];
    if ch.flag() {
        j.push(price(day(0), "Pfrom", "2", "Pto"));
    }
    if ch.flag() {
        j.push(Item::Txn(tx(day(1), "a", vec![po("A", "1", "STK").at("2", "Cost"), el("B")])));
    }
    if ch.flag() {
        j.push(Item::Txn(tx(day(2), "b", vec![po("C", "1", "EUR").eq("0", "Bal"), el("D")])));
    }
    if ch.flag() {
        j.push(Item::Txn(tx(day(3), "c", vec![po("V", "1", "Virt").kind(Kind::Virt)])));
    }
    if ch.flag() {
        j.push(Item::Txn(tx(day(4), "d", vec![po("W", "1", "Br").kind(Kind::Brac), po("W:X", "-1", "Br").kind(Kind::Brac)])));
    }
    if ch.flag() {
        j.push(Item::Txn(tx(day(5), "e", vec![po("Zero", "0", "None"), po("Y", "3", "EUR").att("6", "Tot"), el("Z")])));
    }
    if ch.flag() {
        j.push(Item::Account { name: "Only:Declared".into(), aliases: vec!["od".into()], payees: vec![], extra: vec!["note something".into()] });
        j.push(Item::Commodity { name: "Only".into(), aliases: vec![], extra: vec!["note text".into()] });
        j.push(Item::Payee { name: "Only payee".into(), aliases: vec![] });
    }
    journal_case(j, LISTS | PRICES)
}
fn c17_prices(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let mut j: Journal = vec![];
    for i in 0..n {
        let d = D[ch.pick(3)];
        j.push(match ch.pick(8) {
            0 => price(d, "AAA", "1.255", "EUR"),
            1 => price(d, "BBB", "0.001", "AAA"),
            2 => Item::Txn(tx(d, "u", vec![po("A", "3", "STK").at("1.5", "EUR"), el("B")])),
            3 => Item::Txn(tx(d, "u", vec![po("A", "-3", "STK").at("1.5", "EUR"), el("B")])),
            4 => Item::Txn(tx(d, "t", vec![po("A", "3", "STK").att("10", "EUR"), el("B")])),
            5 => Item::Txn(tx(d, "t", vec![po("A", "-3", "STK").att("10", "EUR"), el("B")])),
            6 => Item::Txn(tx(d, "v", vec![po("A", "2", "STK").att("1", "EUR").kind(Kind::Virt), po("C", "-4", "STK").at("2", "USD"), el("B")])),
            _ => Item::Txn(tx(d, &format!("n{}", i), vec![po("A", "2", "EUR"), el("B")])),
        });
    }
    journal_case(j, PRICES)
}
fn c17_implied(ch: &mut Ch) -> Option<Case> {
    let c = ["EUR", "USD", "GBP"];
    let mut posts = vec![];
    for x in c {
        match ch.pick(6) {
            0 => {}
            1 => posts.push(po("A", "10", x)),
            2 => posts.push(po("B", "-4", x)),
            3 => {
                posts.push(po("A", "10", x));
                posts.push(po("B", "-7", x));
            }
            4 => {
                posts.push(po("A", "10", x));
                posts.push(po("B", "-10", x));
            }
            _ => posts.push(po("A", "5", x).at("2", "EUR")),
        }
    }
    if posts.is_empty() {
        return None;
    }
    match ch.pick(3) {
        0 => {}
        1 => posts.push(el("Z")),
        _ => posts.push(po("V", "1", "XXX").kind(Kind::Virt)),
    }
    let mut v = vec![tx(day(3), "x", posts)];
    if ch.flag() {
        v.push(tx(day(0), "y", vec![po("A", "2", "AAA"), po("B", "-1", "BBB")]));
    }
    journal_case(txs(v), PRICES)
}
fn c17_order(ch: &mut Ch) -> Option<Case> {
    // names whose order is delicate, in every order of appearance
    let pools: [&[&str]; 5] = [
        &["A", "A:B", "A B", "AB"],
        &["a", "B", "c", "D"],
        &["Zz", "zA", "é", "E"],
        &["X:10", "X:9", "X:1", "X"],
        &["日本", "Ñ", "N", "n:o"],
    ];
    let p = ch.of(&pools);
    let perm = ch.perm(4);
    let kind = ch.pick(3);
    let mut v = vec![];
    for i in perm {
        let n = p[i];
        v.push(match kind {
            0 => tx(day(0), "x", vec![po(n, "1", "EUR"), el("Z")]),
            1 => tx(day(0), n, vec![po("A", "1", "EUR"), el("Z")]),
            _ => tx(day(0), "x", vec![po("A", "1", n), el("Z")]),
        });
    }
    journal_case(txs(v), LISTS)
}
fn c17_payees(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(3);
    let mut j: Journal = vec![];
    if ch.flag() {
        j.push(Item::Payee { name: "Market".into(), aliases: vec!["^mkt".into(), "corner shop".into()] });
    }
    for i in 0..n {
        let (d, p) = ch.of(&[
            ("one", None),
            ("two", None),
            ("mkt 12", None),
            ("the corner shop", None),
            ("desc", Some("mkt 7")),
            ("desc", Some("Real payee")),
            ("market", None),
            ("", None),
        ]);
        let mut t = tx(day(i as u32), d, vec![po("A", "1", "EUR"), el("B")]);
        if let Some(p) = p {
            t = t.payee(p);
        }
        j.push(Item::Txn(t));
    }
    journal_case(j, LISTS)
}
fn c17_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(60, 150));
    let mode = ch.pick(3);
    let v = (0..n)
        .map(|i| {
            let (a, p, c) = match mode {
                0 => (format!("A:{}", i), format!("p{}", i), format!("C{}", (b'a' + (i % 26) as u8) as char)),
                1 => (format!("A:{}", i % 7), format!("p{}", i % 5), "EUR".to_string()),
                _ => (format!("A{}", ":x".repeat(i % 12)), "p".repeat(i % 40 + 1), "c".repeat(i % 10 + 1)),
            };
            let post = po(&a, "2", &c);
            let post = if i % 3 == 0 && c != "BASE" { post.at(&format!("{}.125", i), "BASE") } else { post };
            tx(day((i * 11 % 60) as u32), &p, vec![post, el("Z")])
        })
        .collect();
    journal_case(txs(v), LISTS | PRICES)
}
fn c17_auto(ch: &mut Ch) -> Option<Case> {
    let mut j = txs(vec![
        tx(day(0), "x", vec![po("A", "3", "STK").at("2", "EUR"), el("B")]),
        tx(day(1), "y", vec![po("A", "3", "AAA"), po("B", "-6", "BBB")]),
    ]);
    let (w, e) = ch.of(&[("/A/", acc_re("A")), ("/B/", acc_re("B"))]);
    let kind = ch.of(&[Kind::Virt, Kind::Real]);
    let amt = ch.of(&[AutoAmt::Mult("2".into()), AutoAmt::Fixed(am("1", "NEW")), AutoAmt::Expr(E::Neg(Box::new(E::Amount)))]);
    let opp = match &amt {
        AutoAmt::Mult(_) => AutoAmt::Mult("-2".into()),
        AutoAmt::Fixed(_) => AutoAmt::Fixed(am("-1", "NEW")),
        AutoAmt::Written(..) => unreachable!(),
        AutoAmt::Expr(_) => AutoAmt::Expr(E::Amount),
    };
    let mut posts = vec![AutoPost { kind, acc: "Auto:T".into(), amt }];
    if kind == Kind::Real {
        posts.push(AutoPost { kind, acc: "Auto:U".into(), amt: opp });
    }
    let times = 1 + ch.pick(2);
    for _ in 0..times {
        j.push(Item::Auto(Auto { text: w.into(), pred: e.clone(), comments: vec![], posts: posts.clone() }));
    }
    journal_case(j, LISTS | PRICES)
}

// ------------------------------------------------------------------ C20

const YEARS: [i32; 8] = [2020, 2019, 2000, 1900, 2100, 2024, 1999, 2023];
fn c20_journal(ch: &mut Ch) -> Option<Case> {
    let y = YEARS[ch.pick(ch.qt(5, 8))];
    let m = ch.pick(14) as u32;
    let d = ch.pick(33) as u32;
    let sep = ch.of(&['-', '/', '.']);
    let pad = ch.flag();
    let date = if pad {
        format!("{}{}{:02}{}{:02}", y, sep, m, sep, d)
    } else {
        format!("{}{}{}{}{}", y, sep, m, sep, d)
    };
    let t = format!("{} x\n    A  1 EUR\n    B\n", date);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        if valid((y, m, d)) {
            let j = txs(vec![tx((y, m, d), "x", vec![po("A", "1", "EUR"), el("B")])]);
            expect_file(env, &f, &ledger(&j, false), REG, &[])
        } else {
            expect_rejected(env, &f, REG, "the date does not exist", &[])
        }
    })
}
fn c20_price(ch: &mut Ch) -> Option<Case> {
    let y = YEARS[ch.pick(ch.qt(4, 8))];
    let m = ch.pick(14) as u32;
    let d = ch.pick(33) as u32;
    let sep = ch.of(&["-", "/"]);
    let t = format!("P {}{}{:02}{}{:02} AAA 2 EUR\n", y, sep, m, sep, d);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        if valid((y, m, d)) {
            expect_file(env, &f, &ledger(&vec![price((y, m, d), "AAA", "2", "EUR")], false), PRICES, &[])
        } else {
            expect_rejected(env, &f, PRICES, "the date does not exist", &[])
        }
    })
}
/// transactions around a date
fn around(y: i32) -> Journal {
    let mut v = vec![];
    for (i, d) in [
        (y - 1, 12, 31),
        (y, 1, 1),
        (y, 1, 31),
        (y, 2, 28),
        (y, 2, 29),
        (y, 3, 1),
        (y, 4, 30),
        (y, 6, 15),
        (y, 9, 9),
        (y, 10, 10),
        (y, 12, 31),
        (y + 1, 1, 1),
    ]
    .into_iter()
    .enumerate()
    {
        if valid(d) {
            v.push(tx(d, &format!("t{}", i), vec![po("A", &format!("{}", i + 1), "EUR").kind(Kind::Virt)]));
        }
    }
    txs(v)
}
fn c20_cli(ch: &mut Ch) -> Option<Case> {
    let y = YEARS[ch.pick(ch.qt(3, 8))];
    let m = ch.pick(14) as u32;
    let d = ch.pick(33) as u32;
    let end = ch.flag();
    let form = ch.pick(3);
    let s = match form {
        0 => format!("{}-{:02}-{:02}", y, m, d),
        1 => format!("{}/{:02}/{:02}", y, m, d),
        _ => format!("{}-{}-{}", y, m, d),
    };
    let opt = if end { "-e" } else { "-b" };
    let j = around(y);
    let t = text(&j);
    case(format!("{} {} {}", opt, s, y), move |env| {
        let f = env.write("j.ledger", &t);
        let o = env.run(&["reg", "-f", &f, opt, &s]);
        if !valid((y, m, d)) {
            if !o.refused() {
                return Err(format!("{} {} is accepted", opt, s));
            }
            return no_figures("reg", &o);
        }
        must_ok("reg", &o)?;
        let sel = if end {
            Sel { end: Some((y, m, d)), ..Default::default() }
        } else {
            Sel { begin: Some((y, m, d)), ..Default::default() }
        };
        check_reg(&ledger(&j, false)?, &sel, &o.stdout)
    })
}
fn c20_month(ch: &mut Ch) -> Option<Case> {
    let y = YEARS[ch.pick(8)];
    let m = ch.pick(14) as u32;
    let sep = ch.of(&["-", "/"]);
    let pad = ch.flag();
    let opt = ch.of(&["-b", "-e", "--begin", "--end"]);
    let s = if pad { format!("{}{}{:02}", y, sep, m) } else { format!("{}{}{}", y, sep, m) };
    let j = around(y);
    let t = text(&j);
    case(format!("{} {} {}", opt, s, y), move |env| {
        let f = env.write("j.ledger", &t);
        let o = env.run(&["reg", "-f", &f, opt, &s]);
        if !valid((y, m, 1)) {
            if !o.refused() {
                return Err(format!("{} {} is accepted", opt, s));
            }
            return no_figures("reg", &o);
        }
        must_ok("reg", &o)?;
        let mut sel = Sel::default();
        if opt.contains("e") && !opt.contains("b") {
            sel.end = Some((y, m, 1));
        } else {
            sel.begin = Some((y, m, 1));
        }
        check_reg(&ledger(&j, false)?, &sel, &o.stdout)
    })
}
fn c20_years(ch: &mut Ch) -> Option<Case> {
    // 29 February and the ends of every year
    let y = if ch.thorough() { 1 + ch.pick(9998) as i32 } else { [1, 4, 99, 100, 400, 999, 1000][ch.pick(7)].max(1) + 0 };
    let which = ch.pick(3);
    let y = if !ch.thorough() && which == 2 { 1583 + ch.pick(600) as i32 } else { y };
    let d = match which {
        0 => (y, 1, 1),
        1 => (y, 12, 31),
        _ => (y, 2, 29),
    };
    let t = format!("{} x\n    A  1 EUR\n    B\n", ds(d));
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        if valid(d) {
            let j = txs(vec![tx(d, "x", vec![po("A", "1", "EUR"), el("B")])]);
            expect_file(env, &f, &ledger(&j, false), REG, &[])
        } else {
            expect_rejected(env, &f, REG, "the date does not exist", &[])
        }
    })
}
fn c20_pairs(ch: &mut Ch) -> Option<Case> {
    let ds_: [Date; 14] = [
        (1999, 12, 31),
        (2000, 1, 1),
        (2000, 2, 29),
        (2000, 3, 1),
        (2009, 9, 9),
        (2009, 10, 1),
        (2009, 12, 2),
        (2010, 1, 12),
        (2010, 2, 11),
        (2010, 11, 2),
        (2011, 1, 1),
        (999, 12, 31),
        (2020, 1, 10),
        (2020, 10, 1),
    ];
    let a = ch.of(&ds_);
    let b = ch.of(&ds_);
    let c = ch.of(&ds_);
    let how = ch.pick(3);
    let j = txs(vec![
        tx(a, "a", vec![po("A", "1", "EUR").kind(Kind::Virt)]),
        tx(b, "b", vec![po("A", "2", "EUR").kind(Kind::Virt)]),
    ]);
    let mut sel = Sel::default();
    match how {
        0 => sel.begin = Some(c),
        1 => sel.end = Some(c),
        _ => {
            let e = bin(Op::Gt, E::Date, E::ToDate(ds(c)));
            sel.query = vec!["expr".into(), e.text()];
            sel.pred = Some(e);
        }
    }
    let t = text(&j);
    case(format!("{:?} {}", sel.args(), t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, None, true)
    })
}
fn c20_todate(ch: &mut Ch) -> Option<Case> {
    let y = 2020;
    let m = 1 + ch.pick(12) as u32;
    let d = 1 + ch.pick(31) as u32;
    if !valid((y, m, d)) {
        return None;
    }
    let op = ch.of(&[Op::Lt, Op::Le, Op::Eq, Op::Ne, Op::Ge, Op::Gt]);
    let form = ch.pick(2);
    let s = if form == 0 { format!("{}/{}/{}", y, m, d) } else { ds((y, m, d)) };
    let e = bin(op, E::Date, E::ToDate(s));
    let sel = Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() };
    let j = around(y);
    let t = text(&j);
    case(format!("{:?}", sel.args()), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, None, true)
    })
}
fn c20_times(ch: &mut Ch) -> Option<Case> {
    let kind = ch.pick(3);
    let h = ch.pick(24);
    let mi = ch.of(&[0usize, 7, 30, 59]);
    let s = ch.of(&[0usize, 9, 59]);
    let part = ch.of(&["", ".5", ".0", ".123456789"]);
    let time = format!("{:02}:{:02}:{:02}{}", h, mi, s, part);
    let (t, j) = match kind {
        0 => (
            format!("2020-02-03 {} Shop\n    A  1 EUR\n    B\n", time),
            txs(vec![tx((2020, 2, 3), "Shop", vec![po("A", "1", "EUR"), el("B")])]),
        ),
        1 => (
            format!("P 2020-02-03 {} AAA 2 EUR\n", time),
            vec![price((2020, 2, 3), "AAA", "2", "EUR")],
        ),
        _ => (
            format!("2020-02-03=2020/12/{:02} * Shop\n    A  1 EUR\n    B\n", h + 1),
            txs(vec![tx((2020, 2, 3), "Shop", vec![po("A", "1", "EUR"), el("B")])]),
        ),
    };
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | PRICES, &[])
    })
}
/// Dates of the command line with something before or after: other dates, or none
fn c20_more(ch: &mut Ch) -> Option<Case> {
    let date = ch.of(&["2020-06-15", "2020/6/15", "2020-06", "2020/6", "2020-01-01", "2020/12/31"]);
    let (pre, post, digits) = ch.of(&[
        ("1", "", true),
        ("12", "", true),
        ("0", "", true),
        ("9", "", true),
        ("x", "", false),
        ("#", "", false),
        ("%", "", false),
        ("~", "", false),
        ("yy", "", false),
        ("[", "", false),
        ("", "x", false),
        ("", "_", false),
        ("", "/", false),
        ("", "-", false),
        ("", "#", false),
        ("x", "x", false),
        ("x ", "", false),
        ("", " x", false),
    ]);
    let s = format!("{}{}{}", pre, date, post);
    let place = ch.pick(5);
    let args: Vec<String> = match place {
        0 => vec!["-b".into(), s.clone()],
        1 => vec!["-e".into(), s.clone()],
        2 => vec![format!("--begin={}", s)],
        3 => vec![format!("--end={}", s)],
        _ => vec!["expr".into(), format!("date >= to_date('{}')", s)],
    };
    let j = around(2020);
    let t = text(&j);
    case(format!("{:?}", args), move |env| {
        let f = env.write("j.ledger", &t);
        let mut a = vec!["reg", "-f", &f];
        a.extend(args.iter().map(|x| x.as_str()));
        let o = env.exec(&a);
        if o.refused() {
            return no_figures("reg", &o);
        }
        if !digits {
            return Err(format!("{:?} is accepted as a date", s));
        }
        // a year of five digits or more, or the same one if it starts with zero
        let y = if pre == "0" { 2020 } else { 12020 };
        if y == 2020 {
            return Ok(());
        }
        let sel = if place == 1 || place == 3 { Sel { end: Some((y, 1, 1)), ..Default::default() } } else { Sel { begin: Some((y, 1, 1)), ..Default::default() } };
        check_reg(&ledger(&j, false)?, &sel, &o.stdout)
    })
}
fn c20_not(ch: &mut Ch) -> Option<Case> {
    let bad = [
        "2020-1", "2020", "2020-01-01-01", "20200101", "2020-01/01", "2020/01-01", "2020--01-01", "2020-01-", "2020-001-01", "2020-01-001",
        "2020-01-01 24:00:00", "2020-01-01 23:60:00", "2020-01-01 10:75:00", "2020-01-01 10:00:60", "2020-01-01 10:00", "2020-01-01 10:00:000", "2020-01-01 1:00:00", "2020-01-01T10:00:00",
        "300000-01-01", "2020-1a-01", "2020-01-1a", "2020 01 01", "2020-01-32", "2020-00-10", "2020-10-00", "2020-02-30", "2021-02-29", "2020-04-31",
    ];
    let s = ch.of(&bad);
    let kind = ch.pick(2);
    // in a transaction, what is not a time is its description
    if kind == 0 && s.contains(' ') && s.contains(':') {
        return None;
    }
    let t = match kind {
        0 => format!("{} x\n    A  1 EUR\n    B\n", s),
        _ => format!("P {} AAA 2 EUR\n", s),
    };
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_rejected(env, &f, CHECK | REG | PRICES, "that is not a date", &[])
    })
}
