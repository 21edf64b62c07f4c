//! C04, C05, C06: balance report, register, selection
use super::balancing::{dec, SIZES};
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            spaces: vec![
                space("sets of accounts", c04_sets),
                space("amounts of a tree", c04_amounts),
                space("chains and forests", c04_forest),
                space("several commodities per account", c04_commodities),
                space("exact sums", c04_exact),
                space("many accounts and postings", c04_many),
                space("selected postings only", c04_selected),
                space("virtual postings", c04_virtual),
                deep("larger sets of accounts", c04_sets_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C05",
            spaces: vec![
                space("dates and order of the transactions", c05_dates),
                space("order and kinds of postings", c05_posts),
                space("running totals", c05_totals),
                space("many transactions on few dates", c05_many),
                space("many rows", c05_rows),
                space("descriptions, codes and marks", c05_desc),
                space("account names", c05_accounts),
                space("last total and balance report", c05_last),
                space("sizes", c05_sizes),
                deep("longer running totals", c05_totals_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C06",
            spaces: vec![
                space("dates and boundaries", c06_dates),
                space("one term", c06_one),
                space("two and three terms", c06_terms),
                space("expressions in queries", c06_expr),
                space("dates, --real and query together", c06_mixed),
                space("words that look special", c06_words),
                space("terms that are almost the same", c06_close),
                space("regular expressions of every syntax", c06_regexes),
                space("amounts of what remains", c06_amounts),
                space("long queries", c06_long),
                deep("four and five terms", c06_terms_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

fn all_opts() -> Vec<BalOpts> {
    let mut v = vec![];
    for flat in [false, true] {
        for depth in [None, Some(1), Some(2), Some(3)] {
            v.push(BalOpts { flat, depth, no_total: false, x: None });
        }
    }
    v.push(BalOpts { no_total: true, ..Default::default() });
    v.push(BalOpts { flat: true, no_total: true, ..Default::default() });
    v.push(BalOpts { flat: true, depth: Some(1), no_total: true, x: None });
    v.push(BalOpts { depth: Some(9), ..Default::default() });
    v
}
fn bal_case(j: Journal, sel: Sel, opts: Vec<BalOpts>, reg: bool) -> Option<Case> {
    let t = text(&j);
    case(format!("{:?} {}", sel.query, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        for o in &opts {
            expect_reports(env, &f, &l, &sel, Some(o), false)?;
        }
        if reg {
            expect_reports(env, &f, &l, &sel, None, true)?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C04

const POOL: [&str; 14] = [
    "A",
    "A:B",
    "A:B:C",
    "A:BC",
    "A:B C",
    "AB",
    "A B:C",
    "B",
    "A:B:D",
    "Ár:Bé:日本",
    "A:B:C:D:E",
    "a-1:b.2",
    "A:C:B",
    "Z:A:B",
];
fn sets(ch: &mut Ch, k: usize, vals: &[(&str, &str)]) -> Journal {
    let mut accs = vec![];
    let mut from = 0;
    for i in 0..k {
        let left = k - 1 - i;
        let n = POOL.len() - from - left;
        let x = from + ch.pick(n);
        accs.push(POOL[x]);
        from = x + 1;
    }
    let mut posts = vec![];
    for a in accs {
        let (q, c) = ch.of(vals);
        posts.push(po(a, q, c));
    }
    txs(vec![tx(day(0), "x", {
        posts.push(el("Eq"));
        posts
    })])
}
fn c04_sets(ch: &mut Ch) -> Option<Case> {
    let k = 1 + ch.pick(3);
    let vals: &[(&str, &str)] = match k {
        1 | 2 => &[("1", "EUR"), ("-1", "EUR"), ("0", "EUR"), ("2", "USD")],
        _ => &[("1", "EUR"), ("-1", "EUR")],
    };
    let j = sets(ch, k, vals);
    bal_case(j, Sel::default(), if k < 3 || ch.thorough() { all_opts() } else { all_opts()[..8].to_vec() }, false)
}
fn c04_sets_deep(ch: &mut Ch) -> Option<Case> {
    let k = 4 + ch.pick(2);
    let j = sets(ch, k, &[("1", "EUR"), ("-1", "EUR")]);
    bal_case(j, Sel::default(), all_opts(), false)
}
/// a fixed tree of accounts, all the combinations of amounts
fn c04_amounts(ch: &mut Ch) -> Option<Case> {
    let trees: [&[&str]; 4] = [
        &["A", "A:B", "A:B:C", "A:D"],
        &["A:B:C", "A:B:D", "A:E:F", "G"],
        &["A", "A:B:C:D", "A:B:C", "AB:C"],
        &["A:B", "A:B:C", "C:B", "C:B:C"],
    ];
    let t = ch.of(&trees);
    let mut posts = vec![];
    for a in t {
        match ch.pick(5) {
            0 => {}
            1 => posts.push(po(a, "1", "EUR")),
            2 => posts.push(po(a, "-1", "EUR")),
            3 => posts.push(po(a, "0.5", "USD")),
            _ => {
                posts.push(po(a, "1", "EUR"));
                posts.push(po(a, "-2", "USD"));
            }
        }
    }
    if posts.is_empty() {
        return None;
    }
    posts.push(el("Eq:Open"));
    bal_case(txs(vec![tx(day(0), "x", posts)]), Sel::default(), all_opts(), false)
}
fn c04_forest(ch: &mut Ch) -> Option<Case> {
    // a chain of n levels with a posting at chosen levels, and a second branch at some level
    let n = 1 + ch.pick(7);
    let own = ch.pick(1 << n.min(5));
    let branch = ch.pick(n + 1);
    let sign = ch.of(&["3", "-1"]);
    let mut posts = vec![];
    let mut name = String::new();
    let mut names = vec![];
    for i in 0..n {
        if i > 0 {
            name.push(':');
        }
        name.push_str(["Assets", "Bank", "X y", "D", "E", "F", "G"][i]);
        names.push(name.clone());
        if own >> i & 1 == 1 {
            posts.push(po(&name, if i % 2 == 0 { "1" } else { sign }, "EUR"));
        }
    }
    if branch < n {
        posts.push(po(&format!("{}:other", names[branch]), sign, "EUR"));
        posts.push(po(&format!("{}:other:two", names[branch]), "1", "EUR"));
    }
    if posts.is_empty() {
        return None;
    }
    posts.push(el("Eq"));
    let opts = (0..=n + 1)
        .flat_map(|d| {
            [false, true].map(|flat| BalOpts {
                flat,
                depth: if d == 0 { None } else { Some(d) },
                no_total: false,
                x: None,
            })
        })
        .collect();
    bal_case(txs(vec![tx(day(0), "x", posts)]), Sel::default(), opts, false)
}
fn c04_commodities(ch: &mut Ch) -> Option<Case> {
    // four commodities with amounts in parent, child and sibling
    let coms = ["EUR", "$", "GBP", "USD"];
    let mut posts = vec![];
    for c in coms {
        match ch.pick(6) {
            0 => {}
            1 => posts.push(po("A", "1.50", c)),
            2 => posts.push(po("A:B", "-2", c)),
            3 => {
                posts.push(po("A", "2", c));
                posts.push(po("A:B", "-2", c));
            }
            4 => {
                posts.push(po("A:B", "2", c));
                posts.push(po("A:C", "-2", c));
            }
            _ => {
                posts.push(po("A:B", "0.004", c));
                posts.push(po("A:C", "0.004", c));
            }
        }
    }
    if posts.is_empty() {
        return None;
    }
    if ch.flag() {
        posts.push(po("D:E", "1", "EUR"));
    }
    posts.push(el("Eq"));
    bal_case(txs(vec![tx(day(0), "x", posts)]), Sel::default(), all_opts()[..7].to_vec(), false)
}
fn c04_exact(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let times = ch.of(&[1usize, 3, 10]);
    let mode = ch.pick(3);
    let mut v = vec![];
    for i in 0..times {
        v.push(tx(day(i as u32), "x", vec![po("A:B", a, "EUR"), el("Z")]));
        v.push(tx(day(i as u32), "y", vec![po("A:C", &dec(&-rat(b)), "EUR"), el("Z")]));
    }
    match mode {
        0 => {}
        // cancels exactly
        1 => v.push(tx(
            day(99),
            "z",
            vec![po("A:B", &dec(&(-rat(a) * int(times as i64))), "EUR"), el("Z")],
        )),
        // all but a tiny rest
        _ => v.push(tx(
            day(99),
            "z",
            vec![
                po("A:B", &dec(&(-rat(a) * int(times as i64) + rat("0.0000001"))), "EUR"),
                el("Z"),
            ],
        )),
    }
    bal_case(txs(v), Sel::default(), all_opts()[..6].to_vec(), false)
}
fn c04_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(60, 200));
    let shape = ch.pick(4);
    let mut v = vec![];
    for i in 0..n {
        let acc = match shape {
            0 => format!("Acc {}", i),
            1 => format!("T:{}:{}", i % 5, i),
            2 => format!("T{}:{}:x{}", i % 3, i % 4, i % 7),
            _ => format!("A{}", ":b".repeat(i % 9)),
        };
        let q = rat(&format!("{}.{:02}", i * 31 % 17, i % 100)) * int(if i % 3 == 0 { -1 } else { 1 });
        v.push(tx(
            day((i * 5 % 23) as u32),
            "x",
            vec![po(&acc, &dec(&q), ["EUR", "USD", "$"][i % 3]), el(&format!("Z:{}", i % 2))],
        ));
    }
    bal_case(txs(v), Sel::default(), all_opts()[..9].to_vec(), false)
}
fn c04_selected(ch: &mut Ch) -> Option<Case> {
    let mut v = vec![];
    let a = ch.of(&["A:B", "A", "B:A"]);
    let b = ch.of(&["A:C", "A:B:C", "B"]);
    v.push(tx(day(0), "one", vec![po(a, "1", "EUR"), po(b, "2", "USD"), el("Z:Y")]));
    v.push(tx(day(1), "two", vec![po(a, "-1", "EUR"), po(b, "5.555", "USD"), el("Z")]));
    v.push(tx(day(2), "three", vec![po(a, "7", "EUR"), po("V:W", "9", "EUR").kind(Kind::Virt), el("Z")]));
    let mut sel = Sel::default();
    match ch.pick(8) {
        0 => {}
        1 => sel.begin = Some(day(1)),
        2 => sel.end = Some(day(2)),
        3 => {
            sel.begin = Some(day(1));
            sel.end = Some(day(2))
        }
        4 => sel.real = true,
        5 => {
            sel.query = vec!["^a".into()];
            sel.pred = Some(acc_re("(?i)^a"));
        }
        6 => {
            sel.query = vec!["@two".into()];
            sel.pred = Some(bin(Op::Match, E::Payee, E::Re("two".into())));
        }
        _ => {
            sel.query = vec![":".into()];
            sel.pred = Some(acc_re(":"));
        }
    }
    bal_case(txs(v), sel, all_opts(), false)
}
fn c04_virtual(ch: &mut Ch) -> Option<Case> {
    let mut posts = vec![po("A", "1", "EUR"), po("A:B", "2", "EUR")];
    for acc in ["A", "A:B", "V:A"] {
        match ch.pick(4) {
            0 => {}
            1 => posts.push(po(acc, "5", "EUR").kind(Kind::Virt)),
            2 => posts.push(po(acc, "-3", "EUR").kind(Kind::Virt)),
            _ => {
                posts.push(po(acc, "4", "EUR").kind(Kind::Brac));
                posts.push(po("B", "-4", "EUR").kind(Kind::Brac));
            }
        }
    }
    let elide = ch.flag();
    posts.push(if elide { el("Z") } else { po("Z", "-3", "EUR") });
    let sel = Sel { real: ch.flag(), ..Default::default() };
    bal_case(txs(vec![tx(day(0), "x", posts)]), sel, all_opts(), false)
}

// ------------------------------------------------------------------ C05

fn reg_case(j: Journal) -> Option<Case> {
    journal_case(j, REG | BAL)
}
fn c05_dates(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(4, 5));
    let dates: [Date; 5] = [(2019, 12, 31), (2020, 1, 2), (2020, 1, 10), (2020, 2, 1), (2021, 1, 1)];
    let k = if n <= 3 { 5 } else { 4 };
    let mut v = vec![];
    for i in 0..n {
        let d = dates[ch.pick(k)];
        v.push(tx(
            d,
            &format!("t{}", i),
            vec![po("A", &format!("{}", 1 << i), "EUR"), po("B", &format!("-{}", 1 << i), "EUR")],
        ));
    }
    journal_case(txs(v), REG)
}
fn c05_posts(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(4);
    let mut posts = vec![];
    let mut elided = false;
    for i in 0..n {
        // account names repeat
        let acc = ch.of(&["A", "B:C"]);
        match ch.pick(4) {
            0 => posts.push(po(acc, &format!("{}", i + 1), "EUR")),
            1 => posts.push(po(acc, &format!("-{}", i + 1), "USD")),
            2 => posts.push(po(acc, &format!("{}", i + 1), "EUR").kind(Kind::Virt)),
            _ => {
                if elided {
                    return None;
                }
                elided = true;
                posts.push(el(acc));
            }
        }
    }
    if !elided {
        posts.push(el("Z"));
    }
    journal_case(txs(vec![tx(day(3), "x", posts)]), REG)
}
fn totals(ch: &mut Ch, n: usize) -> Option<Case> {
    let alph: [(&str, &str); 5] = [("1", "EUR"), ("-1", "EUR"), ("2.5", "USD"), ("-2.5", "USD"), ("0", "EUR")];
    let per = 1 + ch.pick(2);
    let mut v: Vec<Txn> = vec![];
    let mut posts = vec![];
    for i in 0..n {
        let (q, c) = alph[ch.pick(alph.len())];
        posts.push(po("A", q, c).kind(Kind::Virt));
        if posts.len() == per || i + 1 == n {
            v.push(tx(day(v.len() as u32), "x", posts.split_off(0)));
        }
    }
    journal_case(txs(v), REG)
}
fn c05_totals(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(5);
    totals(ch, n)
}
fn c05_totals_deep(ch: &mut Ch) -> Option<Case> {
    totals(ch, 7)
}
fn c05_many(ch: &mut Ch) -> Option<Case> {
    // stability: many transactions that share few dates
    let n = 2 + ch.pick(ch.qt(70, 300));
    let pattern = ch.pick(6);
    let mut v = vec![];
    for i in 0..n {
        let d = match pattern {
            0 => 0,
            1 => i % 2,
            2 => (n - i) / 4,
            3 => (i * 7) % 5,
            4 => i / 10,
            _ => {
                if i == n / 2 {
                    0
                } else {
                    5
                }
            }
        };
        v.push(tx(
            day(d as u32),
            &format!("t{}", i),
            vec![po(&format!("A:{}", i % 4), &format!("{}", i + 1), "EUR"), el("B")],
        ));
    }
    reg_case(txs(v))
}
fn c05_rows(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(50, 150));
    let coms = 1 + ch.pick(4);
    let elide = ch.flag();
    let kind = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
    let mut posts = vec![];
    let mut sum = vec![int(0); coms];
    for i in 0..n {
        let q = rat(&format!("{}.{:02}", i * 13 % 29, i % 100)) * int(if i % 2 == 0 { -1 } else { 1 });
        sum[i % coms] += q.clone();
        posts.push(po(&format!("A:{}", i % 11), &dec(&q), ["EUR", "USD", "$", "GBP"][i % coms]).kind(kind));
    }
    if kind != Kind::Virt {
        if elide && kind == Kind::Real {
            posts.push(el("Z"));
        } else {
            for (i, s) in sum.iter().enumerate() {
                posts.push(po("Z", &dec(&-s.clone()), ["EUR", "USD", "$", "GBP"][i]).kind(kind));
            }
        }
    }
    reg_case(txs(vec![tx(day(0), "x", posts)]))
}
fn c05_desc(ch: &mut Ch) -> Option<Case> {
    let descs: Vec<String> = vec![
        "x".into(),
        "Two words".into(),
        "Café Ñandú 日本 €".into(),
        "with (parens) inside".into(),
        "ends with.".into(),
        "it's & co, 100% #1".into(),
        "p".repeat(37),
        "p".repeat(38),
        "p".repeat(39),
        "p".repeat(40),
        "ñ".repeat(19),
        "ñ".repeat(20),
        "ñ".repeat(25),
        "ñ".repeat(35),
        "ñ".repeat(45),
        "日本 ".repeat(8).trim_end().into(),
        "long name of a shop that does not fit in the column of the report at all".into(),
        "2020-01-01".into(),
        "=3".into(),
        "".into(),
    ];
    let d = ch.of(&descs);
    let mark = ch.of(&["", "*", "!", "* (code)", "(\"12\")", "! (\"a b\")"]);
    if mark.ends_with("(code)") {
        return None; // codes are quoted strings
    }
    let pay = ch.of(&[None, Some("Other payee"), Some("Ñ")]);
    let com = ch.flag();
    if d.is_empty() && !mark.is_empty() {
        return None;
    }
    let mk = |date: u32, posts: Vec<Post>| {
        let mut t = tx(day(date), &d, posts);
        t.mark = mark.to_string();
        if let Some(p) = pay {
            t = t.payee(p);
        }
        if com {
            t = t.hdr(" a comment");
        }
        t
    };
    let v = vec![
        mk(1, vec![po("A", "1", "EUR"), po("B", "-1", "EUR")]),
        mk(0, vec![po("A", "10", "EUR"), po("B", "-10", "EUR")]),
        tx(day(2), "last", vec![po("A", "100", "EUR"), el("B")]),
    ];
    journal_case(txs(v), REG)
}
fn c05_accounts(ch: &mut Ch) -> Option<Case> {
    let names: Vec<String> = vec![
        "A".into(),
        "Assets:Bank Account:Main".into(),
        "Activo:Caja de Ahorros:日本".into(),
        "Ñ:é".into(),
        "a/b:c&d#e".into(),
        "X1:2:3".into(),
        "A's:B".into(),
        "L".repeat(33),
        "L".repeat(34),
        "L".repeat(35),
        format!("Assets:{}", "deep:".repeat(12)) + "end",
        "é".repeat(34),
    ];
    let a = ch.of(&names);
    let b = ch.of(&names);
    let ka = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
    let q = ch.of(&["1", "-123456789012.345"]);
    let mut posts = vec![po(&a, q, "EUR").kind(ka)];
    if ka == Kind::Brac {
        posts.push(po(&b, &dec(&-rat(q)), "EUR").kind(ka));
    } else if ka == Kind::Real {
        posts.push(el(&b));
    }
    journal_case(txs(vec![tx(day(0), "x", posts)]), REG)
}
fn c05_last(ch: &mut Ch) -> Option<Case> {
    let mut v = vec![];
    for i in 0..3u32 {
        let posts = match ch.pick(4) {
            0 => vec![po("A", "1.1", "EUR"), el("B")],
            1 => vec![po("A", "2", "USD"), po("B", "-3", "EUR"), po("V", "0.5", "EUR").kind(Kind::Virt)],
            2 => vec![po("A:C", "-1.1", "EUR").kind(Kind::Brac), po("B", "1.1", "EUR").kind(Kind::Brac)],
            _ => vec![po("C", "3", "STK").at("2.25", "USD"), el("A")],
        };
        v.push(tx(day((i * 2) % 3), &format!("t{}", i), posts));
    }
    let mut sel = Sel { real: ch.flag(), ..Default::default() };
    match ch.pick(5) {
        0 => {}
        1 => sel.begin = Some(day(1)),
        2 => sel.end = Some(day(1)),
        3 => {
            sel.query = vec!["a".into()];
            sel.pred = Some(acc_re("(?i)a"));
        }
        _ => {
            sel.query = vec!["b".into(), "@t1".into()];
            sel.pred = Some(bin(Op::Or, acc_re("(?i)b"), bin(Op::Match, E::Payee, E::Re("t1".into()))));
        }
    }
    let j = txs(v);
    let t = text(&j);
    case(format!("{:?} {}", sel.args(), t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, Some(&BalOpts::default()), true)
    })
}
fn c05_sizes(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&SIZES);
    let b = ch.of(&SIZES);
    let s = ch.flag();
    let b = if s { dec(&-rat(b)) } else { b.to_string() };
    journal_case(
        txs(vec![
            tx(day(0), "x", vec![po("A", a, "EUR"), po("V", &b, "EUR").kind(Kind::Virt), el("Z")]),
            tx(day(1), "y", vec![po("A", &b, "EUR"), po("V", "1", "USD").kind(Kind::Virt), el("Z")]),
        ]),
        REG,
    )
}

// ------------------------------------------------------------------ C06

fn sample() -> Journal {
    txs(vec![
        tx(
            (2020, 1, 1),
            "Big Shop",
            vec![
                po("Expenses:Food", "10", "EUR").note(" :fun:"),
                po("Expenses:Rent", "20.555", "EUR").after(" Flat: north"),
                el("Assets:Cash"),
            ],
        ),
        tx(
            (2020, 1, 31),
            "Salary",
            vec![po("Assets:Bank", "100", "EUR"), po("Income:Job", "-100", "EUR")],
        )
        .hdr(" :work:"),
        tx(
            (2020, 2, 29),
            "shop two",
            vec![
                po("expenses food", "-3", "USD"),
                po("Assets:cash box", "3", "USD"),
                po("Budget:Food", "-3", "USD").kind(Kind::Virt),
                po("Save:Bank", "5", "EUR").kind(Kind::Brac),
                po("Budget:Bank", "-5", "EUR").kind(Kind::Brac),
            ],
        ),
        tx(
            (2020, 3, 1),
            "Ñu & Co",
            vec![po("Assets:Bank", "-7", "STK").at("2", "EUR"), el("Assets:Cash")],
        )
        .pre(" :fun:"),
    ])
}
/// query words and what they mean
fn terms() -> Vec<(&'static str, E)> {
    let pay = |s: &str| bin(Op::Match, E::Payee, E::Re(format!("(?i){}", s)));
    vec![
        ("food", acc_re("(?i)food")),
        ("CASH", acc_re("(?i)cash")),
        ("^assets:", acc_re("(?i)^assets:")),
        ("/Food/", acc_re("Food")),
        ("@shop", pay("shop")),
        ("%fun", E::HasTag("(?i)fun".into())),
        ("bank$", acc_re("(?i)bank$")),
        ("nothing", acc_re("(?i)nothing")),
    ]
}
fn more_terms() -> Vec<(&'static str, E)> {
    let pay = |s: &str| bin(Op::Match, E::Payee, E::Re(format!("(?i){}", s)));
    let mut v = terms();
    v.extend(vec![
        ("@^shop", pay("^shop")),
        ("@ñU", pay("ñU")),
        ("@& co$", pay("& co$")),
        ("%FLAT", E::HasTag("(?i)FLAT".into())),
        ("%^f", E::HasTag("(?i)^f".into())),
        ("%work", E::HasTag("(?i)work".into())),
        ("%o", E::HasTag("(?i)o".into())),
        ("/food$/", acc_re("food$")),
        ("/^Assets:C/", acc_re("^Assets:C")),
        ("//", acc_re("")),
        ("(bank|cash)$", acc_re("(?i)(bank|cash)$")),
        ("foo.", acc_re("(?i)foo.")),
        ("s:c", acc_re("(?i)s:c")),
        ("b.*k", acc_re("(?i)b.*k")),
        ("[jr]o", acc_re("(?i)[jr]o")),
        ("expenses food", acc_re("(?i)expenses food")),
        ("a", acc_re("(?i)a")),
        ("x|z", acc_re("(?i)x|z")),
        (":", acc_re("(?i):")),
        (".", acc_re("(?i).")),
    ]);
    v
}
fn sel_case(j: Journal, sel: Sel, bo: BalOpts) -> Option<Case> {
    let t = text(&j);
    case(format!("{:?} {:?} {}", sel.args(), bo.args(), t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        if sums(&l, &sel).is_none() {
            return Ok(());
        }
        expect_reports(env, &f, &l, &sel, Some(&bo), true)
    })
}
fn c06_dates(ch: &mut Ch) -> Option<Case> {
    let ds: Vec<Option<Date>> = vec![
        None,
        Some((2019, 12, 31)),
        Some((2020, 1, 1)),
        Some((2020, 1, 2)),
        Some((2020, 1, 31)),
        Some((2020, 2, 1)),
        Some((2020, 2, 29)),
        Some((2020, 3, 1)),
        Some((2020, 3, 2)),
        Some((2019, 6, 15)),
        Some((2021, 1, 1)),
    ];
    let b = ch.of(&ds);
    let e = ch.of(&ds);
    let real = ch.flag();
    sel_case(
        sample(),
        Sel { begin: b, end: e, real, ..Default::default() },
        BalOpts { flat: real, ..Default::default() },
    )
}
fn c06_one(ch: &mut Ch) -> Option<Case> {
    let (w, e) = ch.of(&more_terms());
    let mode = ch.pick(3);
    sel_case(
        sample(),
        Sel { query: vec![w.to_string()], pred: Some(e), ..Default::default() },
        match mode {
            0 => BalOpts::default(),
            1 => BalOpts { flat: true, ..Default::default() },
            _ => BalOpts { depth: Some(1), ..Default::default() },
        },
    )
}
/// joins with the precedence of the query language: and before or
fn join(terms: &[(String, E)], ands: &[bool]) -> E {
    let mut groups: Vec<E> = vec![terms[0].1.clone()];
    for (i, a) in ands.iter().enumerate() {
        let t = terms[i + 1].1.clone();
        if *a {
            let x = groups.pop().unwrap();
            groups.push(bin(Op::And, x, t));
        } else {
            groups.push(t);
        }
    }
    let mut it = groups.into_iter();
    let first = it.next().unwrap();
    it.fold(first, |a, b| bin(Op::Or, a, b))
}
fn query(ch: &mut Ch, n: usize, pool: &[(&'static str, E)]) -> Sel {
    let mut ts: Vec<(String, E)> = vec![];
    let mut ands = vec![];
    let mut words = vec![];
    for i in 0..n {
        if i > 0 {
            match ch.pick(3) {
                0 => ands.push(false),
                1 => {
                    words.push("or".to_string());
                    ands.push(false)
                }
                _ => {
                    words.push("and".to_string());
                    ands.push(true)
                }
            }
        }
        let (w, e) = ch.of(pool);
        words.push(w.to_string());
        ts.push((w.to_string(), e));
    }
    Sel { query: words, pred: Some(join(&ts, &ands)), ..Default::default() }
}
fn c06_terms(ch: &mut Ch) -> Option<Case> {
    let n = 2 + ch.pick(2);
    let sel = if n == 2 { query(ch, 2, &more_terms()) } else { query(ch, 3, &terms()) };
    sel_case(sample(), sel, BalOpts { flat: true, ..Default::default() })
}
fn c06_terms_deep(ch: &mut Ch) -> Option<Case> {
    let n = 4 + ch.pick(2);
    let t = terms();
    let pool: Vec<_> = if n == 4 { t[..6].to_vec() } else { vec![t[0].clone(), t[2].clone(), t[4].clone()] };
    let sel = query(ch, n, &pool);
    sel_case(sample(), sel, BalOpts { flat: true, ..Default::default() })
}
fn c06_expr(ch: &mut Ch) -> Option<Case> {
    // expr TERM mixed with plain terms
    let exprs: Vec<E> = vec![
        bin(Op::Gt, E::Amount, E::Num("5".into())),
        bin(Op::Lt, E::Amount, E::Num("0".into())),
        acc_re("Food"),
        bin(Op::Match, E::Payee, E::Re("hop".into())),
        bin(Op::And, acc_re("^Assets"), bin(Op::Ge, E::Amount, E::Num("3".into()))),
        bin(Op::Or, acc_re("Job"), acc_re("Rent")),
        E::Not(Box::new(acc_re("a")), false),
        bin(Op::Ge, E::Date, E::ToDate("2020/02/29".into())),
        E::HasTag("fun".into()),
        E::Any(Box::new(acc_re("Rent"))),
    ];
    let n = 1 + ch.pick(3);
    let mut ts = vec![];
    let mut ands = vec![];
    let mut words = vec![];
    let mut used = false;
    for i in 0..n {
        if i > 0 {
            let a = ch.flag();
            ands.push(a);
            if a {
                words.push("and".to_string());
            }
        }
        let plain = ch.flag();
        if plain {
            let pool = terms();
            let (w, e) = ch.of(if n == 3 { &pool[..3] } else { &pool[..] });
            words.push(w.to_string());
            ts.push((String::new(), e));
        } else {
            used = true;
            let e = ch.of(if n == 3 { &exprs[..5] } else { &exprs[..] });
            words.push("expr".to_string());
            words.push(e.text());
            ts.push((String::new(), e));
        }
    }
    if !used {
        return None;
    }
    let sel = Sel { query: words, pred: Some(join(&ts, &ands)), ..Default::default() };
    sel_case(sample(), sel, BalOpts { flat: true, ..Default::default() })
}
fn c06_mixed(ch: &mut Ch) -> Option<Case> {
    let b = ch.of(&[None, Some((2020, 1, 31)), Some((2020, 2, 29))]);
    let e = ch.of(&[None, Some((2020, 2, 29)), Some((2020, 3, 1))]);
    let real = ch.flag();
    let n = ch.pick(3);
    let mut sel = if n == 0 { Sel::default() } else { query(ch, n, &terms()[..6]) };
    sel.begin = b;
    sel.end = e;
    sel.real = real;
    let bo = match ch.pick(2) {
        0 => BalOpts::default(),
        _ => BalOpts { flat: true, depth: Some(1), no_total: false, x: None },
    };
    sel_case(sample(), sel, bo)
}
/// Two or three terms of nearly the same text
fn c06_close(ch: &mut Ch) -> Option<Case> {
    let pay = |x: &str| bin(Op::Match, E::Payee, E::Re(x.into()));
    let p: Vec<(&str, E)> = vec![
        ("Food", acc_re("(?i)Food")),
        ("food$", acc_re("(?i)food$")),
        ("^foo", acc_re("(?i)^foo")),
        ("/Food/", acc_re("Food")),
        ("/food/", acc_re("food")),
        ("/Foo/", acc_re("Foo")),
        ("/^Food$/", acc_re("^Food$")),
        ("@Food", pay("(?i)Food")),
        ("@^food", pay("(?i)^food")),
        ("%Food", E::HasTag("(?i)Food".into())),
        ("%^food$", E::HasTag("(?i)^food$".into())),
        ("expr payee=~/Food/", pay("Food")),
        ("expr payee =~ /food/", pay("food")),
        ("expr has_tag(/Food/)", E::HasTag("Food".into())),
        ("expr has_tag(/food/)", E::HasTag("food".into())),
        ("expr not(account=~/Food/)", E::Not(Box::new(acc_re("Food")), true)),
        ("expr any(account=~/Food/)", E::Any(Box::new(acc_re("Food")))),
    ];
    let n = 2 + ch.pick(ch.qt(1, 2));
    let mut ands = vec![];
    let mut words = vec![];
    let mut ts = vec![];
    for i in 0..n {
        if i > 0 {
            match ch.pick(3) {
                0 => ands.push(false),
                1 => {
                    ands.push(false);
                    words.push("or".to_string());
                }
                _ => {
                    ands.push(true);
                    words.push("and".to_string());
                }
            }
        }
        let (w, e) = ch.of(&p);
        match w.strip_prefix("expr ") {
            Some(x) => words.extend(vec!["expr".to_string(), x.to_string()]),
            None => words.push(w.to_string()),
        }
        ts.push((String::new(), e));
    }
    let j = txs(vec![
        tx(
            day(0),
            "Food and more",
            vec![po("Food", "10", "EUR"), po("food one", "1", "EUR").note(" :food:"), po("FOOD:Two", "100", "EUR").note(" :Food:"), po("Foo", "5", "EUR").note(" :food2:"), el("Cash")],
        ),
        tx(day(1), "fast food", vec![po("Food bar", "3", "EUR").note(" :Food:"), po("Cash", "-3", "EUR")]),
        tx(day(1), "x", vec![po("seafood", "11", "EUR").note(" :food:"), po("Cash", "-11", "EUR")]),
    ]);
    let sel = Sel { query: words, pred: Some(join(&ts, &ands)), ..Default::default() };
    sel_case(j, sel, BalOpts { flat: true, ..Default::default() })
}
fn c06_words(ch: &mut Ch) -> Option<Case> {
    // account, payee and tag names that contain the words of the query language
    let j = txs(vec![
        tx(
            day(0),
            "and",
            vec![
                po("Brand:or", "1", "EUR").note(" :or:"),
                po("expr", "2", "EUR").note(" :and:"),
                po("Or And", "3", "EUR"),
                po("payee:account", "4", "EUR"),
                el("not"),
            ],
        ),
        tx(day(1), "or expr", vec![po("amount", "5", "EUR"), el("date")]),
    ]);
    let pay = |s: &str| bin(Op::Match, E::Payee, E::Re(format!("(?i){}", s)));
    let pool: Vec<(&'static str, E)> = vec![
        ("@and", pay("and")),
        ("@or", pay("or")),
        ("%or", E::HasTag("(?i)or".into())),
        ("%and", E::HasTag("(?i)and".into())),
        ("^or", acc_re("(?i)^or")),
        ("brand", acc_re("(?i)brand")),
        ("Or And", acc_re("(?i)Or And")),
        ("OR", acc_re("(?i)OR")),
        ("AND", acc_re("(?i)AND")),
        ("not", acc_re("(?i)not")),
        ("account", acc_re("(?i)account")),
        ("amount", acc_re("(?i)amount")),
        ("ex", acc_re("(?i)ex")),
        ("e", acc_re("(?i)e")),
        ("1", acc_re("(?i)1")),
    ];
    let n = 1 + ch.pick(2);
    let sel = query(ch, n, &pool);
    sel_case(j, sel, BalOpts { flat: true, ..Default::default() })
}
fn c06_amounts(ch: &mut Ch) -> Option<Case> {
    // the filled, assigned, automated and priced amounts are the same when others are left out
    let v = vec![
        tx(day(0), "one", vec![po("A", "1", "EUR"), po("B", "2.25", "USD"), el("C")]),
        tx(day(1), "two", vec![el("A").eq("5", "EUR"), el("B")]),
        tx(day(2), "three", vec![po("A", "3", "STK").at("1.5", "EUR"), el("C")]),
        tx(day(3), "four", vec![po("A", "0", "EUR").eq("5", "EUR"), po("V", "1", "EUR").kind(Kind::Virt), el("B")]),
    ];
    let mut j = txs(v);
    if ch.flag() {
        j.push(Item::Auto(Auto {
            text: "/^A/".into(),
            pred: acc_re("^A"),
            comments: vec![],
            posts: vec![AutoPost { kind: Kind::Virt, acc: "T".into(), amt: AutoAmt::Mult("0.1".into()) }],
        }));
    }
    let mut sel = Sel { real: ch.flag(), ..Default::default() };
    sel.begin = ch.of(&[None, Some(day(1)), Some(day(2)), Some(day(3))]);
    sel.end = ch.of(&[None, Some(day(1)), Some(day(2)), Some(day(3))]);
    match ch.pick(5) {
        0 => {}
        1 => {
            sel.query = vec!["b".into()];
            sel.pred = Some(acc_re("(?i)b"));
        }
        2 => {
            sel.query = vec!["@two".into()];
            sel.pred = Some(bin(Op::Match, E::Payee, E::Re("two".into())));
        }
        3 => {
            sel.query = vec!["^[ct]".into()];
            sel.pred = Some(acc_re("(?i)^[ct]"));
        }
        _ => {
            sel.query = vec!["expr".into(), "amount > 1".into()];
            sel.pred = Some(bin(Op::Gt, E::Amount, E::Num("1".into())));
        }
    }
    sel_case(j, sel, BalOpts::default())
}
fn c06_long(ch: &mut Ch) -> Option<Case> {
    // n terms, and where it says
    let n = 2 + ch.pick(ch.qt(12, 30));
    let pat = ch.pick(5);
    let base = ["food", "cash", "@shop", "a", "%fun", "bank", "/Job/", "nothing"];
    let all = more_terms();
    let mut ts = vec![];
    let mut ands = vec![];
    let mut words: Vec<String> = vec![];
    for i in 0..n {
        if i > 0 {
            let a = match pat {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                3 => i % 3 == 0,
                _ => i + 1 == n,
            };
            ands.push(a);
            if a {
                words.push("and".into());
            } else if i % 4 == 1 {
                words.push("or".into());
            }
        }
        let w = base[if pat == 1 { [3, 5][i % 2] } else { i % base.len() }];
        words.push(w.into());
        let e = match all.iter().find(|x| x.0 == w) {
            Some(x) => x.1.clone(),
            None => match w {
                "cash" => acc_re("(?i)cash"),
                "bank" => acc_re("(?i)bank"),
                _ => acc_re("Job"),
            },
        };
        ts.push((w.to_string(), e));
    }
    let sel = Sel { query: words, pred: Some(join(&ts, &ands)), ..Default::default() };
    sel_case(sample(), sel, BalOpts { flat: true, ..Default::default() })
}

/// Terms with regular expressions of every syntax
fn c06_regexes(ch: &mut Ch) -> Option<Case> {
    let r = ch.of(&super::exprs::REGEXES);
    let i = format!("(?i){}", r);
    let (w, e) = match ch.pick(5) {
        // words of the query and options
        0 if r.is_empty() || r.starts_with('-') => return None,
        0 => (vec![r.to_string()], acc_re(&i)),
        1 => (vec![format!("/{}/", r)], acc_re(r)),
        2 => (vec![format!("@{}", r)], bin(Op::Match, E::Payee, E::Re(i))),
        3 => (vec![format!("%{}", r)], E::HasTag(i)),
        _ => (vec!["expr".into(), format!("account =~ /{}/", r)], acc_re(r)),
    };
    let (w, e) = match ch.pick(3) {
        0 => (w, e),
        1 => ([vec!["cash".to_string()], w].concat(), bin(Op::Or, acc_re("(?i)cash"), e)),
        _ => ([w, vec!["and".into(), "a".into()]].concat(), bin(Op::And, e, acc_re("(?i)a"))),
    };
    let sel = Sel { query: w, pred: Some(e), ..Default::default() };
    sel_case(super::exprs::regex_journal(), sel, BalOpts { flat: true, ..Default::default() })
}
