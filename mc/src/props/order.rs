//! C10, C11: hash order, order of the entries and their split in files
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            spaces: vec![
                space("sets of features", c10_features),
                space("many elements of one kind", c10_many),
                space("deep accounts", c10_deep_accounts),
                space("ambiguous names and patterns", c10_ambiguous),
                space("graphs of prices", c10_prices),
                space("exchanges and fills", c10_exchanges),
                space("includes and repeated directives", c10_includes),
                space("rejected journals", c10_rejected),
                deep("larger sets of features", c10_features_deep),
            ],
            assumptions: {
                let mut v = ASSUME.to_vec();
                v.push("the iteration order of the hash maps of std depends only on their keys' insertion history and on the seed handed out by getrandom; the enumerated seeds produce every order of the small maps that matters");
                v
            },
        },
        Prop {
            id: "C11",
            spaces: vec![
                space("permutations of transactions", c11_perm),
                space("permutations of directives and transactions", c11_directives),
                space("same dates keep their order", c11_same),
                space("splits into included files", c11_split),
                space("permutations and splits", c11_both),
                space("assertions across files", c11_assert),
                space("long journals, rotated, reversed and dealt into files", c11_long),
                space("prices and conversions", c11_prices),
                deep("more permutations", c11_perm_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

/// The same command lines with every seed
fn same_for_all_seeds(env: &mut Env, lines: &[Vec<String>], seeds: u64) -> R {
    for a in lines {
        let mut first: Option<Out> = None;
        for s in 1..=seeds {
            env.seed = s * 7919;
            let o = env.run(a);
            match &first {
                None => first = Some(o),
                Some(f) => {
                    if f.status != o.status {
                        return Err(format!("{} ends with {:?} and with {:?}", a.join(" "), f.status, o.status));
                    }
                    if f.stdout != o.stdout {
                        return Err(format!(
                            "{} prints different things with different hash seeds:\n{}\n--- and\n{}",
                            a.join(" "),
                            f.stdout,
                            o.stdout
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}
fn lines_for(f: &str, x: &[&str], queries: &[&[&str]]) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let mut add = |a: &[&str]| v.push(a.iter().map(|x| x.to_string()).collect());
    add(&["bal", "-f", f]);
    add(&["bal", "-f", f, "--flat"]);
    add(&["bal", "-f", f, "--depth", "1"]);
    add(&["reg", "-f", f]);
    add(&["accounts", "-f", f]);
    add(&["payees", "-f", f]);
    add(&["commodities", "-f", f]);
    add(&["prices", "-f", f]);
    add(&["check", "-f", f]);
    for c in x {
        add(&["bal", "-f", f, "-X", c]);
    }
    for q in queries {
        let mut a = vec!["reg", "-f", f];
        a.extend_from_slice(q);
        add(&a);
    }
    v
}
fn seeds_case(t: String, x: &'static [&'static str], queries: &'static [&'static [&'static str]], seeds: u64) -> Option<Case> {
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l = lines_for(&f, x, queries);
        same_for_all_seeds(env, &l, seeds)
    })
}

const FEATURES: [&str; 16] = [
    "2020-01-01 several commodities\n    A:B:C  1 EUR\n    A:B:D  2 USD\n    A:E  3 GBP\n    A:B:C  4 JPY\n    Z:Y\n",
    "2020-01-02 exchange\n    A:B:C  10 EUR\n    Q  -11 USD\n",
    "2020-01-03 cost\n    A:S  3 STK @ 7 EUR\n    A:T  4 BND @@ 9 USD\n    Cash\n",
    "P 2019-01-01 USD 0.9 EUR\nP 2019-01-01 GBP 1.2 EUR\nP 2019-02-01 JPY 0.01 USD\nP 2019-02-01 JPY 0.007 GBP\n",
    "2020-01-04 Shop one ; :food:\n    Expenses:unknown  5 EUR ; place: here\n    Cash  ; :paid:\n",
    "account Expenses:Food\n    payee ^Shop\naccount Expenses:Fun\n    payee one$\n",
    "payee Market\n    alias ^Shop\npayee Mall\n    alias one$\n",
    "2020-01-05 case\n    a:b:c  1 eur\n    CASH  2 EUR\n    cash  -3 Eur\n",
    "commodity EUR\n    alias €\n    alias euros\ncommodity USD\n    alias $\n    alias dollars\n",
    "2020-01-06 aliases\n    A:B  €5\n    A:C  $6\n    A:D  7 euros\n    A:D  8 dollars\n    Z\n",
    "= /A:B/\n    (Budget:x)  -1\n    (Budget:y)  (amount * 2)\n    ; :auto:\n\n= /Cash/\n    [Save]  1 EUR\n    [Rest]  -1 EUR\n",
    "2020-01-01 virtual\n    (V:one)  1 EUR\n    [V:two]  2 USD\n    [V:three]  -2 USD\n    A:B:C  5 GBP\n    A:F  -5 GBP\n",
    "2020-01-07 many accounts\n    M:a  1 EUR\n    M:b  1 EUR\n    M:c  -1 EUR\n    M:d  2 USD\n    M:a  1 USD\n    M:e  -2 EUR\n    M:f  -3 USD\n",
    "2020-01-02 assertion\n    K:a  5 EUR = 5 EUR\n    K:b\n\n2020-01-03 assignment\n    K:a  = 9 EUR\n    K:c\n",
    "2020-01-08 desc | the payee\n    ; a: 1\n    ; b: 2\n    A  1 EUR\n    ; c: 3\n    B\n",
    "2020-01-01 zero\n    A:B:C  0 EUR\n    N:o  0 GBP\n    A:Z  1 USD\n    A:Z  -1 USD\n",
];
fn features(ch: &mut Ch, k: usize) -> Option<Case> {
    // subsets of up to k features, in their order
    let mut t = String::new();
    let mut from = 0;
    for i in 0..k {
        // 0: no more
        let n = FEATURES.len() - from;
        let c = ch.pick(n + 1);
        if c == 0 {
            if i == 0 {
                t = FEATURES.join("\n");
            }
            break;
        }
        if i > 0 {
            t.push('\n');
        }
        t.push_str(FEATURES[from + c - 1]);
        from += c;
    }
    let s = ch.qt(4, 8);
    seeds_case(t, &["EUR", "USD"], &[&["%auto"], &["@Shop"], &["expr", "any(amount > 2)"]], s)
}
fn c10_features(ch: &mut Ch) -> Option<Case> {
    features(ch, 2)
}
fn c10_features_deep(ch: &mut Ch) -> Option<Case> {
    features(ch, 4)
}
fn c10_many(ch: &mut Ch) -> Option<Case> {
    let kind = ch.pick(10);
    let n = 2 + ch.pick(ch.qt(14, 40));
    let mut t = String::new();
    match kind {
        0 => {
            // commodities in one account, and a fill with all of them
            t.push_str("2020-01-01 x\n");
            for i in 0..n {
                t.push_str(&format!("    A:B  {} C{}\n", i + 1, letters(i)));
            }
            t.push_str("    Z\n");
        }
        1 => {
            t.push_str("2020-01-01 x\n");
            for i in 0..n {
                t.push_str(&format!("    A:{}:x  {} EUR\n", letters(i), i + 1));
            }
            t.push_str("    Z\n");
        }
        2 => {
            for i in 0..n {
                t.push_str(&format!("2020-01-{:02} {}\n    A  1 EUR\n    B\n\n", i % 3 + 1, letters(i)));
            }
        }
        3 => {
            for i in 0..n {
                t.push_str(&format!("P 2020-01-{:02} {} {} EUR\n", i % 2 + 1, letters(i), i + 1));
            }
            t.push_str("2020-01-01 x\n");
            for i in 0..n {
                t.push_str(&format!("    A  {} {}\n", i + 1, letters(i)));
            }
            t.push_str("    Z\n");
        }
        4 => {
            // several routes to EUR, all of the same length
            for i in 0..n {
                t.push_str(&format!("P 2020-01-01 AAA {} M{}\nP 2020-01-01 M{} 2 EUR\n", i + 1, letters(i), letters(i)));
            }
            t.push_str("2020-01-01 x\n    A  1 AAA\n    B  1 EUR\n    Z\n");
        }
        5 => {
            t.push_str("account A\n");
            for i in 0..n {
                t.push_str(&format!("    alias al{}\n", letters(i)));
            }
            t.push_str("\n2020-01-01 x\n");
            for i in 0..n {
                t.push_str(&format!("    al{}  {} EUR\n", letters(i), i));
            }
            t.push_str("    Z\n");
        }
        6 => {
            for i in 0..n {
                t.push_str(&format!("payee P{}\n    alias ^p\n    alias q{}\n\n", letters(i), letters(i)));
            }
            t.push_str("2020-01-01 pq\n    A  1 EUR\n    B\n\n2020-01-01 qaa\n    A  1 EUR\n    B\n");
        }
        7 => {
            for i in 0..n {
                t.push_str(&format!("account X:{}\n    payee shop\n    payee {}\n\n", letters(i), letters(i)));
            }
            t.push_str("2020-01-01 shop\n    unknown  1 EUR\n    B\n\n2020-01-01 shop aa\n    y:Unknown  1 EUR\n    B\n");
        }
        8 => {
            for i in 0..n {
                t.push_str(&format!("= /A/\n    (V:{})  {}\n\n", letters(i), i + 1));
            }
            t.push_str("2020-01-01 x\n    A  1 EUR\n    A:B  2 USD\n    Z\n");
        }
        _ => {
            // names that differ only in case
            t.push_str("2020-01-01 x\n");
            for i in 0..n {
                let s: String = "abcdef".chars().enumerate().map(|(k, c)| if i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                t.push_str(&format!("    {}  {} {}\n", s, i + 1, s));
            }
            t.push_str("    Z\n");
            for i in 0..n {
                let s: String = "abcdef".chars().enumerate().map(|(k, c)| if i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                t.push_str(&format!("2020-01-01 {}\n    A  1 EUR\n    Z\n", s));
            }
        }
    }
    let s = ch.qt(8, 16);
    seeds_case(t, &["EUR"], &[], s)
}
/// Every set of the accounts of a chain of eight, with or without brothers
fn c10_deep_accounts(ch: &mut Ch) -> Option<Case> {
    let set = 1 + ch.pick(255);
    let brother = ch.pick(3);
    let mut t = String::from("2020-01-01 x\n");
    let mut name = String::new();
    for d in 0..8 {
        if d > 0 {
            name.push(':');
        }
        name.push_str(["A", "b", "c", "d", "e", "f", "g", "h"][d]);
        if set >> d & 1 == 1 {
            t.push_str(&format!("    {}  {} EUR\n", name, d + 1));
            match brother {
                1 => t.push_str(&format!("    {}2  1 EUR\n", name)),
                2 => t.push_str(&format!("    {}:y  1 USD\n    {}:x  2 USD\n", name, name)),
                _ => (),
            }
        }
    }
    t.push_str("    Z:z\n");
    let s = ch.qt(6, 12);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l: Vec<Vec<String>> =
            [&["bal"][..], &["bal", "--depth", "3"], &["bal", "--depth", "6"], &["bal", "--flat", "--depth", "6"], &["accounts"]]
                .iter()
                .map(|a| a.iter().chain(&["-f", &f]).map(|x| x.to_string()).collect())
                .collect();
        same_for_all_seeds(env, &l, s)
    })
}
pub fn letters(i: usize) -> String {
    format!("{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char)
}
fn c10_ambiguous(ch: &mut Ch) -> Option<Case> {
    let mut t = String::new();
    // two or three declarations that compete
    let pats = ["^Shop", "one", "S", "Shop one", "."];
    let k = ch.pick(3);
    let n = 2 + ch.flag() as usize;
    for i in 0..n {
        let p = ch.of(&pats);
        match k {
            0 => t.push_str(&format!("payee P{}\n    alias {}\n\n", i, p)),
            1 => t.push_str(&format!("account X:{}\n    payee {}\n\n", i, p)),
            _ => t.push_str(&format!("account Y:{}\n    alias al\n    alias al{}\n\ncommodity C{}\n    alias {}\n\n", i, i, letters(i), "cc")),
        }
    }
    t.push_str("2020-01-01 Shop one\n    unknown  1 EUR\n    al  2 cc\n    B\n\n2020-01-01 SHOP ONE\n    unknown  1 EUR\n    al  3 USD\n    B\n");
    let s = ch.qt(6, 12);
    seeds_case(t, &["EUR", "cc"], &[&["@P"], &["X"]], s)
}
fn c10_prices(ch: &mut Ch) -> Option<Case> {
    // all graphs on four commodities with quotes of one or two dates
    let coms = ["EUR", "USD", "GBP", "JPY"];
    let mut t = String::new();
    let mut edges = 0;
    for i in 0..4 {
        for k in i + 1..4 {
            let c = ch.pick(ch.qt(3, 5));
            let (a, b) = (coms[i], coms[k]);
            if c > 0 {
                edges += 1;
            }
            match c {
                0 => {}
                1 => t.push_str(&format!("P 2019-01-01 {} 1.{}{} {}\n", a, i + 1, k, b)),
                2 => t.push_str(&format!("P 2019-03-01 {} 0.{}{} {}\n", b, i + 1, k, a)),
                3 => t.push_str(&format!("P 2019-01-01 {} 2.{}{} {}\nP 2019-01-01 {} 3.{}{} {}\n", a, i, k, b, a, i, k, b)),
                _ => t.push_str(&format!("P 2019-01-01 {} 2.{}{} {}\nP 2019-03-01 {} 0.{}{} {}\n", a, i, k, b, b, i, k, a)),
            }
        }
    }
    if edges == 0 {
        return None;
    }
    t.push_str("\n2020-01-01 x\n    A:a  100 EUR\n    A:b  200 USD\n    A:c  300 GBP\n    A:d  400 JPY\n    Z\n");
    let s = ch.qt(4, 6);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l: Vec<Vec<String>> = [vec!["bal", "-f", &f, "-X", "EUR"], vec!["bal", "-f", &f, "-X", "JPY", "--flat"], vec!["prices", "-f", &f]]
            .iter()
            .map(|v| v.iter().map(|x| x.to_string()).collect())
            .collect();
        same_for_all_seeds(env, &l, s)
    })
}
fn c10_exchanges(ch: &mut Ch) -> Option<Case> {
    let coms = ["EUR", "USD", "GBP", "JPY"];
    let mut t = String::new();
    let n = 1 + ch.pick(ch.qt(1, 2));
    for i in 0..n {
        t.push_str(&format!("2020-01-0{} x\n", i + 1));
        let m = 2 + ch.pick(2);
        for k in 0..m {
            let c = ch.pick(coms.len());
            let sign = if k == 0 { "" } else { "-" };
            t.push_str(&format!("    A:{}  {}{} {}\n", k, sign, 3 * k + 2 + i, coms[c]));
        }
        if ch.flag() {
            t.push_str("    Fill\n");
        }
        t.push('\n');
    }
    let s = ch.qt(4, 8);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l: Vec<Vec<String>> = [vec!["bal", "-f", &f, "-X", "EUR"], vec!["reg", "-f", &f], vec!["prices", "-f", &f]]
            .iter()
            .map(|v| v.iter().map(|x| x.to_string()).collect())
            .collect();
        same_for_all_seeds(env, &l, s)
    })
}
fn c10_includes(ch: &mut Ch) -> Option<Case> {
    // the same things declared in several files
    let n = 2 + ch.pick(2);
    let kind = ch.pick(4);
    let glob = ch.flag();
    let mut main = String::new();
    let mut files = vec![];
    for i in 0..n {
        let body = match kind {
            0 => format!("account A\n    alias x{}\n    payee p{}\n\n2020-01-01 p{}\n    x{}  1 EUR\n    unknown\n", i, i, i, i),
            1 => format!("commodity EUR\n    alias e{}\n\npayee Q\n    alias ^r{}\n\n2020-01-01 r{}\n    A:{}  1 e{}\n    B  -1 e{}\n    K  {} C{}\n    K2\n", letters(i), i, i, i, letters(i), letters(i), i + 1, letters(i)),
            2 => format!("account n{}\n    alias same\n\n2020-01-0{} s{}\n    same  1 EUR\n    T:{}\n", i, 3 - i, i, i),
            _ => format!("P 2019-01-01 EUR 1.{} USD\n\n= /A{}/\n    (V)  {}\n\n2020-01-01 z\n    A{}  1 EUR\n    W  -2 USD\n    B\n", i + 1, i, i + 2, i),
        };
        files.push((format!("inc/f{}.ledger", i), body));
        if !glob {
            main.push_str(&format!("include inc/f{}.ledger\n", i));
        }
    }
    if glob {
        main.push_str("include inc/*.ledger\n");
    }
    let key = format!("{}{:?}", main, files);
    let s = ch.qt(8, 16);
    case(key, move |env| {
        for (n, b) in &files {
            env.write(n, b);
        }
        let f = env.write("j.ledger", &main);
        let l = lines_for(&f, &["USD"], &[]);
        same_for_all_seeds(env, &l, s)
    })
}
fn c10_rejected(ch: &mut Ch) -> Option<Case> {
    let t = ch.of(&[
        "2020-01-01 x\n    A  1 EUR\n    B  2 USD\n    C  3 GBP\n",
        "2020-01-01 x\n    A  1 EUR\n    B  2 USD\n    C  -3 GBP\n    [D]  1 EUR\n",
        "2020-01-01 x\n    A  1 EUR\n    A  2 USD = 3 USD\n    C\n",
        "2020-01-01 x\n    A  1 EUR\n    A  2 USD = 2 USD\n    C  \n    D\n",
        "2020-01-01 x\n    A  1 EUR\n    A  2 USD = 2 USD\n    A  3 GBP = 1 EUR\n    C  = -4 JPY\n    D\n",
        "2020-01-01 x\n    A  1 EUR = 1 USD\n    D\n",
        "2020-01-01 x\n    A  1 EUR = 0 USD\n    A  1 USD = 1 EUR\n    D\n",
    ]);
    let s = ch.qt(16, 64);
    seeds_case(t.to_string(), &["EUR"], &[], s)
}

// ------------------------------------------------------------------ C11

/// The outputs that may not change; prices as a set of lines
fn outputs(env: &mut Env, f: &str, x: &[&str]) -> Result<Vec<(String, Status, String)>, String> {
    let mut v = vec![];
    for a in lines_for(f, x, &[]) {
        let o = env.run(&a);
        let mut s = o.stdout.clone();
        if a[0] == "prices" {
            let mut l: Vec<&str> = s.lines().collect();
            l.sort_unstable();
            s = l.join("\n");
        }
        if a[0] == "check" {
            s = String::new();
        }
        let name: Vec<String> = a.iter().filter(|x| *x != f).cloned().collect();
        v.push((name.join(" "), o.status, s));
    }
    Ok(v)
}
fn compare_outputs(a: &[(String, Status, String)], b: &[(String, Status, String)]) -> R {
    for (x, y) in a.iter().zip(b.iter()) {
        let refused = |s: &Status| *s != Status::Ok;
        if refused(&x.1) != refused(&y.1) {
            return Err(format!("{} ends with {:?} and, rewritten, with {:?}", x.0, x.1, y.1));
        }
        if x.1 == Status::Ok && x.2 != y.2 {
            return Err(format!("{} prints\n{}\n--- and, rewritten,\n{}", x.0, x.2, y.2));
        }
    }
    Ok(())
}
/// A journal and the same one written in other ways: files, and which one is the main one
fn rewritten(j: Journal, files: Vec<(String, String)>, x: &'static [&'static str]) -> Option<Case> {
    let base = text(&j);
    let key = format!("{}{:?}", base, files);
    case(key, move |env| {
        let f = env.write("base.ledger", &base);
        expect_file(env, &f, &ledger(&j, false), CHECK | BAL | REG | LISTS | PRICES, &[])?;
        let a = outputs(env, &f, x)?;
        for (n, b) in &files {
            env.write(n, b);
        }
        let main = env.dir.join(&files[0].0).to_str().unwrap().to_string();
        let b = outputs(env, &main, x)?;
        compare_outputs(&a, &b)
    })
}
fn pool() -> Vec<Item> {
    vec![
        Item::Txn(tx(day(0), "alpha", vec![po("A:x", "5", "EUR"), po("A:y", "2", "USD"), el("Z")])),
        Item::Txn(tx(day(1), "beta", vec![po("A:x", "-3", "EUR").eq("2", "EUR"), el("B")])),
        Item::Txn(tx(day(2), "gamma", vec![el("A:y").eq("7", "USD"), po("K", "1", "STK").at("4", "EUR"), el("Z:q")])),
        Item::Txn(tx(day(3), "delta", vec![po("A:x", "1", "EUR").eq("3", "EUR"), po("C", "-2", "GBP"), el("B").kind(Kind::Real)])),
        Item::Txn(tx(day(40), "eps", vec![po("euro acc", "9", "€"), po("V", "3", "EUR").kind(Kind::Virt), el("Expenses:unknown")]).payee("shop")),
        Item::Txn(tx((2019, 12, 31), "last year", vec![po("A:y", "1", "GBP"), po("Q", "-1", "USD")])),
        Item::Txn(tx(day(59), "tagged", vec![po("A:x", "0", "EUR").note(" :tt:"), po("W", "2", "USD"), el("A")]).hdr(" :t:")),
    ]
}
fn directives() -> Vec<Item> {
    vec![
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] },
        Item::Account { name: "Euro:Account".into(), aliases: vec!["euro acc".into()], payees: vec![], extra: vec![] },
        Item::Account { name: "Exp:Shop".into(), aliases: vec![], payees: vec!["shop".into()], extra: vec!["note something".into()] },
        Item::Payee { name: "Shop".into(), aliases: vec!["^shop".into()] },
        Item::Price { date: (2019, 5, 1), com: "USD".into(), amt: am("0.9", "EUR") },
        Item::Price { date: (2019, 6, 1), com: "USD".into(), amt: am("0.8", "EUR") },
        Item::Price { date: (2019, 7, 1), com: "GBP".into(), amt: am("1.5", "USD") },
        Item::Auto(Auto {
            text: "/A:x/".into(),
            pred: acc_re("A:x"),
            comments: vec![],
            posts: vec![AutoPost { kind: Kind::Virt, acc: "Auto".into(), amt: AutoAmt::Mult("2".into()) }],
        }),
    ]
}
fn one_file(items: &[Item]) -> Vec<(String, String)> {
    vec![("main.ledger".to_string(), text(items))]
}
fn perm_of(ch: &mut Ch, items: &[Item]) -> Vec<Item> {
    ch.perm(items.len()).into_iter().map(|i| items[i].clone()).collect()
}
fn c11_perm(ch: &mut Ch) -> Option<Case> {
    let p = pool();
    let k = ch.pick(p.len());
    // all but one, or a window of them
    let mut items: Vec<Item> = (0..ch.qt(4, 5)).map(|i| p[(k + i) % p.len()].clone()).collect();
    items.sort_by_key(|x| if let Item::Txn(t) = x { t.date } else { (0, 0, 0) });
    let q = perm_of(ch, &items);
    rewritten(items, one_file(&q), &["EUR"])
}
fn c11_perm_deep(ch: &mut Ch) -> Option<Case> {
    let items = pool()[..6].to_vec();
    let q = perm_of(ch, &items);
    rewritten(items, one_file(&q), &["EUR"])
}
fn c11_directives(ch: &mut Ch) -> Option<Case> {
    let p = pool();
    let d = directives();
    // two directives and two transactions, everywhere
    let a = ch.pick(d.len());
    let b = a + 1 + ch.pick(d.len() - a);
    let mut items = vec![d[a].clone()];
    if b < d.len() {
        items.push(d[b].clone());
    }
    let k = ch.pick(ch.qt(2, p.len() - 1));
    items.push(p[(4 + k) % p.len()].clone());
    items.push(p[(6 + k) % p.len()].clone());
    let q = perm_of(ch, &items);
    rewritten(items, one_file(&q), &["EUR"])
}
/// Transactions with the given dates; the ones of equal date are told apart by their assertions
fn dated(dates: &[u32]) -> Vec<Item> {
    let mut sum = 0i64;
    let mut order: Vec<usize> = (0..dates.len()).collect();
    order.sort_by_key(|i| dates[*i]);
    let mut bal = vec![0i64; dates.len()];
    for i in order {
        sum += 1 << i;
        bal[i] = sum;
    }
    (0..dates.len())
        .map(|i| {
            Item::Txn(tx(
                day(dates[i]),
                &format!("t{}", i),
                vec![po("A", &(1i64 << i).to_string(), "EUR").eq(&bal[i].to_string(), "EUR"), el(&format!("Z:{}", i))],
            ))
        })
        .collect()
}
/// is the relative order of equal dates kept
fn keeps(dates: &[u32], perm: &[usize]) -> bool {
    (0..perm.len()).all(|a| (a + 1..perm.len()).all(|b| dates[perm[a]] != dates[perm[b]] || perm[a] < perm[b]))
}
fn c11_same(ch: &mut Ch) -> Option<Case> {
    let n = 2 + ch.pick(ch.qt(3, 4));
    let dates: Vec<u32> = (0..n).map(|_| ch.pick(ch.qt(3, 3)) as u32).collect();
    let perm = ch.perm(n);
    if !keeps(&dates, &perm) {
        return None;
    }
    let items = dated(&dates);
    let q: Vec<Item> = perm.iter().map(|i| items[*i].clone()).collect();
    rewritten(items, one_file(&q), &[])
}
/// Cuts a list of items into files: for every item, whether it goes to the main file, to the same
/// included file as the previous one or to a new one
fn split(ch: &mut Ch, items: &[Item], nested: bool, dirs: bool) -> Vec<(String, String)> {
    let mut main = String::new();
    let mut files: Vec<(String, String)> = vec![];
    let mut open: Option<usize> = None;
    for it in items {
        let c = ch.pick(if open.is_some() { 3 } else { 2 });
        let t = text(&[it.clone()]);
        match c {
            0 => {
                open = None;
                main.push_str(&t);
                main.push('\n');
            }
            1 => {
                let name = format!("{}part{}.ledger", if dirs { "sub/" } else { "" }, files.len());
                main.push_str(&format!("include {}\n", name));
                files.push((name, format!("{}\n", t)));
                open = Some(files.len() - 1);
            }
            _ => {
                let k = open.unwrap();
                if nested {
                    // the rest goes into a file of its own, included from that one
                    let short = format!("part{}.ledger", files.len());
                    let name = format!("{}{}", if dirs { "sub/" } else { "" }, short);
                    files[k].1.push_str(&format!("include {}\n", short));
                    files.push((name, format!("{}\n", t)));
                    open = Some(files.len() - 1);
                } else {
                    files[k].1.push_str(&format!("{}\n", t));
                }
            }
        }
    }
    let mut v = vec![("main.ledger".to_string(), main)];
    v.extend(files);
    v
}
fn c11_split(ch: &mut Ch) -> Option<Case> {
    let which = ch.pick(3);
    let items: Vec<Item> = match which {
        0 => pool()[..5].to_vec(),
        1 => {
            let mut v = directives()[..3].to_vec();
            v.push(pool()[4].clone());
            v.push(pool()[0].clone());
            v
        }
        _ => dated(&[1, 1, 0, 1, 0]),
    };
    let nested = ch.flag();
    let dirs = ch.flag();
    let files = split(ch, &items, nested, dirs);
    rewritten(items, files, &["EUR"])
}
fn c11_both(ch: &mut Ch) -> Option<Case> {
    let mut items = vec![directives()[0].clone(), pool()[4].clone(), pool()[0].clone()];
    if ch.thorough() {
        items.push(directives()[5].clone());
    }
    let q = perm_of(ch, &items);
    let nested = ch.flag();
    let files = split(ch, &q, nested, true);
    rewritten(items, files, &["EUR"])
}
fn c11_assert(ch: &mut Ch) -> Option<Case> {
    // a history of assertions, some of them false, dealt into two files in all ways
    let n = 4;
    let wrong = ch.pick(n + 1);
    let mut items = vec![];
    for i in 0..n {
        let q = (i as i64 + 1) * (i as i64 + 2) / 2;
        let q = if wrong == i { q + 1 } else { q };
        items.push(Item::Txn(tx(
            day(i as u32 * 40),
            &format!("t{}", i),
            vec![po("A", &(i + 1).to_string(), "EUR").eq(&q.to_string(), "EUR"), el("B")],
        )));
    }
    let mut parts: Vec<Vec<Item>> = vec![vec![], vec![], vec![]];
    for it in &items {
        let k = ch.pick(3);
        parts[k].push(it.clone());
    }
    if ch.flag() {
        for p in parts.iter_mut() {
            p.reverse();
        }
    }
    let mut main = String::from("include one.ledger\n");
    main.push_str(&text(&parts[0]));
    main.push_str("\ninclude two.ledger\n");
    rewritten(
        items,
        vec![
            ("main.ledger".into(), main),
            ("one.ledger".into(), text(&parts[1])),
            ("two.ledger".into(), text(&parts[2])),
        ],
        &[],
    )
}
fn c11_long(ch: &mut Ch) -> Option<Case> {
    let n = 5 + ch.pick(ch.qt(30, 80));
    let how = ch.pick(6);
    let items: Vec<Item> = (0..n)
        .map(|i| {
            let a = format!("A:{}", i % 4);
            Item::Txn(tx(
                day((i * 2) as u32 % 360),
                &format!("t{}", i),
                vec![
                    po(&a, &format!("{}.{}", i + 1, i % 10), ["EUR", "USD"][i % 2]),
                    el(&format!("Z:{}", i % 3)),
                ],
            ))
        })
        .collect();
    let mut q = items.clone();
    match how {
        0 => q.reverse(),
        1 => q.rotate_left(n / 3),
        2 => {
            let (a, b): (Vec<_>, Vec<_>) = q.into_iter().enumerate().partition(|x| x.0 % 2 == 0);
            q = a.into_iter().chain(b).map(|x| x.1).collect();
        }
        3 => {
            // one entry per file, all included
            let mut files = vec![("main.ledger".to_string(), (0..n).rev().map(|i| format!("include p{}.ledger\n", i)).collect::<String>())];
            for (i, it) in q.iter().enumerate() {
                files.push((format!("p{}.ledger", i), text(&[it.clone()])));
            }
            return rewritten(items, files, &[]);
        }
        4 => {
            // a chain of files
            let mut files = vec![];
            for (i, it) in q.iter().enumerate() {
                let name = if i == 0 { "main.ledger".to_string() } else { format!("p{}.ledger", i) };
                let mut t = text(&[it.clone()]);
                if i + 1 < n {
                    t = format!("include p{}.ledger\n{}", i + 1, t);
                }
                files.push((name, t));
            }
            return rewritten(items, files, &[]);
        }
        _ => {
            // dealt into three files in turns
            let mut files = vec![("main.ledger".to_string(), "include p2.ledger\ninclude p0.ledger\ninclude p1.ledger\n".to_string())];
            for k in 0..3 {
                let part: Vec<Item> = q.iter().skip(k).step_by(3).cloned().collect();
                files.push((format!("p{}.ledger", k), text(&part)));
            }
            return rewritten(items, files, &[]);
        }
    }
    rewritten(items, one_file(&q), &[])
}
fn c11_prices(ch: &mut Ch) -> Option<Case> {
    let p = |y: i32, m: u32, a: &str, q: &str, b: &str| Item::Price { date: (y, m, 1), com: a.into(), amt: am(q, b) };
    let all = vec![
        p(2019, 1, "USD", "0.9", "EUR"),
        p(2019, 2, "USD", "0.8", "EUR"),
        p(2019, 3, "EUR", "1.4", "USD"),
        p(2019, 1, "GBP", "1.1", "EUR"),
        p(2019, 4, "GBP", "1.2", "USD"),
        p(2020, 1, "STK", "50", "GBP"),
        p(2018, 1, "STK", "40", "USD"),
    ];
    let a = ch.pick(all.len());
    let b = ch.pick(all.len());
    let c = ch.pick(all.len());
    if !(a < b && b < c) {
        return None;
    }
    let items = vec![
        all[a].clone(),
        all[b].clone(),
        all[c].clone(),
        Item::Txn(tx(
            day(5),
            "x",
            vec![po("A:1", "10", "EUR"), po("A:2", "20", "USD"), po("A:3", "30", "GBP"), po("A:4", "4", "STK"), el("Z")],
        )),
    ];
    let q = perm_of(ch, &items);
    let files = if ch.flag() {
        vec![
            ("main.ledger".to_string(), format!("{}include rest.ledger\n", text(&q[..2]))),
            ("rest.ledger".to_string(), text(&q[2..])),
        ]
    } else {
        one_file(&q)
    };
    rewritten(items, files, &["EUR", "STK"])
}
