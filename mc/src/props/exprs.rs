//! C07, C14, C18: value expressions, automated transactions, tags
use super::balancing::dec;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            spaces: vec![
                space("arithmetic trees", c07_arith),
                space("arithmetic with amounts of money", c07_money),
                space("boolean trees", c07_bool),
                space("comparisons of every pair of operands", c07_compare),
                space("comparisons inside arithmetic and boolean trees", c07_mixed),
                space("functions, names and strings", c07_functions),
                space("regular expressions of every syntax", c07_regexes),
                space("negation of everything", c07_not),
                space("spelling of operators and blanks", c07_spelling),
                space("blanks between the pieces", c07_blanks),
                space("blanks in automated amounts", c07_auto_blanks),
                space("amounts of every commodity", c07_commodities),
                space("what has no meaning", c07_wrong),
                space("values of different kinds", c07_kinds),
                space("long chains", c07_chains),
                space("nested parentheses", c07_nested),
                space("exact arithmetic", c07_exact),
                space("filters of automated transactions", c07_filters),
                space("amounts of automated transactions", c07_amounts),
                deep("larger arithmetic trees", c07_arith_deep),
                deep("larger boolean trees", c07_bool_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C14",
            spaces: vec![
                space("filters and amounts", c14_filters),
                space("several automated transactions", c14_several),
                space("filters and amounts that are almost the same", c14_close),
                space("filters with regular expressions of every syntax", c14_regexes),
                space("what has to balance", c14_balance),
                space("filled, assigned, priced and virtual postings", c14_kinds),
                space("position in the journal", c14_position),
                space("tags of automated transactions", c14_tags),
                space("names and aliases in automated postings", c14_names),
                space("many of everything", c14_many),
                space("sizes", c14_sizes),
                deep("three automated transactions", c14_several_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C18",
            spaces: vec![
                space("forms and places of one comment", c18_one),
                space("two comments", c18_two),
                space("values of tags", c18_values),
                space("several transactions", c18_several),
                space("filled postings", c18_filled),
                space("what is not a tag", c18_none),
                space("many tags", c18_many),
                space("tags that are almost the same", c18_close),
                deep("three comments", c18_three),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

fn num(s: &str) -> E {
    E::Num(s.to_string())
}
fn mon(s: &str, c: &str) -> E {
    E::Money(s.to_string(), c.to_string())
}
fn not(e: E) -> E {
    E::Not(Box::new(e), false)
}
fn neg(e: E) -> E {
    E::Neg(Box::new(e))
}

/// All binary trees over the leaves, in order
fn tree(ch: &mut Ch, leaves: &[E], ops: &[Op], wrap: &mut dyn FnMut(&mut Ch, E) -> E) -> E {
    if leaves.len() == 1 {
        let l = leaves[0].clone();
        return wrap(ch, l);
    }
    let k = 1 + ch.pick(leaves.len() - 1);
    let op = ch.of(ops);
    let a = tree(ch, &leaves[..k], ops, wrap);
    let b = tree(ch, &leaves[k..], ops, wrap);
    wrap(ch, bin(op, a, b))
}
const ARITH: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];

fn journal(posts: Vec<Post>) -> Journal {
    txs(vec![tx((2020, 5, 17), "Payee One", posts)])
}
fn expr_sel(e: E) -> Sel {
    Sel {
        query: vec!["expr".into(), e.text()],
        pred: Some(e),
        ..Default::default()
    }
}
/// The register of the postings selected by an expression
fn expr_case(j: Journal, e: E) -> Option<Case> {
    text_case(j, e.text(), e)
}
fn text_case(j: Journal, written: String, e: E) -> Option<Case> {
    let t = text(&j);
    let l = ledger(&j, false).unwrap();
    let mut sel = expr_sel(e);
    // otherwise the command line would take it for an option
    let written = if written.starts_with('-') { format!("({})", written) } else { written };
    sel.query = vec!["expr".into(), written.clone()];
    // type errors are not in the property
    sums(&l, &sel)?;
    case(format!("{}\n{}", written, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, None, true)
    })
}

/// value of an arithmetic tree of numbers
fn value(e: &E) -> Option<Rat> {
    let l = ledger(&journal(vec![po("A", "1", "EUR").kind(Kind::Virt)]), false).unwrap();
    match eval(e, &l.txns[0].posts[0], &l.txns[0]) {
        Some(V::Num(q)) => Some(q),
        _ => None,
    }
}
fn is_dec(q: &Rat) -> bool {
    let mut d = q.denom().clone();
    for p in [2, 5] {
        let p = num::BigInt::from(p);
        while (&d % &p) == num::BigInt::from(0) {
            d /= &p;
        }
    }
    d == num::BigInt::from(1)
}
/// compares the tree with its own value (times the denominator when that is not decimal)
fn compare_value(ch: &mut Ch, e: E) -> Option<E> {
    let q = value(&e)?;
    let (lhs, q) = if is_dec(&q) {
        (e, q)
    } else {
        let d = q.denom().clone();
        let k = Rat::from(d);
        (bin(Op::Mul, e, num(&dec(&k))), q * k)
    };
    Some(match ch.pick(3) {
        0 => bin(Op::Eq, lhs, num(&dec(&q))),
        1 => bin(Op::Lt, lhs, num(&dec(&(q + rat("0.000001"))))),
        _ => bin(Op::Gt, lhs, num(&dec(&(q - rat("0.000001"))))),
    })
}
fn arith(ch: &mut Ch, n: usize, negs: bool) -> Option<Case> {
    let leaves: Vec<E> = [num("7"), num("2"), num("0.5"), num("5"), num("3")][..n].to_vec();
    let e = tree(ch, &leaves, &ARITH, &mut |ch, e| {
        if negs && ch.flag() {
            neg(e)
        } else {
            e
        }
    });
    let e = compare_value(ch, e)?;
    expr_case(journal(vec![po("A", "1", "EUR").kind(Kind::Virt)]), e)
}
fn c07_arith(ch: &mut Ch) -> Option<Case> {
    match ch.pick(3) {
        0 => {
            let n = 1 + ch.pick(3);
            arith(ch, n, true)
        }
        1 => arith(ch, 4, false),
        _ => {
            // a minus sign in the number itself
            let leaves: Vec<E> = [7, 2, 5]
                .iter()
                .map(|x| num(&format!("{}{}", if ch.flag() { "-" } else { "" }, x)))
                .collect();
            let e = tree(ch, &leaves, &ARITH, &mut |_, e| e);
            let e = compare_value(ch, e)?;
            expr_case(journal(vec![po("A", "1", "EUR").kind(Kind::Virt)]), e)
        }
    }
}
fn c07_arith_deep(ch: &mut Ch) -> Option<Case> {
    if ch.flag() {
        arith(ch, 5, false)
    } else {
        arith(ch, 4, true)
    }
}
fn money_posts() -> Vec<Post> {
    let mut v = vec![];
    for (i, q) in ["7", "-7", "0.5", "2", "-0.25", "14", "3.5", "100"].iter().enumerate() {
        v.push(po(&format!("A:{}", i), q, "EUR").kind(Kind::Virt));
    }
    v
}
fn c07_money(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&[E::Amount, neg(E::Amount), E::Abs(Box::new(E::Amount)), mon("3", "EUR")]);
    let b = ch.of(&[E::Amount, num("2"), mon("7", "EUR"), num("-0.5"), mon("-1", "EUR")]);
    let c = ch.of(&[E::Amount, num("4"), mon("0.5", "EUR"), neg(E::Amount)]);
    let e = tree(ch, &[a, b, c], &ARITH, &mut |_, e| e);
    let op = ch.of(&[Op::Eq, Op::Lt, Op::Ge]);
    let rhs = ch.of(&[mon("7", "EUR"), num("0"), mon("3.5", "EUR")]);
    expr_case(journal(money_posts()), bin(op, e, rhs))
}
/// one posting for every combination of truth values of the leaves
fn truth_posts(n: usize) -> Vec<Post> {
    (0..1usize << n)
        .map(|m| {
            let mut name = String::from("T:");
            for i in 0..n {
                if m >> i & 1 == 1 {
                    name.push(["p", "q", "r", "s", "t"][i].chars().next().unwrap());
                }
            }
            name.push_str("zz");
            po(&name, &format!("{}", m + 1), "EUR").kind(Kind::Virt)
        })
        .collect()
}
fn truth_leaves(n: usize) -> Vec<E> {
    (0..n).map(|i| acc_re(["p", "q", "r", "s", "t"][i])).collect()
}
fn c07_bool(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(4);
    let negs = n <= 3 || ch.thorough();
    let e = tree(ch, &truth_leaves(n), &[Op::And, Op::Or], &mut |ch, e| {
        if negs && ch.flag() {
            not(e)
        } else {
            e
        }
    });
    expr_case(journal(truth_posts(n)), e)
}
fn c07_bool_deep(ch: &mut Ch) -> Option<Case> {
    let e = tree(ch, &truth_leaves(5), &[Op::And, Op::Or], &mut |_, e| e);
    expr_case(journal(truth_posts(5)), e)
}
const CMP: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Gt, Op::Le, Op::Ge];
fn c07_compare(ch: &mut Ch) -> Option<Case> {
    let xs: Vec<E> = vec![
        E::Amount,
        num("7"),
        num("0"),
        num("-0.25"),
        num("0.333333333333333333333"),
        mon("7", "EUR"),
        mon("0.5", "EUR"),
        mon("0", "EUR"),
        mon("7", "USD"),
        neg(E::Amount),
        E::Abs(Box::new(E::Amount)),
        bin(Op::Div, num("1"), num("3")),
        bin(Op::Mul, E::Amount, num("2")),
        E::Date,
        E::ToDate("2020-05-17".into()),
        E::ToDate("2020/5/18".into()),
        E::ToDate("2019-12-31".into()),
        E::Str("abc".into()),
        E::Str("abd".into()),
        E::Str("".into()),
    ];
    let a = ch.of(&xs);
    let b = ch.of(&xs);
    let op = ch.of(&CMP);
    let mut posts = money_posts();
    posts.push(po("Z", "0", "EUR").kind(Kind::Virt));
    expr_case(journal(posts), bin(op, a, b))
}
fn c07_mixed(ch: &mut Ch) -> Option<Case> {
    // a OP b cmp c OP d  JOIN  x cmp y
    let o1 = ch.of(&ARITH);
    let o2 = ch.of(&[Op::Mul, Op::Sub]);
    let cmp = ch.of(&CMP);
    let left = bin(cmp, bin(o1, num("6"), num("2")), bin(o2, num("2"), num("2")));
    let right = ch.of(&[
        bin(Op::Gt, E::Amount, num("1")),
        acc_re("A"),
        bin(Op::Le, bin(Op::Add, E::Amount, mon("1", "EUR")), num("3")),
    ]);
    let join = ch.of(&[Op::And, Op::Or]);
    let side = ch.flag();
    let e = if side { bin(join, left, right) } else { bin(join, right, left) };
    let e = match ch.pick(3) {
        0 => e,
        1 => not(e),
        _ => bin(Op::Or, e, bin(Op::Eq, E::Amount, num("100"))),
    };
    expr_case(journal(money_posts()), e)
}
fn rich() -> Journal {
    txs(vec![
        tx(
            (2020, 5, 17),
            "Big Shop",
            vec![
                po("Expenses:Food", "7", "EUR").note(" kind: lunch"),
                po("Expenses:Rent", "-7.5", "EUR").note(" :fun:work:"),
                po("Budget", "0", "EUR").kind(Kind::Virt),
                el("Assets:Cash"),
            ],
        )
        .pre(" a note of the transaction"),
        tx(
            (2020, 5, 18),
            "Café",
            vec![
                po("Expenses:Food", "3", "USD").after(" kind: dinner"),
                po("Assets:Bank", "-3", "USD"),
            ],
        )
        .hdr(" Another Note"),
        tx((2021, 1, 1), "shop", vec![po("A", "1", "EUR"), el("B")]),
    ])
}
fn preds() -> Vec<E> {
    let s = |x: &str| E::Str(x.to_string());
    let re = |x: &str| E::Re(x.to_string());
    let m = |a: E, b: E| bin(Op::Match, a, b);
    vec![
        m(E::Account, re("Food")),
        m(E::Account, re("food")),
        m(E::Account, re("(?i)food")),
        m(E::Account, re("^A.*k$")),
        bin(Op::Eq, E::Account, re("Rent")),
        m(E::Payee, re("Shop")),
        m(E::Payee, re("(?i)shop")),
        m(E::Payee, re("é$")),
        m(E::Note, re("note")),
        m(E::Note, re("Note$")),
        m(E::Note, re("lunch")),
        E::HasTag("fun".into()),
        E::HasTag("^k".into()),
        E::HasTag("nothing".into()),
        m(E::TagRe("kind".into()), re("n")),
        m(E::TagStr("kind".into()), re("^lunch$")),
        bin(Op::Eq, E::TagStr("kind".into()), s("dinner")),
        bin(Op::Ne, E::TagStr("kind".into()), s("dinner")),
        bin(Op::Eq, E::TagRe("k.nd".into()), s("lunch")),
        bin(Op::Eq, E::TagStr("kin".into()), s("lunch")),
        bin(Op::Ge, E::Date, E::ToDate("2020-05-18".into())),
        bin(Op::Lt, E::Date, E::ToDate("2021/1/1".into())),
        bin(Op::Eq, E::Date, E::ToDate("2020/05/17".into())),
        bin(Op::Gt, E::Abs(Box::new(E::Amount)), num("3")),
        bin(Op::Eq, E::Abs(Box::new(bin(Op::Sub, E::Amount, mon("7", "EUR")))), num("0")),
        E::Any(Box::new(acc_re("Bank"))),
        E::Any(Box::new(bin(Op::Lt, E::Amount, num("-7")))),
        E::Any(Box::new(bin(Op::And, acc_re("Food"), bin(Op::Gt, E::Amount, num("5"))))),
        not(E::Any(Box::new(acc_re("Food")))),
        E::Any(Box::new(not(acc_re("Food")))),
        bin(Op::Eq, E::Amount, num("0")),
        bin(Op::Gt, num("2"), E::Abs(Box::new(neg(num("1"))))),
        bin(Op::Eq, E::Abs(Box::new(bin(Op::Sub, num("1"), num("3")))), num("2")),
    ]
}
fn c07_functions(ch: &mut Ch) -> Option<Case> {
    let ps = preds();
    let e = match ch.pick(3) {
        0 => ch.of(&ps),
        1 => {
            let a = ch.of(&ps);
            let b = ch.of(&ps);
            bin(Op::And, a, b)
        }
        _ => {
            let a = ch.of(&ps);
            let b = ch.of(&ps);
            bin(Op::Or, not(a), b)
        }
    };
    expr_case(rich(), e)
}
fn c07_not(ch: &mut Ch) -> Option<Case> {
    let ps = preds();
    let a = ch.of(&ps);
    let bang = ch.flag();
    let twice = ch.flag();
    let e = E::Not(Box::new(a), bang);
    let e = if twice { E::Not(Box::new(e), ch.flag()) } else { e };
    let e = match ch.pick(3) {
        0 => e,
        1 => bin(Op::And, e, acc_re("o")),
        _ => bin(Op::Or, acc_re("Rent"), e),
    };
    expr_case(rich(), e)
}
fn c07_spelling(ch: &mut Ch) -> Option<Case> {
    let cases: Vec<(&str, E)> = vec![
        ("amount>5", bin(Op::Gt, E::Amount, num("5"))),
        ("amount  >  5", bin(Op::Gt, E::Amount, num("5"))),
        ("( amount > 5 )", bin(Op::Gt, E::Amount, num("5"))),
        ("((amount)>(5))", bin(Op::Gt, E::Amount, num("5"))),
        ("amount>=7&amount<=7", bin(Op::And, bin(Op::Ge, E::Amount, num("7")), bin(Op::Le, E::Amount, num("7")))),
        ("amount==7|amount==3", bin(Op::Or, bin(Op::Eq, E::Amount, num("7")), bin(Op::Eq, E::Amount, num("3")))),
        ("amount == 7 or amount == 3", bin(Op::Or, bin(Op::Eq, E::Amount, num("7")), bin(Op::Eq, E::Amount, num("3")))),
        ("amount == 7 and account =~ /Food/", bin(Op::And, bin(Op::Eq, E::Amount, num("7")), acc_re("Food"))),
        ("amount != 7 and account =~ /Food/", bin(Op::And, bin(Op::Ne, E::Amount, num("7")), acc_re("Food"))),
        ("7 != amount", bin(Op::Ne, E::Amount, num("7"))),
        ("7 EUR == amount", bin(Op::Eq, E::Amount, mon("7", "EUR"))),
        ("EUR 7 == amount", bin(Op::Eq, E::Amount, mon("7", "EUR"))),
        ("amount == \"EUR\" 7", bin(Op::Eq, E::Amount, mon("7", "EUR"))),
        ("amount == 7 'EUR'", bin(Op::Eq, E::Amount, mon("7", "EUR"))),
        ("tag('kind') == 'lunch'", bin(Op::Eq, E::TagStr("kind".into()), E::Str("lunch".into()))),
        ("not account =~ /Food/", not(acc_re("Food"))),
        ("not(account =~ /Food/)", not(acc_re("Food"))),
        ("!account =~ /Food/", not(acc_re("Food"))),
        ("! (account =~ /Food/)", not(acc_re("Food"))),
        ("abs( amount ) > 3", bin(Op::Gt, E::Abs(Box::new(E::Amount)), num("3"))),
        ("abs (amount)>3", bin(Op::Gt, E::Abs(Box::new(E::Amount)), num("3"))),
        ("-amount > 3", bin(Op::Gt, neg(E::Amount), num("3"))),
        ("- amount > 3", bin(Op::Gt, neg(E::Amount), num("3"))),
        ("amount*2+1 EUR ==15", bin(Op::Eq, bin(Op::Add, bin(Op::Mul, E::Amount, num("2")), mon("1", "EUR")), num("15"))),
        ("amount - 2 EUR > 1", bin(Op::Gt, bin(Op::Sub, E::Amount, mon("2", "EUR")), num("1"))),
        ("2*3-1 == 5", E::True),
        ("2 *3 - -1 == 7", E::True),
        ("8 / 4 / 2 == 1", E::True),
        ("8 - 4 - 2 == 2", E::True),
        ("2 + 3 * 4 == 14", E::True),
        ("(2 + 3) * 4 == 20", E::True),
        ("1 == 2 or 1 == 1 and 2 == 2", E::True),
        ("1 == 1 or 1 == 1 and 2 == 3", E::True),
        ("(1 == 1 or 1 == 1) and 2 == 3", not(E::True)),
        ("not 1 == 2 and 2 == 2", E::True),
        ("not 1 == 1 or 2 == 2", E::True),
        ("has_tag(/fun/)", E::HasTag("fun".into())),
        ("has_tag( /fun/ )", E::HasTag("fun".into())),
        ("any(account =~ /Bank/)", E::Any(Box::new(acc_re("Bank")))),
        ("date >= to_date('2020-05-18')", bin(Op::Ge, E::Date, E::ToDate("2020-05-18".into()))),
        ("date<to_date(\"2020/5/18\")", bin(Op::Lt, E::Date, E::ToDate("2020-05-18".into()))),
        ("payee=~/Shop/", bin(Op::Match, E::Payee, E::Re("Shop".into()))),
        ("note =~ /note/", bin(Op::Match, E::Note, E::Re("note".into()))),
    ];
    let (w, e) = ch.of(&cases);
    // comparisons of amounts of two commodities are errors: one commodity
    text_case(one_commodity(), w.to_string(), e)
}
/// two of the gaps between the pieces of an expression are not one space: none, two, a tab
fn c07_blanks(ch: &mut Ch) -> Option<Case> {
    let a2 = bin(Op::Mul, E::Amount, num("2"));
    let cases: Vec<(&[&str], E)> = vec![
        (
            &["(", "amount", "*", "2", "-", "3", ")", "/", "2", ">", "1", "and", "not", "(", "account", "=~", "/Food/", ")"],
            bin(
                Op::And,
                bin(Op::Gt, bin(Op::Div, bin(Op::Sub, a2.clone(), num("3")), num("2")), num("1")),
                not(acc_re("Food")),
            ),
        ),
        (
            &["abs", "(", "-", "amount", ")", "<", "4", "or", "amount", "==", "7", "EUR", "and", "has_tag", "(", "/fun/", ")"],
            bin(
                Op::Or,
                bin(Op::Lt, E::Abs(Box::new(neg(E::Amount))), num("4")),
                bin(Op::And, bin(Op::Eq, E::Amount, mon("7", "EUR")), E::HasTag("fun".into())),
            ),
        ),
        (
            &["amount", "==", "7", "and", "(", "amount", "<", "8", ")", "or", "(", "2", "!=", "2", ")", "or", "3", "!=", "3", "or", "(", "amount", "==", "3", ")"],
            bin(
                Op::Or,
                bin(Op::Eq, E::Amount, num("7")),
                bin(Op::Eq, E::Amount, num("3")),
            ),
        ),
        (
            &["!", "(", "payee", "=~", "/Shop/", "|", "amount", ">=", "-7", ")", "&", "2", "*", "3", "/", "4", "+", "1", "==", "2.5"],
            bin(
                Op::And,
                not(bin(
                    Op::Or,
                    bin(Op::Match, E::Payee, E::Re("Shop".into())),
                    bin(Op::Ge, E::Amount, num("-7")),
                )),
                bin(
                    Op::Eq,
                    bin(Op::Add, bin(Op::Div, bin(Op::Mul, num("2"), num("3")), num("4")), num("1")),
                    num("2.5"),
                ),
            ),
        ),
    ];
    let (toks, e) = ch.of(&cases);
    let word = |s: &str| s.chars().next().unwrap().is_alphanumeric();
    let n = toks.len() - 1;
    let g1 = ch.pick(n);
    let g2 = g1 + ch.pick(n - g1);
    let b1 = ch.pick(3);
    let b2 = if g2 == g1 { b1 } else { ch.pick(3) };
    let mut w = toks[0].to_string();
    for i in 0..n {
        let b = if i == g1 {
            ["", "  ", "\t"][b1]
        } else if i == g2 {
            ["", "  ", "\t"][b2]
        } else {
            " "
        };
        // words need something between them
        if b.is_empty() && (word(toks[i]) || ["and", "or", "not"].contains(&toks[i])) && word(toks[i + 1]) {
            return None;
        }
        if b.is_empty() && toks[i + 1].starts_with('-') && toks[i + 1].len() > 1 {
            return None;
        }
        w.push_str(b);
        w.push_str(toks[i + 1]);
    }
    // in a query, or in the filter of an automated transaction
    if ch.flag() {
        return text_case(one_commodity(), w, e);
    }
    let mut j = one_commodity();
    let w = format!("expr \"{}\"", w);
    j.push(Item::Auto(auto(&w, e, vec![(Kind::Virt, "Auto", AutoAmt::Mult("10".into()))])));
    auto_case(j, REG)
}
/// the same in amounts of automated transactions
fn c07_auto_blanks(ch: &mut Ch) -> Option<Case> {
    let cases: Vec<(&[&str], E)> = vec![
        (
            &["(", "amount", "*", "2", "-", "3 EUR", "/", "4", ")"],
            bin(
                Op::Sub,
                bin(Op::Mul, E::Amount, num("2")),
                bin(Op::Div, mon("3", "EUR"), num("4")),
            ),
        ),
        (
            &["(", "(", "amount", "+", "1 EUR", ")", "*", "abs", "(", "-", "2", ")", ")"],
            bin(
                Op::Mul,
                bin(Op::Add, E::Amount, mon("1", "EUR")),
                num("2"),
            ),
        ),
    ];
    let (toks, e) = ch.of(&cases);
    let n = toks.len();
    let g1 = ch.pick(n);
    let g2 = g1 + ch.pick(n - g1);
    let b1 = ch.pick(3);
    let b2 = if g2 == g1 { b1 } else { ch.pick(3) };
    let mut w = toks[0].to_string();
    for i in 0..n {
        w.push_str(if i == g1 {
            ["", "  ", "\t"][b1]
        } else if i == g2 {
            ["", "  ", "\t"][b2]
        } else {
            " "
        });
        if i + 1 < n {
            w.push_str(toks[i + 1]);
        }
    }
    let mut j = journal(vec![po("A:1", "7", "EUR"), el("Z")]);
    if ch.flag() {
        w.push_str("; comment");
    }
    let mut posts = vec![(Kind::Virt, "Auto", AutoAmt::Written(w, e))];
    if ch.flag() {
        posts.push((Kind::Virt, "Other", AutoAmt::Mult("2".into())));
    }
    j.push(Item::Auto(auto("/^A/", acc_re("^A"), posts)));
    auto_case(j, REG)
}
/// amounts in expressions: name of the commodity, side, blanks, sign
fn c07_commodities(ch: &mut Ch) -> Option<Case> {
    let k = ch.pick(56);
    let c: String = match k {
        0..=25 => format!("{}OK", (b'A' + k as u8) as char),
        26..=51 => format!("{}ok", (b'a' + (k - 26) as u8) as char),
        52 => "$".into(),
        53 => "€".into(),
        54 => "big co".into(),
        _ => "X".into(),
    };
    let quoted = c.contains(' ') || c == "X" || ch.flag();
    let name = if quoted { format!("\"{}\"", c) } else { c.clone() };
    let n = ch.of(&["7", "0.5", "-7"]);
    let before = ch.flag();
    let gap = ch.of(&[" ", "", "  ", "\t"]);
    // without quotes or blanks the number is taken for a part of the name
    if before && gap.is_empty() && !quoted {
        return None;
    }
    let w = if before { format!("{}{}{}", name, gap, n) } else { format!("{}{}{}", n, gap, name) };
    let op = ch.of(&[Op::Eq, Op::Gt]);
    let e = bin(op, E::Amount, mon(n, &c));
    let right = ch.flag();
    let o = if op == Op::Eq { "==" } else { ">" };
    let w = if right {
        format!("amount {} {}", o, w)
    } else if op == Op::Eq {
        format!("{} {} amount", w, o)
    } else {
        format!("{} < amount", w)
    };
    let j = journal(vec![po("A", "7", &c), po("B", "0.5", &c), po("C", "-7", &c), po("D", "-0.5", &c)]);
    text_case(j, w, e)
}
fn one_commodity() -> Journal {
    let mut j = rich();
    if let Item::Txn(t) = &mut j[1] {
        for p in t.posts.iter_mut() {
            p.amt.as_mut().unwrap().c = "EUR".into();
        }
    }
    j
}
/// Sums and orders of amounts in different commodities, sums of money and numbers, divisions by
/// nothing: errors, wherever they are, and never a result
fn c07_wrong(ch: &mut Ch) -> Option<Case> {
    let left = ch.of(&["amount", "(amount * 2)", "-amount", "abs(amount)", "3 EUR"]);
    let right = ch.of(&["5 USD", "(5 USD * 2)", "-5 USD", "0.01 USD", "abs(5 USD)", "5 EURO"]);
    let op = ch.of(&["+", "-", "<", "<=", ">", ">=", "+2", "-2", "/0", "/(2-2)", "/money", "*money"]);
    let swap = ch.flag();
    let (a, b) = if swap { (right, left) } else { (left, right) };
    let sums = ["+", "-", "+2", "-2", "/0", "/(2-2)", "/money", "*money"];
    let e = match op {
        "+2" => format!("({} + 2)", a),
        "-2" => format!("(2 - {})", a),
        "/0" => format!("({} / 0)", a),
        "/(2-2)" => format!("({} / (2 - 2))", a),
        "/money" => format!("({} / {})", a, b),
        "*money" => format!("({} * {})", a, b),
        _ => format!("({} {} {})", a, op, b),
    };
    let sum = sums.contains(&op);
    let cond = match ch.pick(6) {
        0 if sum => format!("{} > 0", e),
        0 => e.clone(),
        1 if sum => format!("not ({} == 0)", e),
        1 => format!("not {}", e),
        2 if sum => format!("any({} < 0)", e),
        2 => format!("any({})", e),
        3 if sum => format!("0 < {} * 2", e),
        3 => format!("({}) and amount > 0", e),
        4 if sum => format!("abs({}) > 1", e),
        4 => format!("({}) == (amount > 0)", e),
        // as the amount of an automated posting
        _ if sum => String::new(),
        _ => return None,
    };
    let place = if cond.is_empty() { 2 } else { ch.pick(2) };
    let base = "2020-01-01 x\n    A  1 EUR\n    Z  -1 EUR\n";
    let t = match place {
        0 => base.to_string(),
        1 => format!("= expr {}\n    (B)  1\n\n{}", cond, base),
        _ => format!("= /A/\n    (B)  {}\n\n{}", e, base),
    };
    case(format!("{}\n{}", t, cond), move |env| {
        let f = env.write("j.ledger", &t);
        for cmd in ["bal", "reg", "check"] {
            let mut args = vec![cmd, "-f", &f];
            if place == 0 {
                if cmd == "check" {
                    continue;
                }
                args.extend(["expr", &cond]);
            }
            let o = env.run(&args);
            if !o.refused() {
                return Err(format!("{:?} has no meaning, and {} ends with {:?}", if place == 2 { &e } else { &cond }, cmd, o.status));
            }
        }
        Ok(())
    })
}
/// Values of different kinds can't be compared: it is an error, and not false
fn c07_kinds(ch: &mut Ch) -> Option<Case> {
    // (kind, expression)
    let values = [
        (0, "amount"),
        (0, "2"),
        (0, "2 EUR"),
        (0, "(-amount)"),
        (0, "(amount * 2)"),
        (1, "date"),
        (1, "to_date('2020-01-01')"),
        (2, "'2020-01-01'"),
        (2, "tag('k')"),
        (2, "tag(/k/)"),
        (2, "tag('none')"),
        (2, "'x'"),
        (3, "account"),
        (4, "payee"),
        (5, "/x/"),
        (6, "(amount > 0)"),
        (6, "has_tag(/k/)"),
        (7, "note"),
    ];
    let (k1, a) = ch.of(&values);
    let (k2, b) = ch.of(&values);
    let op = ch.of(&["<", "<=", ">", ">=", "==", "!="]);
    let order = op.starts_with('<') || op.starts_with('>');
    // = and != between other things have their own rules: matching, or equal kinds
    if k1 == k2 && (k1 < 3 || k1 == 6) {
        return None;
    }
    if !order && (k1 == 5 || k2 == 5) {
        return None;
    }
    let e = format!("{} {} {}", a, op, b);
    let cond = match ch.pick(5) {
        0 => e.clone(),
        1 => format!("not ({})", e),
        2 => format!("any({})", e),
        3 => format!("({}) or amount > 0", e),
        _ => format!("amount > 0 and ({})", e),
    };
    let place = ch.pick(2);
    let base = "2020-01-01 x\n    A  1 EUR\n    ; k: v\n    Z  -1 EUR\n";
    let t = match place {
        0 => base.to_string(),
        _ => format!("= expr \"{}\"\n    (B)  1\n\n{}", cond, base),
    };
    case(format!("{}\n{}", t, cond), move |env| {
        let f = env.write("j.ledger", &t);
        for cmd in ["bal", "reg", "check"] {
            let mut args = vec![cmd, "-f", &f];
            if place == 0 {
                if cmd == "check" {
                    continue;
                }
                args.extend(["expr", &cond]);
            }
            let o = env.run(&args);
            if !o.refused() {
                return Err(format!("{:?} has no meaning, and {} ends with {:?}", cond, cmd, o.status));
            }
        }
        Ok(())
    })
}
fn c07_chains(ch: &mut Ch) -> Option<Case> {
    let n = 2 + ch.pick(ch.qt(30, 60));
    let pat = ch.pick(7);
    match pat {
        0..=3 => {
            let ops: &[Op] = match pat {
                0 => &[Op::Sub],
                1 => &[Op::Add, Op::Sub],
                2 => &[Op::Mul, Op::Add, Op::Div, Op::Sub],
                _ => &[Op::Div, Op::Mul],
            };
            let mut v = vec![(None, "3")];
            for i in 1..n {
                v.push((Some(ops[i % ops.len()]), ["2", "5", "4"][i % 3]));
            }
            // left associative, by hand: sum of products
            let mut terms: Vec<(Op, E)> = vec![(Op::Add, num("3"))];
            let mut written = String::from("3");
            for (op, x) in v[1..].iter() {
                let op = op.unwrap();
                written.push_str(&format!(" {} {}", op.text(), x));
                match op {
                    Op::Add | Op::Sub => terms.push((op, num(x))),
                    _ => {
                        let (o, e) = terms.pop().unwrap();
                        terms.push((o, bin(op, e, num(x))));
                    }
                }
            }
            let mut it = terms.into_iter();
            let mut e = it.next().unwrap().1;
            for (o, t) in it {
                e = bin(o, e, t);
            }
            let q = value(&e)?;
            let k = Rat::from(q.denom().clone());
            // the written text compares itself with its value
            let right = dec(&(q * k.clone()));
            let w = format!("({}) * {} == {}", written, dec(&k), right);
            text_case(journal(money_posts()), w, E::True)
        }
        _ => {
            let mut ors: Vec<E> = vec![];
            let mut written = String::new();
            let letters = ["p", "q", "r", "s"];
            for i in 0..n {
                let l = acc_re(letters[i * 3 % 4]);
                let neg = i % 5 == 2;
                let l = if neg { not(l) } else { l };
                let and = match pat {
                    4 => i % 2 == 1,
                    5 => i % 3 != 0,
                    _ => i % 4 == 3,
                };
                if i > 0 {
                    written.push_str(if and { " and " } else { " or " });
                }
                written.push_str(&l.text());
                if i > 0 && and {
                    let x = ors.pop().unwrap();
                    ors.push(bin(Op::And, x, l));
                } else {
                    ors.push(l);
                }
            }
            let mut it = ors.into_iter();
            let first = it.next().unwrap();
            let e = it.fold(first, |a, b| bin(Op::Or, a, b));
            text_case(journal(truth_posts(4)), written, e)
        }
    }
}
fn c07_nested(ch: &mut Ch) -> Option<Case> {
    let n = ch.pick(ch.qt(7, 9));
    let what = ch.pick(4);
    let mut s = String::new();
    let mut e;
    match what {
        0 => {
            e = bin(Op::Gt, E::Amount, num("2"));
            s.push_str("amount > 2");
            for _ in 0..n {
                s = format!("({})", s);
            }
        }
        1 => {
            e = num("1");
            s.push('1');
            for i in 0..n {
                s = format!("({}) - {}", s, i);
                e = bin(Op::Sub, e, num(&i.to_string()));
            }
            let q = value(&e)?;
            s = format!("{} == {}", s, dec(&q));
            e = E::True;
        }
        2 => {
            e = num("1");
            s.push('1');
            for i in 0..n {
                s = format!("{} - ({})", i, s);
                e = bin(Op::Sub, num(&i.to_string()), e);
            }
            let q = value(&e)?;
            s = format!("{} == {}", s, dec(&q));
            e = E::True;
        }
        _ => {
            e = acc_re("1");
            s.push_str("account =~ /1/");
            for i in 0..n {
                if i % 2 == 0 {
                    s = format!("not ({})", s);
                    e = not(e);
                } else {
                    s = format!("account =~ /A:{}/ or ({})", i, s);
                    e = bin(Op::Or, acc_re(&format!("A:{}", i)), e);
                }
            }
        }
    }
    text_case(journal(money_posts()), s, e)
}
fn c07_exact(ch: &mut Ch) -> Option<Case> {
    let xs = ["0.1", "0.2", "0.3", "1", "3", "9007199254740993", "18446744073709551617", "0.00000000000000000001"];
    let a = ch.of(&xs);
    let b = ch.of(&xs);
    let op = ch.of(&ARITH);
    let e = bin(op, num(a), num(b));
    let q = value(&e)?;
    let (l, r) = if is_dec(&q) {
        (e, dec(&q))
    } else {
        let k = Rat::from(q.denom().clone());
        (bin(Op::Mul, e, num(&dec(&k))), dec(&(q * k)))
    };
    let cmp = ch.of(&CMP);
    let delta = ch.of(&["0", "0.0000000000000000000000000000001", "-0.0000000000000000000000000000001"]);
    let r = dec(&(rat(&r) + rat(delta)));
    if ch.flag() {
        expr_case(journal(vec![po("A", "1", "EUR").kind(Kind::Virt)]), bin(cmp, l, num(&r)))
    } else {
        // with money
        let l = bin(op, bin(Op::Mul, E::Amount, num("1")), if op == Op::Mul || op == Op::Div { num(b) } else { mon(b, "EUR") });
        let r = if op == Op::Div {
            bin(Op::Div, mon(a, "EUR"), num(b))
        } else {
            mon(&r, "EUR")
        };
        expr_case(journal(vec![po("A", a, "EUR").kind(Kind::Virt)]), bin(cmp, l, r))
    }
}
/// in the filter of an automated transaction strings are written with simple quotes
fn auto_filter(e: &E) -> String {
    format!("expr \"{}\"", e.text().replace('"', "'"))
}
fn auto(text: &str, pred: E, posts: Vec<(Kind, &str, AutoAmt)>) -> Auto {
    Auto {
        text: text.to_string(),
        pred,
        comments: vec![],
        posts: posts
            .into_iter()
            .map(|(kind, acc, amt)| AutoPost {
                kind,
                acc: acc.to_string(),
                amt,
            })
            .collect(),
    }
}
fn auto_case(j: Journal, what: u32) -> Option<Case> {
    if let Err(e) = ledger(&j, false) {
        if e == "type error" {
            return None;
        }
    }
    journal_case(j, what)
}
fn c07_filters(ch: &mut Ch) -> Option<Case> {
    let (base, e): (Journal, E) = match ch.pick(4) {
        0 => (rich(), ch.of(&preds())),
        1 => {
            let n = 2 + ch.pick(2);
            let e = tree(ch, &truth_leaves(n), &[Op::And, Op::Or], &mut |ch, e| if ch.flag() { not(e) } else { e });
            (journal(truth_posts(n)), e)
        }
        2 => {
            let leaves: Vec<E> = [num("7"), num("2"), num("0.5")].to_vec();
            let e = tree(ch, &leaves, &ARITH, &mut |_, e| e);
            (journal(money_posts()), compare_value(ch, e)?)
        }
        _ => {
            let ps = preds();
            let a = ch.of(&ps[..20]);
            let b = ch.of(&ps[20..]);
            (rich(), bin(Op::And, a, not(b)))
        }
    };
    let mut j = base;
    j.push(Item::Auto(auto(
        &auto_filter(&e),
        e,
        vec![(Kind::Virt, "Auto", AutoAmt::Mult("10".into()))],
    )));
    auto_case(j, REG)
}
fn c07_amounts(ch: &mut Ch) -> Option<Case> {
    let e = match ch.pick(4) {
        0 => {
            let n = 1 + ch.pick(3);
            let leaves: Vec<E> = [num("7"), num("2"), num("0.5")][..n].to_vec();
            tree(ch, &leaves, &ARITH, &mut |ch, e| if ch.flag() { neg(e) } else { e })
        }
        1 => {
            let a = ch.of(&[E::Amount, neg(E::Amount), E::Abs(Box::new(E::Amount)), mon("3", "EUR")]);
            let b = ch.of(&[E::Amount, num("2"), mon("7", "EUR"), num("-0.5")]);
            let c = ch.of(&[E::Amount, num("3"), mon("0.5", "EUR"), neg(E::Amount)]);
            tree(ch, &[a, b, c], &ARITH, &mut |_, e| e)
        }
        2 => ch.of(&[
            E::Amount,
            neg(E::Amount),
            neg(neg(E::Amount)),
            E::Abs(Box::new(neg(E::Amount))),
            num("2"),
            num("-1"),
            mon("5", "USD"),
            mon("-5.005", "EUR"),
            bin(Op::Div, E::Amount, num("3")),
            bin(Op::Mul, bin(Op::Div, E::Amount, num("3")), num("3")),
        ]),
        _ => {
            let leaves: Vec<E> = [num("7"), num("2"), num("5"), E::Amount].to_vec();
            tree(ch, &leaves, &[Op::Mul, Op::Div, Op::Sub], &mut |_, e| e)
        }
    };
    let mut j = journal(vec![
        po("A:1", "7", "EUR").kind(Kind::Virt),
        po("A:2", "-0.25", "EUR").kind(Kind::Virt),
        po("B", "1", "EUR"),
        el("A:3"),
    ]);
    j.push(Item::Auto(auto("/^A/", acc_re("^A"), vec![(Kind::Virt, "Auto", AutoAmt::Expr(e))])));
    auto_case(j, REG)
}

// ------------------------------------------------------------------ C14

fn c14_base() -> Journal {
    txs(vec![
        tx(
            day(0),
            "Shop",
            vec![po("Exp:Food", "10", "EUR").note(" :fun:"), po("Exp:Home", "20.5", "EUR"), el("Cash")],
        ),
        tx(day(1), "Work", vec![po("Cash", "100", "EUR"), po("Income", "-100", "EUR")]),
        tx(day(1), "shop two", vec![po("Exp:Food", "-3", "USD"), po("Cash", "3", "USD"), po("B", "1", "EUR").kind(Kind::Virt)]),
        tx(day(2), "Sub", vec![po("Exp Sub:Sub One", "6", "EUR"), po("Exp Two", "-6", "EUR")]),
    ])
}
fn c14_pool() -> Vec<(&'static str, E)> {
    vec![
        ("/Food/", acc_re("Food")),
        ("food", acc_re("(?i)food")),
        ("/^Exp:/", acc_re("^Exp:")),
        ("@shop", bin(Op::Match, E::Payee, E::Re("(?i)shop".into()))),
        ("%fun", E::HasTag("(?i)fun".into())),
        ("food and @shop", bin(Op::And, acc_re("(?i)food"), bin(Op::Match, E::Payee, E::Re("(?i)shop".into())))),
        ("food cash", bin(Op::Or, acc_re("(?i)food"), acc_re("(?i)cash"))),
        ("income or /Home/", bin(Op::Or, acc_re("(?i)income"), acc_re("Home"))),
        ("expr \"amount < 0\"", bin(Op::Lt, E::Amount, num("0"))),
        ("expr amount>9", bin(Op::Gt, E::Amount, num("9"))),
        ("expr account=~/Food/", acc_re("Food")),
        ("nothing", acc_re("(?i)nothing")),
        ("/Auto/", acc_re("Auto")),
        ("/./", acc_re(".")),
        ("^b$", acc_re("(?i)^b$")),
        ("/Exp Sub/", acc_re("Exp Sub")),
        ("/Sub One/ /Home/", bin(Op::Or, acc_re("Sub One"), acc_re("Home"))),
        ("/Exp Sub/ and /One$/", bin(Op::And, acc_re("Exp Sub"), acc_re("One$"))),
        ("\"@shop two\"", bin(Op::Match, E::Payee, E::Re("(?i)shop two".into()))),
        ("\"sub one\" cash", bin(Op::Or, acc_re("(?i)sub one"), acc_re("(?i)cash"))),
        ("@shop \"sub one\"", bin(Op::Or, bin(Op::Match, E::Payee, E::Re("(?i)shop".into())), acc_re("(?i)sub one"))),
    ]
}
fn c14_amts() -> Vec<AutoAmt> {
    vec![
        AutoAmt::Mult("2".into()),
        AutoAmt::Mult("-0.5".into()),
        AutoAmt::Mult("0.333".into()),
        AutoAmt::Mult("1".into()),
        AutoAmt::Fixed(am("5", "EUR")),
        AutoAmt::Fixed(am("-1.005", "XYZ")),
        AutoAmt::Expr(neg(E::Amount)),
        AutoAmt::Expr(bin(Op::Mul, E::Amount, num("0.1"))),
        AutoAmt::Expr(num("3")),
    ]
}
fn c14_filters(ch: &mut Ch) -> Option<Case> {
    let (w, e) = ch.of(&c14_pool());
    let a = ch.of(&c14_amts());
    let shape = ch.pick(3);
    let posts = match shape {
        0 => vec![(Kind::Virt, "Auto:Food", a)],
        1 => vec![(Kind::Real, "Auto", a.clone()), (Kind::Real, "Other", opposite(&a))],
        _ => vec![(Kind::Brac, "Auto", a.clone()), (Kind::Brac, "Exp:Food", opposite(&a))],
    };
    let mut j = c14_base();
    j.push(Item::Auto(auto(w, e, posts)));
    auto_case(j, CHECK | REG | BAL)
}
fn opposite(a: &AutoAmt) -> AutoAmt {
    match a {
        AutoAmt::Mult(s) => AutoAmt::Mult(dec(&-rat(s))),
        AutoAmt::Fixed(x) => AutoAmt::Fixed(am(&dec(&-x.q()), &x.c)),
        AutoAmt::Written(..) => unreachable!(),
        AutoAmt::Expr(e) => AutoAmt::Expr(neg(e.clone())),
    }
}
fn several(ch: &mut Ch, n: usize, pool: &[(&'static str, E)]) -> Option<Case> {
    let mut j = c14_base();
    for i in 0..n {
        let (w, e) = ch.of(pool);
        let a = ch.of(&[AutoAmt::Mult("2".into()), AutoAmt::Fixed(am("5", "EUR"))]);
        let acc = ch.of(&["Auto", "Exp:Food"]);
        let mut posts = vec![(Kind::Virt, acc, a)];
        if i == 0 && ch.flag() {
            posts.push((Kind::Virt, "Cash", AutoAmt::Mult("-1".into())));
        }
        j.push(Item::Auto(auto(w, e, posts)));
    }
    auto_case(j, REG)
}
fn c14_several(ch: &mut Ch) -> Option<Case> {
    several(ch, 2, &c14_pool())
}
/// Two or three automated transactions whose filters and amounts are nearly the same text
fn c14_close(ch: &mut Ch) -> Option<Case> {
    let pay = |x: &str| bin(Op::Match, E::Payee, E::Re(x.into()));
    let gt = |n: &str| bin(Op::Gt, E::Amount, num(n));
    let tag = |n: &str| E::HasTag(n.into());
    let val = |n: &str, v: &str| bin(Op::Match, E::TagRe(n.into()), E::Re(v.into()));
    let p: Vec<(&str, E)> = vec![
        ("/Food/", acc_re("Food")),
        ("/food/", acc_re("food")),
        ("food", acc_re("(?i)food")),
        ("/Food /", acc_re("Food ")),
        ("Food$", acc_re("(?i)food$")),
        ("/^Food$/", acc_re("^Food$")),
        ("/Foo/", acc_re("Foo")),
        ("@Food", pay("(?i)Food")),
        ("%Food", tag("(?i)Food")),
        ("expr payee=~/Food/", pay("Food")),
        ("expr payee=~/food/", pay("food")),
        ("expr has_tag(/Food/)", tag("Food")),
        ("expr has_tag(/food/)", tag("food")),
        ("expr amount>1", gt("1")),
        ("expr amount>10", gt("10")),
        ("expr amount>1.0", gt("1.0")),
        ("expr any(amount>10)", E::Any(Box::new(gt("10")))),
        ("expr not(amount>10)", E::Not(Box::new(gt("10")), true)),
        ("expr tag(/food/)=~/^a$/", val("food", "^a$")),
        ("expr tag(/food/)=~/^A$/", val("food", "^A$")),
        ("expr tag(/Food/)=~/^a$/", val("Food", "^a$")),
    ];
    let a = ch.pick(p.len());
    let b = ch.pick(p.len());
    if a == b {
        return None;
    }
    let mut which = vec![a, b];
    if ch.thorough() {
        which.push(ch.pick(p.len()));
    }
    let amts = vec![
        AutoAmt::Mult("2".into()),
        AutoAmt::Mult("20".into()),
        AutoAmt::Fixed(am("2", "EUR")),
        AutoAmt::Expr(bin(Op::Mul, E::Amount, num("2"))),
        AutoAmt::Expr(bin(Op::Mul, E::Amount, num("20"))),
    ];
    let k = ch.pick(amts.len());
    let mut j = txs(vec![
        tx(
            day(0),
            "Food and more",
            vec![po("Food", "10", "EUR"), po("food one", "1", "EUR").note(" food: a"), po("FOOD:Two", "100", "EUR").note(" Food: a"), po("Foo", "5", "EUR").note(" food: A"), el("Cash")],
        ),
        tx(day(1), "fast food", vec![po("Food bar", "3", "EUR").note(" :Food:"), po("Cash", "-3", "EUR")]),
        tx(day(1), "x", vec![po("seafood", "11", "EUR").note(" :food:"), po("Cash", "-11", "EUR")]),
    ]);
    for (i, w) in which.into_iter().enumerate() {
        let (t, e) = p[w].clone();
        j.push(Item::Auto(auto(t, e, vec![(Kind::Virt, ["Va", "Vb", "Vc"][i], amts[(k + i) % amts.len()].clone())])));
    }
    auto_case(j, REG)
}
fn c14_several_deep(ch: &mut Ch) -> Option<Case> {
    several(ch, 3, &c14_pool())
}
fn c14_balance(ch: &mut Ch) -> Option<Case> {
    let base = txs(vec![
        tx(day(0), "a", vec![po("A", "10", "EUR"), po("B", "-10", "EUR")]),
        tx(day(1), "b", vec![po("A", "4", "USD"), po("C", "-3", "EUR")]),
        tx(day(2), "c", vec![po("D", "10", "EUR"), po("E", "-10", "EUR")]),
    ]);
    let n = 1 + ch.pick(2);
    let filters = [("/^A/", acc_re("^A")), ("/^[AB]/", acc_re("^[AB]")), ("/D/", acc_re("D"))];
    let mut j = base;
    for _ in 0..n {
        let (w, e) = ch.of(&filters);
        let mut posts = vec![];
        let k = 1 + ch.pick(2);
        for x in 0..k {
            let kind = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
            let a = ch.of(&[AutoAmt::Mult("1".into()), AutoAmt::Mult("-1".into()), AutoAmt::Fixed(am("1", "EUR"))]);
            posts.push((kind, ["X", "Y"][x], a));
        }
        j.push(Item::Auto(auto(w, e, posts)));
    }
    auto_case(j, if n == 1 { CHECK | REG | PRICES } else { CHECK | REG })
}
fn c14_kinds(ch: &mut Ch) -> Option<Case> {
    let mut posts = vec![];
    let shape = ch.pick(6);
    match shape {
        0 => posts.extend(vec![po("A", "10", "EUR"), po("B", "5", "USD"), el("C")]),
        1 => posts.extend(vec![po("A", "3", "STK").at("2", "EUR"), el("C")]),
        2 => posts.extend(vec![po("A", "-3", "STK").att("7", "EUR"), po("C", "7", "EUR")]),
        3 => posts.extend(vec![
            po("A", "1", "EUR").kind(Kind::Virt),
            po("B", "2", "EUR").kind(Kind::Brac),
            po("C", "-2", "EUR").kind(Kind::Brac),
        ]),
        4 => posts.extend(vec![po("A", "0", "EUR"), po("B", "1", "EUR"), el("C")]),
        _ => posts.extend(vec![po("A", "10", "EUR").eq("10", "EUR"), el("C")]),
    }
    let mut v = vec![tx(day(0), "x", posts)];
    if ch.flag() {
        v.push(tx(day(1), "y", vec![po("A", "1", "EUR"), po("C", "-1", "EUR")]));
    }
    let filters = [("/A/", acc_re("A")), ("/C/", acc_re("C")), ("/./", acc_re("."))];
    let (w, e) = ch.of(&filters);
    let a = ch.of(&c14_amts());
    let kind = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
    let posts = match kind {
        Kind::Virt => vec![(kind, "T", a)],
        _ => vec![(kind, "T", a.clone()), (kind, "U", opposite(&a))],
    };
    let mut j = txs(v);
    j.push(Item::Auto(auto(w, e, posts)));
    auto_case(j, CHECK | REG | BAL | PRICES)
}
fn c14_position(ch: &mut Ch) -> Option<Case> {
    // automated transactions anywhere, also in an included file, transactions in any order of dates
    let base = c14_base();
    let pos = ch.pick(4);
    let pos2 = ch.pick(4);
    let inc = ch.pick(3);
    let rev = ch.flag();
    let a1 = Item::Auto(auto("/Food/", acc_re("Food"), vec![(Kind::Virt, "T1", AutoAmt::Mult("0.1".into()))]));
    let a2 = Item::Auto(auto("%fun", E::HasTag("(?i)fun".into()), vec![(Kind::Virt, "T2", AutoAmt::Fixed(am("1", "EUR")))]));
    let mut j = base;
    if rev {
        j.reverse();
    }
    j.insert(pos, a1.clone());
    let k = pos2.min(j.len());
    j.insert(k, a2.clone());
    let whole = j.clone();
    let main: String = match inc {
        0 => text(&j),
        _ => {
            // one of them lives in another file
            let which = if inc == 1 { "T1" } else { "T2" };
            j.iter()
                .map(|x| match x {
                    Item::Auto(a) if a.posts[0].acc == which => "include auto.ledger\n".to_string(),
                    x => text(&[x.clone()]),
                })
                .collect::<Vec<_>>()
                .join("\n")
        }
    };
    let other = text(&[if inc == 1 { a1 } else { a2 }]);
    case(format!("{}\n{}\n{}", inc, main, other), move |env| {
        env.write("auto.ledger", &other);
        let f = env.write("j.ledger", &main);
        expect_file(env, &f, &ledger(&whole, false), REG | BAL, &[])
    })
}
fn c14_tags(ch: &mut Ch) -> Option<Case> {
    let mut j = c14_base();
    let (w, e) = ch.of(&c14_pool());
    let mut a = auto(w, e, vec![]);
    a.comments = ch.of(&[vec![" :auto:"], vec![" key: value"], vec![" :x:y:", " key: v"], vec![" no tags here"], vec![" :fun:y:"], vec![" :y:fun:", " key: v"], vec![" :fun:", " :auto:"]])
        .into_iter()
        .map(|x| x.to_string())
        .collect();
    if ch.flag() {
        a.posts.push(AutoPost { kind: Kind::Virt, acc: "T".into(), amt: AutoAmt::Mult("1".into()) });
    }
    j.push(Item::Auto(a));
    if ch.flag() {
        j.push(Item::Auto(auto("%auto", E::HasTag("(?i)auto".into()), vec![(Kind::Virt, "Second", AutoAmt::Mult("1".into()))])));
    }
    let (q, e) = ch.of(&[
        (vec!["%auto"], E::HasTag("(?i)auto".into())),
        (vec!["%^y$"], E::HasTag("(?i)^y$".into())),
        (vec!["%fun"], E::HasTag("(?i)fun".into())),
        (vec!["expr", "tag(\"key\") =~ /v/"], bin(Op::Match, E::TagStr("key".into()), E::Re("v".into()))),
        (vec!["expr", "tag(/k/) == \"value\""], bin(Op::Eq, E::TagRe("k".into()), E::Str("value".into()))),
    ]);
    let sel = Sel { query: q.iter().map(|x| x.to_string()).collect(), pred: Some(e), ..Default::default() };
    let t = text(&j);
    ledger(&j, false).ok()?;
    case(format!("{:?} {}", sel.query, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_reports(env, &f, &l, &sel, None, true)
    })
}
fn c14_names(ch: &mut Ch) -> Option<Case> {
    let mut j: Journal = vec![
        Item::Account { name: "Tax:VAT".into(), aliases: vec!["vat".into()], payees: vec![], extra: vec![] },
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] },
    ];
    if ch.flag() {
        j.clear();
    }
    let acc = ch.of(&["vat", "VAT", "Tax:VAT", "tax:vat", "Other one", "Ñ:日本"]);
    let c = ch.of(&["€", "eur", "EUR", "\"odd 1\"", "XYZ"]);
    let kind = ch.of(&[Kind::Real, Kind::Virt, Kind::Brac]);
    let c = c.trim_matches('"');
    let a = AutoAmt::Fixed(am("5", c));
    let mut posts = vec![(kind, acc, a.clone())];
    if kind != Kind::Virt {
        posts.push((kind, "Bal", opposite(&a)));
    }
    let au = Item::Auto(auto("/Food/", acc_re("Food"), posts));
    let first = ch.flag();
    if first {
        j.insert(0, au.clone());
    }
    j.push(Item::Txn(tx(day(0), "x", vec![po("Food", "1", "EUR"), el("Cash")])));
    j.push(Item::Txn(tx(day(1), "x", vec![po("Tax:VAT", "1", "EUR"), el("Cash")])));
    if !first {
        j.push(au);
    }
    journal_case(j, REG | BAL | LISTS)
}
fn c14_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(30, 80));
    let m = 1 + ch.pick(4);
    let shape = ch.pick(3);
    let mut v = vec![];
    match shape {
        // many postings in a transaction, many transactions, many automated transactions
        0 => {
            let mut posts: Vec<Post> = (0..n).map(|i| po(&format!("A:{}", i % 6), &format!("{}.5", i), "EUR")).collect();
            posts.push(el("Z"));
            v.push(tx(day(0), "x", posts));
        }
        _ => {
            for i in 0..n {
                v.push(tx(day((i * 3 % 7) as u32), &format!("t{}", i), vec![po(&format!("A:{}", i % 6), &format!("{}", i + 1), "EUR"), el("Z")]));
            }
        }
    }
    let mut j = txs(v);
    let autos = if shape == 2 { m * 5 } else { m };
    for i in 0..autos {
        let re = format!("A:{}", i % 6);
        j.push(Item::Auto(auto(
            &format!("/{}/", re),
            acc_re(&re),
            vec![
                (Kind::Real, &format!("T{}", i), AutoAmt::Mult(format!("0.{}", i + 1))),
                (Kind::Real, "Z", AutoAmt::Mult(format!("-0.{}", i + 1))),
            ],
        )));
    }
    journal_case(j, REG | BAL)
}
fn c14_sizes(ch: &mut Ch) -> Option<Case> {
    let a = ch.of(&super::balancing::SIZES);
    let m = ch.of(&["0.1", "-3", "0.0000001", "123456789.987654321", "0"]);
    let mut j = txs(vec![tx(day(0), "x", vec![po("A", a, "EUR"), el("B")])]);
    j.push(Item::Auto(auto(
        "/A/",
        acc_re("A"),
        vec![(Kind::Real, "T", AutoAmt::Mult(m.into())), (Kind::Real, "U", AutoAmt::Mult(dec(&-rat(m))))],
    )));
    // to the last digit
    let q = rat(a) * rat(m);
    if ch.flag() {
        j.push(Item::Txn(tx(day(1), "y", vec![po("T", "0", "EUR").eq(&dec(&q), "EUR")])));
        // the assertion sees automated postings only once they are there
        return None;
    }
    journal_case(j, REG | BAL)
}

// ------------------------------------------------------------------ C18

fn forms() -> Vec<&'static str> {
    vec![
        " :alpha:",
        " :alpha:beta:",
        " some words :beta:",
        " alpha: value",
        " Beta: other value",
        ":gamma:",
        "gamma:x",
        " plain words",
        " :alpha:beta:gamma:",
    ]
}
fn queries() -> Vec<(Vec<&'static str>, E)> {
    let re = |x: &str| E::Re(x.to_string());
    vec![
        (vec!["%alpha"], E::HasTag("(?i)alpha".into())),
        (vec!["%beta"], E::HasTag("(?i)beta".into())),
        (vec!["%gamma"], E::HasTag("(?i)gamma".into())),
        (vec!["%^a"], E::HasTag("(?i)^a".into())),
        (vec!["%a$"], E::HasTag("(?i)a$".into())),
        (vec!["expr", "has_tag(/Beta/)"], E::HasTag("Beta".into())),
        (vec!["expr", "has_tag(/^beta$/)"], E::HasTag("^beta$".into())),
        (vec!["expr", "tag(\"alpha\") =~ /value/"], bin(Op::Match, E::TagStr("alpha".into()), re("value"))),
        (vec!["expr", "tag(/eta/) =~ /other value$/"], bin(Op::Match, E::TagRe("eta".into()), re("other value$"))),
        (vec!["expr", "tag(\"gamma\") == \"x\""], bin(Op::Eq, E::TagStr("gamma".into()), E::Str("x".into()))),
    ]
}
/// where a comment may be: 0 first line, 1 line below it, 2 with the first posting, 3 below it,
/// 4 with the second, 5 below it, 6 with the third (no amount), 7 below it
fn put(t: &mut Txn, place: usize, c: &str) -> bool {
    match place {
        0 => {
            if t.hdr.is_some() {
                return false;
            }
            t.hdr = Some(c.to_string())
        }
        1 => t.pre.push(c.to_string()),
        p => {
            let x = &mut t.posts[(p - 2) / 2];
            if p % 2 == 0 {
                if x.inline.is_some() {
                    return false;
                }
                x.inline = Some(c.to_string());
            } else {
                x.after.push(c.to_string());
            }
        }
    }
    true
}
fn c18_txn(d: u32, name: &str) -> Txn {
    tx(day(d), name, vec![po("A:alpha", "1", "EUR"), po("B", "2", "USD"), el("C")])
}
fn tag_case(j: Journal, qs: Vec<(Vec<&'static str>, E)>) -> Option<Case> {
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        for (q, e) in &qs {
            let sel = Sel {
                query: q.iter().map(|x| x.to_string()).collect(),
                pred: Some(e.clone()),
                ..Default::default()
            };
            expect_reports(env, &f, &l, &sel, None, true)?;
        }
        Ok(())
    })
}
fn placed(ch: &mut Ch, n: usize, fs: &[&'static str], qs: Vec<(Vec<&'static str>, E)>) -> Option<Case> {
    let mut t = c18_txn(0, "x");
    for _ in 0..n {
        let place = ch.pick(8);
        let f = ch.of(fs);
        if !put(&mut t, place, f) {
            return None;
        }
    }
    tag_case(txs(vec![t, c18_txn(1, "other")]), qs)
}
fn c18_one(ch: &mut Ch) -> Option<Case> {
    placed(ch, 1, &forms(), queries())
}
fn c18_two(ch: &mut Ch) -> Option<Case> {
    let f = forms();
    let sub = [f[0], f[2], f[3], f[4], f[6], f[7]];
    placed(ch, 2, &sub, queries()[..8].to_vec())
}
fn c18_three(ch: &mut Ch) -> Option<Case> {
    let f = forms();
    placed(ch, 3, &[f[0], f[2], f[3], f[7]], queries()[..8].to_vec())
}
fn c18_values(ch: &mut Ch) -> Option<Case> {
    let vals = ["v", "two words", "ñandú", "12.5", "a/b", "UPPER", "x-y_z", "2020-01-01"];
    let v = ch.of(&vals);
    let name = ch.of(&["key", "Key name", "k-1", "clé"]);
    let place = ch.pick(8);
    let sp = ch.of(&["", " "]);
    let mut t = c18_txn(0, "x");
    put(&mut t, place, &format!(" {}:{}{}", name, sp, v));
    let j = txs(vec![t, c18_txn(1, "other")]);
    let txt = text(&j);
    case(txt.clone(), move |env| {
        let f = env.write("j.ledger", &txt);
        let l = ledger(&j, false)?;
        for e in [
            bin(Op::Eq, E::TagStr(name.into()), E::Str(v.into())),
            bin(Op::Ne, E::TagStr(name.into()), E::Str(v.into())),
            bin(Op::Eq, E::TagRe(format!("^{}$", name)), E::Str(v.into())),
            bin(Op::Eq, E::TagStr(name.into()), E::Str(format!("{} ", v))),
            bin(Op::Eq, E::TagStr(name[1..].into()), E::Str(v.into())),
            bin(Op::Match, E::TagStr(name.into()), E::Re("w".into())),
            bin(Op::Match, E::TagStr(name.to_uppercase()), E::Re(".".into())),
        ] {
            expect_reports(env, &f, &l, &expr_sel(e), None, true)?;
        }
        Ok(())
    })
}
fn c18_several(ch: &mut Ch) -> Option<Case> {
    // tags do not leak to other transactions, whatever the order of dates and positions
    let n = 2 + ch.pick(2);
    let mut v = vec![];
    for i in 0..n {
        let d = ch.pick(2) as u32;
        let mut t = c18_txn(d, &format!("t{}", i));
        let place = ch.pick(5);
        let c = [" :alpha:", " beta: v", " :gamma:"][i];
        if place < 4 {
            put(&mut t, [0, 1, 2, 7][place], c);
        }
        v.push(t);
    }
    tag_case(txs(v), queries()[..3].to_vec())
}
fn c18_filled(ch: &mut Ch) -> Option<Case> {
    // the posting without amount in any place, filled with one or two commodities
    let pos = ch.pick(3);
    let two = ch.flag();
    let mut posts = vec![po("A", "1", "EUR"), po("B", "2", if two { "USD" } else { "EUR" })];
    posts.insert(pos, el("C"));
    let mut t = tx(day(0), "x", posts);
    let p1 = ch.pick(9);
    let p2 = ch.pick(9);
    if p1 < 8 && !put(&mut t, p1, " :alpha:") {
        return None;
    }
    if p2 < 8 && !put(&mut t, p2, " beta: v") {
        return None;
    }
    tag_case(txs(vec![t]), queries()[..3].to_vec())
}
fn c18_none(ch: &mut Ch) -> Option<Case> {
    // no tags: the words are elsewhere, or the comment is not attached to any posting
    let k = ch.pick(7);
    let raw = match k {
        0 => "; :alpha:beta:gamma:\n2020-01-01 x\n    A  1 EUR\n    B\n",
        1 => "2020-01-01 alpha: beta\n    A  1 EUR\n    B\n",
        2 => "2020-01-01 x\n    A:alpha:beta:gamma  1 EUR\n    B\n",
        3 => "2020-01-01 x\n    A  1 EUR\n    B\n\n; :alpha:\n# beta: x\n\n2020-01-02 y\n    A  1 EUR\n    B\n",
        4 => "tag alpha\ntag beta\n\n2020-01-01 x\n    A  1 EUR\n    B\n",
        5 => "2020-01-01 x  ; alpha beta gamma\n    A  1 EUR  ; alpha\n    B\n    ; gamma\n",
        _ => "2020-01-01 x\n    A  1 \"alpha\"\n    B\n",
    };
    let q = ch.of(&queries());
    let raw = raw.to_string();
    case(format!("{:?} {}", q.0, raw), move |env| {
        let f = env.write("j.ledger", &raw);
        let mut a = vec!["reg", "-f", &f];
        a.extend(q.0.iter());
        let o = env.run(&a);
        must_ok("reg", &o)?;
        if !o.stdout.is_empty() {
            return Err(format!("{:?} selects {:?}", q.0, o.stdout));
        }
        Ok(())
    })
}
fn c18_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(25, 60));
    let mode = ch.pick(3);
    let mut t = c18_txn(0, "x");
    match mode {
        // a long list of tags, many comment lines, many postings
        0 => {
            let s: String = (0..n).map(|i| format!(":t{}x", i)).collect();
            put(&mut t, 2, &format!(" {}:", s));
        }
        1 => {
            for i in 0..n {
                put(&mut t, 5, &format!(" t{}x: v{}", i, i));
            }
        }
        _ => {
            t.posts = (0..n)
                .map(|i| po(&format!("A:{}", i), "1", "EUR").note(&format!(" t{}x: v{}", i, i)))
                .collect();
            t.posts.push(el("Z"));
        }
    }
    let j = txs(vec![t]);
    let txt = text(&j);
    case(txt.clone(), move |env| {
        let f = env.write("j.ledger", &txt);
        let l = ledger(&j, false)?;
        for i in [0, n / 2, n - 1, n] {
            let e = E::HasTag(format!("^t{}x$", i));
            expect_reports(env, &f, &l, &expr_sel(e), None, true)?;
            let e = bin(Op::Eq, E::TagStr(format!("t{}x", i)), E::Str(format!("v{}", i)));
            expect_reports(env, &f, &l, &expr_sel(e), None, true)?;
        }
        Ok(())
    })
}

/// Regular expressions of every syntax
pub const REGEXES: [&str; 46] = [
    "A\\.b", "A.b", "a\\.B", "\\bfood", "food\\b", "\\Bood", "\\d", "\\d$", "\\D\\d\\D", "^\\w+$", "\\w+:\\w+$", "\\W", "\\s", "^\\S+$",
    "[^a-zA-Z: ]", "[[:digit:]]", "[0-9]{2}", "o{2}", "o{2,}d", "(a|b)c?$", "^(Food|Año)", "^(?:x_y|A-b)$", "(?i)^FOOD", "(?i)food(?-i)A", "(?i:f)ood", "o*", "o+?d", "^$", "",
    "|Cash", "Cash|", "\\p{L}\\p{L}ñ", "ñ", "Ñ", "(?i)Ñ", "añ.$", "\\x41", "\\$5", "\\+", "a\\+b", "\\(", "[.]", "[\\w]-[\\w]", "^.{4}$", "\\AFood\\z", "x_y",
];
pub fn regex_journal() -> Journal {
    let names = ["Food", "Food:A12", "Seafood bar", "A.b", "Axb", "x_y", "A-b", "Año", "El año", "Cash", "a+b", "US$5", "bc", "b(c)d"];
    let mut j = vec![];
    for (i, n) in names.iter().enumerate() {
        let m = names[(i + 5) % names.len()];
        j.push(tx(
            day(i as u32 / 4),
            m,
            vec![
                po(n, &format!("{}", 1 << i), "EUR").note(&format!(" key: {}", names[(i + 3) % names.len()])),
                po(names[(i + 9) % names.len()], &format!("-{}", 1 << i), "EUR"),
            ],
        ));
    }
    // names of tags are words
    for (i, n) in ["Food", "food2", "x_y", "A-b", "año", "A.b"].iter().enumerate() {
        j.push(tx(day(5), "tags", vec![po("T", &format!("{}.5", i), "EUR").note(&format!(" :{}:", n)), el("U")]));
    }
    txs(j)
}
fn regex_expr(ch: &mut Ch) -> E {
    let r = ch.of(&REGEXES).to_string();
    match ch.pick(4) {
        0 => acc_re(&r),
        1 => bin(Op::Match, E::Payee, E::Re(r)),
        2 => E::HasTag(r),
        _ => bin(Op::Match, E::TagStr("key".into()), E::Re(r)),
    }
}
fn c07_regexes(ch: &mut Ch) -> Option<Case> {
    let e = regex_expr(ch);
    let e = match ch.pick(3) {
        0 => e,
        1 => not(e),
        _ => bin(Op::And, e, E::Any(Box::new(regex_expr(ch)))),
    };
    expr_case(regex_journal(), e)
}
fn c14_regexes(ch: &mut Ch) -> Option<Case> {
    let r = ch.of(&REGEXES);
    let (w, e) = match ch.pick(6) {
        0 => (format!("/{}/", r), acc_re(r)),
        1 if r.is_empty() => return None,
        1 | 2 | 3 if r.contains(' ') => return None,
        1 => (r.to_string(), acc_re(&format!("(?i){}", r))),
        2 => (format!("@{}", r), bin(Op::Match, E::Payee, E::Re(format!("(?i){}", r)))),
        3 => (format!("%{}", r), E::HasTag(format!("(?i){}", r))),
        4 => (format!("expr account=~/{}/", r), acc_re(r)),
        _ => (format!("expr any(payee =~ /{}/)", r).replace(" =~ ", "=~"), E::Any(Box::new(bin(Op::Match, E::Payee, E::Re(r.to_string()))))),
    };
    let mut j = regex_journal();
    j.insert(0, Item::Auto(auto(&w, e, vec![(Kind::Virt, "Auto:Food", ch.of(&c14_amts()))])));
    auto_case(j, CHECK | REG)
}

/// Two tags with names that are nearly the same, in one comment, in two comments, in two places
fn c18_close(ch: &mut Ch) -> Option<Case> {
    let names = ["tag", "Tag", "TAG", "tag2", "tag-", "ta", "a", "t", "tág", "tag_2", "x tag"];
    let a = ch.of(&names);
    let b = ch.of(&names);
    if a == b {
        return None;
    }
    let how = ch.pick(7);
    let mut t = c18_txn(0, "x");
    let spaced = a.contains(' ') || b.contains(' ');
    match how {
        0 | 1 if spaced => return None,
        0 => drop(put(&mut t, 2, &format!(" :{}:{}:", a, b))),
        1 => drop(put(&mut t, 3, &format!(" :{}:x:{}:", a, b))),
        2 => {
            put(&mut t, 2, &format!(" {}: one", a));
            put(&mut t, 3, &format!(" {}: two", b));
        }
        3 => {
            put(&mut t, 1, &format!(" {}: one", a));
            put(&mut t, 5, &format!(" {}: two", b));
        }
        4 if spaced => return None,
        4 => {
            put(&mut t, 3, &format!(" :{}:", a));
            put(&mut t, 3, &format!(" {}: two", b));
        }
        5 => {
            // the value is the name of the other
            put(&mut t, 2, &format!(" {}: {}", a, b));
        }
        _ => {
            put(&mut t, 2, &format!(" {}: one", a));
            put(&mut t, 4, &format!(" {}: one", b));
        }
    }
    let j = txs(vec![t, c18_txn(1, "other")]);
    let txt = text(&j);
    case(txt.clone(), move |env| {
        let f = env.write("j.ledger", &txt);
        let l = ledger(&j, false)?;
        for n in [a, b] {
            for e in [
                E::HasTag(format!("^{}$", n)),
                E::HasTag(format!("{}", n)),
                bin(Op::Match, E::TagStr(n.into()), E::Re("one".into())),
                bin(Op::Match, E::TagStr(n.into()), E::Re("two".into())),
                bin(Op::Match, E::TagRe(format!("^{}$", n)), E::Re("two".into())),
                bin(Op::Match, E::TagStr(n.into()), E::Re(format!("^{}$", b))),
            ] {
                expect_reports(env, &f, &l, &expr_sel(e), None, true)?;
            }
        }
        Ok(())
    })
}
