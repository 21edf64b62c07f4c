//! C12, C13, C15: includes, names, layout
use super::order::letters;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            spaces: vec![
                space("graphs of three files", c12_graphs),
                space("spellings of the path", c12_spellings),
                space("loops by any name", c12_loops),
                space("globs", c12_globs),
                space("folders that look like patterns", c12_folders),
                space("files that are not there", c12_missing),
                space("globs that reach a loop", c12_glob_loops),
                space("what is around an include", c12_around),
                space("chains and repetitions", c12_long),
                space("directives across files", c12_directives),
                space("the same declared in several files", c12_again),
                space("links", c12_links),
                space("wrong files", c12_wrong),
                deep("graphs of four files", c12_graphs4),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C13",
            spaces: vec![
                space("spellings of an account", c13_accounts),
                space("spellings of a commodity", c13_commodities),
                space("commodities in costs, prices and conversion", c13_costs),
                space("spellings of a payee", c13_payees),
                space("accounts by payee", c13_unknown),
                space("names that are almost the same", c13_distinct),
                space("undeclared names that differ in case", c13_undeclared),
                space("aliases in automated transactions and queries", c13_auto),
                space("names with marks", c13_marks),
                space("several declarations", c13_several),
                space("declared twice", c13_twice),
                space("many aliases", c13_many),
                space("assertions by any name", c13_assert),
                deep("longer histories of spellings", c13_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
        Prop {
            id: "C15",
            spaces: vec![
                space("all layouts of a small journal", c15_small),
                space("pairs of layout choices on a rich journal", c15_rich),
                space("blanks between account and amount", c15_gap),
                space("forms of an amount", c15_amounts),
                space("comments everywhere", c15_comments),
                space("blank lines everywhere", c15_blank),
                space("dates", c15_dates),
                space("account names with spaces", c15_names),
                space("headers", c15_headers),
                space("blanks around comments and tags", c15_notes),
                space("directives", c15_directives),
                space("widths", c15_widths),
                deep("all layouts of a rich journal", c15_deep),
            ],
            assumptions: ASSUME.to_vec(),
        },
    ]
}

// ------------------------------------------------------------------ C12

fn mark(name: &str) -> Item {
    // all on the same day: the register shows the order in which they were read
    Item::Txn(tx(day(0), name, vec![po(&format!("A:{}", name), "1", "EUR"), el("Z")]))
}
#[derive(Clone, Debug)]
enum Part {
    It(Item),
    /// the written path, and the files that it stands for
    Inc(String, Vec<usize>),
}
#[derive(Clone, Debug)]
struct File {
    name: String,
    parts: Vec<Part>,
}
fn file_text(f: &File) -> String {
    let mut t = String::new();
    for p in &f.parts {
        match p {
            Part::It(i) => t.push_str(&text(&[i.clone()])),
            Part::Inc(s, _) => t.push_str(&format!("include {}\n", s)),
        }
    }
    t
}
/// None: there is a loop
fn expand(files: &[File], k: usize, open: &mut Vec<usize>, out: &mut Journal) -> Option<()> {
    if open.contains(&k) {
        return None;
    }
    open.push(k);
    for p in &files[k].parts {
        match p {
            Part::It(i) => out.push(i.clone()),
            Part::Inc(_, ks) => {
                for x in ks {
                    expand(files, *x, open, out)?;
                }
            }
        }
    }
    open.pop();
    Some(())
}
fn files_case(files: Vec<File>, main: String, what: u32) -> Option<Case> {
    let texts: Vec<(String, String)> = files.iter().map(|f| (f.name.clone(), file_text(f))).collect();
    let key = format!("{} {:?}", main, texts);
    case(key, move |env| {
        for (n, t) in &texts {
            env.write(n, t);
        }
        let main = main.replace("DIR", env.dir.to_str().unwrap());
        let mut j = vec![];
        match expand(&files, 0, &mut vec![], &mut j) {
            None => expect_rejected(env, &main, ALL, "include loop", &[]),
            Some(()) => {
                expect_file(env, &main, &ledger(&j, false), what, &[])?;
                if what & PRICES != 0 {
                    // and the prices in the order of the text, as if pasted
                    let g = env.write("pasted.txt", &text(&j));
                    let a = env.run(&["prices", "-f", &main]);
                    let b = env.run(&["prices", "-f", &g]);
                    if a.stdout != b.stdout {
                        return Err(format!("prices with include:\n{}\n--- pasted:\n{}", a.stdout, b.stdout));
                    }
                }
                Ok(())
            }
        }
    })
}
fn graph(ch: &mut Ch, names: &[&str], slots: &[usize]) -> Vec<File> {
    names
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let mut parts = vec![Part::It(mark(&format!("{}0", i)))];
            for s in 0..slots[i] {
                let c = ch.pick(names.len() + 1);
                if c > 0 {
                    parts.push(Part::Inc(names[c - 1].to_string(), vec![c - 1]));
                }
                parts.push(Part::It(mark(&format!("{}{}", i, s + 1))));
            }
            File { name: n.to_string(), parts }
        })
        .collect()
}
fn c12_graphs(ch: &mut Ch) -> Option<Case> {
    let f = graph(ch, &["main.ledger", "a.ledger", "b.ledger"], &[2, 2, 2]);
    files_case(f, "DIR/main.ledger".into(), REG)
}
fn c12_graphs4(ch: &mut Ch) -> Option<Case> {
    let f = graph(ch, &["main.ledger", "a.ledger", "b.ledger", "c.ledger"], &[2, 2, 1, 1]);
    files_case(f, "main.ledger".into(), REG | BAL)
}
fn c12_spellings(ch: &mut Ch) -> Option<Case> {
    // d/main.ledger includes something, which includes something else
    let (path1, file1) = ch.of(&[
        ("a.ledger", "d/a.ledger"),
        ("./a.ledger", "d/a.ledger"),
        ("e/a.ledger", "d/e/a.ledger"),
        ("e/../a.ledger", "d/a.ledger"),
        ("../a.ledger", "a.ledger"),
        ("../d/a.ledger", "d/a.ledger"),
        ("../d/e/f/../a.ledger", "d/e/a.ledger"),
        ("with space.ledger", "d/with space.ledger"),
        ("ñ é/日.ledger", "d/ñ é/日.ledger"),
        ("noext", "d/noext"),
        (".hidden", "d/.hidden"),
        ("e/f/a.dat", "d/e/f/a.dat"),
        ("a-b_c.1.ledger", "d/a-b_c.1.ledger"),
    ]);
    let path2 = ch.of(&["x.ledger", "sub/x.ledger", "../x.ledger", "./sub/../x.ledger"]);
    let dir1 = match file1.rfind('/') {
        Some(k) => file1[..k].to_string(),
        None => String::new(),
    };
    // where path2 leads
    let mut parts: Vec<String> = dir1.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    for p in path2.split('/') {
        match p {
            "." => {}
            ".." => {
                if parts.pop().is_none() {
                    return None;
                }
            }
            p => parts.push(p.to_string()),
        }
    }
    let file2 = parts.join("/");
    let main = ch.of(&["DIR/d/main.ledger", "d/main.ledger", "./d/main.ledger", "d/../d/main.ledger"]);
    let blank = ch.of(&["", " ", "  "]);
    let files = vec![
        File {
            name: "d/main.ledger".into(),
            parts: vec![
                Part::It(mark("first")),
                Part::Inc(format!("{}{}", path1, blank), vec![1]),
                Part::It(mark("last")),
            ],
        },
        File {
            name: file1.into(),
            parts: vec![Part::It(mark("in")), Part::Inc(path2.to_string(), vec![2]), Part::It(mark("out"))],
        },
        File { name: file2, parts: vec![Part::It(mark("deep"))] },
        // folders that the paths go through
        File { name: "d/e/f/keep".into(), parts: vec![] },
        File { name: format!("{}/sub/keep", if dir1.is_empty() { ".".into() } else { dir1 }), parts: vec![] },
    ];
    files_case(files, main.to_string(), REG)
}
fn c12_loops(ch: &mut Ch) -> Option<Case> {
    let main = ch.of(&["DIR/d/main.ledger", "d/main.ledger", "./d/main.ledger", "d/e/../main.ledger"]);
    let n = ch.pick(4);
    let back = ch.of(&[
        "main.ledger",
        "./main.ledger",
        "../d/main.ledger",
        "e/../main.ledger",
        "././main.ledger",
        "ma*.ledger",
        "mai?.ledger",
        "../*/main.ledger",
        "../d/e/../main.ledger",
    ]);
    // a chain of n files between main and itself
    let mut files = vec![];
    for i in 0..=n {
        let name = if i == 0 { "d/main.ledger".to_string() } else { format!("d/f{}.ledger", i) };
        let mut parts = vec![Part::It(mark(&format!("{}", i)))];
        if i == n {
            parts.push(Part::Inc(back.to_string(), vec![0]));
        } else {
            parts.push(Part::Inc(format!("f{}.ledger", i + 1), vec![i + 1]));
        }
        files.push(File { name, parts });
    }
    files.push(File { name: "d/e/keep".into(), parts: vec![] });
    files_case(files, main.to_string(), REG)
}
fn on(d: u32, name: &str) -> Item {
    Item::Txn(tx(day(d), name, vec![po(&format!("A:{}", name), "1", "EUR"), el("Z")]))
}
fn c12_globs(ch: &mut Ch) -> Option<Case> {
    // with different dates, because nobody promises the order of the files
    let names = [
        "in/a.ledger",
        "in/b.ledger",
        "in/ab.ledger",
        "in/c.dat",
        "in/deep/a.ledger",
        "in/deep/er/a.ledger",
        "other/a.ledger",
        "in/B1.ledger",
    ];
    let (pat, which): (&str, Vec<usize>) = ch.of(&[
        ("in/*.ledger", vec![0, 1, 2, 7]),
        ("in/?.ledger", vec![0, 1]),
        ("in/[ab].ledger", vec![0, 1]),
        ("in/[!a].ledger", vec![1]),
        ("in/a*", vec![0, 2]),
        ("in/*.dat", vec![3]),
        ("in/*/a.ledger", vec![4]),
        ("in/**/a.ledger", vec![0, 4, 5]),
        ("in/**/*.ledger", vec![0, 1, 2, 7, 4, 5]),
        ("*/a.ledger", vec![0, 6]),
        ("in/*.none", vec![]),
        ("nothing/*.ledger", vec![]),
        ("in/deep/../?.ledger", vec![0, 1]),
        ("./in/[a-z]b.ledger", vec![2]),
        ("in/[A-Z]1.ledger", vec![7]),
        ("i?/*.ledger", vec![0, 1, 2, 7]),
        ("*/*/*.ledger", vec![4]),
        ("other/*", vec![6]),
    ]);
    let missing = ch.pick(names.len() + 1);
    let twice = ch.flag();
    let mut files = vec![File { name: "main.ledger".into(), parts: vec![] }];
    let mut kept = vec![];
    for (i, n) in names.iter().enumerate() {
        if i + 1 == missing {
            continue;
        }
        kept.push(i);
        files.push(File {
            name: n.to_string(),
            parts: vec![Part::It(on(i as u32, &format!("n{}", i)))],
        });
    }
    let found: Vec<usize> = kept
        .iter()
        .enumerate()
        .filter(|(_, i)| which.contains(i))
        .map(|(k, _)| k + 1)
        .collect();
    files[0].parts = vec![
        Part::It(on(20, "first")),
        Part::Inc(pat.to_string(), found.clone()),
        Part::It(on(30, "last")),
    ];
    if twice {
        files[0].parts.push(Part::Inc(pat.to_string(), found));
    }
    files_case(files, "DIR/main.ledger".into(), REG | LISTS)
}
/// folders whose names look like patterns, and others that the patterns would match
fn c12_folders(ch: &mut Ch) -> Option<Case> {
    let folder = ch.of(&["[ab]", "[!x]", "[a-c]", "a*", "?", "*", "a[", "]b", "{a,b}", "[[]", "a?c", "[*]", "b] [", "plain"]);
    let depth = 1 + ch.pick(ch.qt(2, 3));
    let (pat, inner) = ch.of(&[
        ("x.ledger", "x.ledger"),
        ("./x.ledger", "x.ledger"),
        ("*.ledger", "x.ledger"),
        ("[x].ledger", "x.ledger"),
        ("sub/x.ledger", "sub/x.ledger"),
        ("*/x.ledger", "sub/x.ledger"),
        ("../rest/x.ledger", "../rest/x.ledger"),
    ]);
    let again = ch.flag();
    let how = ch.pick(2);
    let base = vec![folder; depth].join("/");
    let path = |s: &str| match s.strip_prefix("../") {
        Some(r) => match base.rfind('/') {
            Some(k) => format!("{}/{}", &base[..k], r),
            None => r.to_string(),
        },
        None => format!("{}/{}", base, s),
    };
    let mut files = vec![
        File { name: path("main.txt"), parts: vec![Part::It(on(1, "first")), Part::Inc(pat.to_string(), vec![1]), Part::It(on(9, "last"))] },
        File { name: path(inner), parts: vec![Part::It(on(2, "the one"))] },
    ];
    if again {
        // that one includes another next to it
        let q = path(inner);
        let next = format!("{}/y.txt", &q[..q.rfind('/').unwrap()]);
        files[1].parts.push(Part::Inc("y.txt".into(), vec![2]));
        files.push(File { name: next, parts: vec![Part::It(on(3, "and the next"))] });
    }
    let decoys: Vec<String> = ["a", "b", "c", "ab", "abc", "x", "[", "*", "?b"].iter().map(|x| x.to_string()).filter(|x| x != folder).collect();
    for d in decoys {
        for n in [inner, "y.txt"] {
            if !n.starts_with("..") {
                files.push(File { name: format!("{}/{}", vec![d.as_str(); depth].join("/"), n), parts: vec![Part::It(on(4, "another"))] });
            }
        }
    }
    let main = if how == 0 { format!("DIR/{}", path("main.txt")) } else { path("main.txt") };
    files_case(files, main, REG | LISTS)
}
/// a file that is not there is an error, unless it is a pattern
fn c12_missing(ch: &mut Ch) -> Option<Case> {
    let name = ch.of(&["no.ledger", "./no.ledger", "a.ledgerx", "A/b.ledger", "../no.ledger", "in/no.ledger", "in/a.ledger/x", "a. ledger", "a.ledger b.ledger", "a.ledger,b.ledger", "a.ledger ; c", "\"a.ledger\"", ""]);
    let at = ch.pick(3);
    let deep = ch.pick(3);
    let trail = ch.of(&["", " ", "\t"]);
    case(format!("{} {} {} {:?}", name, at, deep, trail), move |env| {
        env.write("in/a.ledger", "2020-01-01 in\n    A  1 EUR\n    B\n");
        env.write("a.ledger", "2020-01-01 in\n    A  1 EUR\n    B\n");
        env.write("b.ledger", "2020-01-01 in\n    A  1 EUR\n    B\n");
        let good = "2020-01-01 x\n    A  1 EUR\n    B\n";
        let bad = format!("include {}{}\n", name, trail);
        let t = match at {
            0 => format!("{}\n{}", bad, good),
            1 => format!("{}\n{}", good, bad),
            _ => format!("{}include a.ledger\n{}{}", good, bad, good),
        };
        let mut main = env.write("z0.ledger", &t);
        for i in 0..deep {
            main = env.write(&format!("z{}.ledger", i + 1), &format!("include z{}.ledger\n{}", i, good));
        }
        expect_rejected(env, &main, ALL, "a file that is not there", &[])
    })
}
fn c12_glob_loops(ch: &mut Ch) -> Option<Case> {
    // a glob that matches the including file, alone or among others
    let pat = ch.of(&["*.ledger", "*", "../d/*", "[a-z]*.ledger", "**/*.ledger"]);
    let others = ch.pick(3);
    let deep = ch.flag();
    let name = ch.of(&["a.ledger", "main.ledger", "zz.ledger"]);
    let mut files = vec![];
    let looping = if deep {
        // main -> looping -> glob
        files.push(File { name: "top.txt".into(), parts: vec![Part::Inc(format!("d/{}", name), vec![1])] });
        1
    } else {
        0
    };
    files.push(File {
        name: format!("d/{}", name),
        parts: vec![Part::It(on(0, "x")), Part::Inc(pat.to_string(), vec![looping])],
    });
    for i in 0..others {
        files.push(File {
            name: format!("d/b{}.ledger", i),
            parts: vec![Part::It(on(1, "y"))],
        });
    }
    let main = format!("DIR/{}", files[0].name);
    files_case(files, main, REG)
}
fn c12_around(ch: &mut Ch) -> Option<Case> {
    // texts right before and right after the include, and the edges of the included file
    let before = ch.of(&[
        "",
        "\n",
        "2020-01-01 b\n    A  1 EUR\n    Z\n",
        "2020-01-01 b\n    A  1 EUR\n    Z\n\n",
        "2020-01-01 b\n    A  1 EUR\n    Z\n    ; a comment\n",
        "; comment\n",
        "account A\n    alias aa\n",
        "P 2020-01-01 USD 2 EUR\n",
        "include none*.ledger\n",
        "2020-01-01 b\n    A  1 EUR\n    Z\n   \n",
    ]);
    let after = ch.of(&[
        "",
        "\n",
        "2020-01-01 c\n    A  2 EUR\n    Y\n",
        "\n\n2020-01-01 c\n    A  2 EUR\n    Y",
        "; comment\n2020-01-01 c\n    A  2 EUR\n    Y\n",
        "commodity EUR\n",
        "include inc.ledger\n2020-01-01 c\n    A  2 EUR\n    Y\n",
    ]);
    let eol = ch.flag();
    let inc = ch.of(&[
        "2020-01-01 i\n    I  4 EUR\n    X\n",
        "2020-01-01 i\n    I  4 EUR\n    X",
        "\n\n\n2020-01-01 i\n    I  4 EUR\n    X\n\n\n",
        "",
        "\n",
        "; only a comment",
        "2020-01-01 i\r\n    I  4 EUR\r\n    X\r\n",
        "2020-01-01 i\n    I  4 EUR\n    X\n    ; trailing comment",
        "2020-01-01 i\n    I  4 EUR\n    X  -4 EUR",
        "account I\n    alias ii\n\n2020-01-01 i\n    ii  4 EUR\n    X\n",
        "; c\n2020-01-01 i\n    I  4 EUR\n    X\n; c",
        "P 2020-01-02 USD 3 EUR\n2020-01-01 i\n    I  4 EUR @ 2 USD\n    X\nP 2020-01-01 GBP 3 EUR\n",
    ]);
    if !eol && !after.is_empty() {
        return None;
    }
    let main = format!("{}include inc.ledger{}{}", before, if eol { "\n" } else { "" }, after);
    // the same, pasted
    let nl = |s: &str| if s.is_empty() || s.ends_with('\n') { s.to_string() } else { format!("{}\n", s) };
    let pasted = main
        .replace("include none*.ledger\n", "")
        .replace("include inc.ledger\n", &nl(&inc))
        .replace("include inc.ledger", &nl(&inc));
    case(format!("{} {}", main, inc), move |env| {
        let f = env.write("main.ledger", &main);
        env.write("inc.ledger", &inc);
        let g = env.write("pasted.txt", &pasted);
        for cmd in COMMANDS {
            let a = env.run(&[cmd, "-f", &f]);
            let b = env.run(&[cmd, "-f", &g]);
            must_ok(cmd, &b)?;
            must_ok(cmd, &a)?;
            if cmd != "check" && a.stdout != b.stdout {
                return Err(format!("{} with include:\n{}\n--- pasted:\n{}", cmd, a.stdout, b.stdout));
            }
        }
        Ok(())
    })
}
fn c12_long(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(24, 60));
    let how = ch.pick(6);
    let mut files = vec![];
    match how {
        4 | 5 => {
            // one pattern for all, in one folder or in many
            let names: Vec<String> = (0..n).map(|i| if how == 4 { format!("in/f{}.ledger", i) } else { format!("in/d{}/f.ledger", i) }).collect();
            let pat = if how == 4 { "in/*.ledger" } else { "in/**/f.ledger" };
            let parts = vec![Part::It(on(100, "first")), Part::Inc(pat.to_string(), (1..=n).collect()), Part::It(on(101, "last"))];
            files.push(File { name: "f0.ledger".into(), parts });
            for (i, name) in names.into_iter().enumerate() {
                files.push(File { name, parts: vec![Part::It(on(i as u32, &format!("n{}", i)))] });
            }
        }
        0 => {
            // a chain
            for i in 0..n {
                let mut parts = vec![Part::It(mark(&format!("a{}", i)))];
                if i + 1 < n {
                    parts.push(Part::Inc(format!("f{}.ledger", i + 1), vec![i + 1]));
                    parts.push(Part::It(mark(&format!("b{}", i))));
                }
                files.push(File { name: format!("f{}.ledger", i), parts });
            }
        }
        1 => {
            // one folder deeper each time
            for i in 0..n.min(30) {
                let mut parts = vec![Part::It(mark(&format!("a{}", i)))];
                if i + 1 < n.min(30) {
                    parts.push(Part::Inc("s/f.ledger".to_string(), vec![i + 1]));
                    parts.push(Part::It(mark(&format!("b{}", i))));
                }
                files.push(File { name: format!("{}f.ledger", "s/".repeat(i)), parts });
            }
        }
        2 => {
            // the same file many times
            let mut parts = vec![];
            for i in 0..n {
                parts.push(Part::It(mark(&format!("a{}", i))));
                parts.push(Part::Inc("x.ledger".to_string(), vec![1]));
            }
            files.push(File { name: "f0.ledger".into(), parts });
            files.push(File { name: "x.ledger".into(), parts: vec![Part::It(mark("x"))] });
        }
        _ => {
            // every file includes the next one twice
            let n = n.min(ch.qt(6, 8));
            for i in 0..n {
                let mut parts = vec![Part::It(mark(&format!("a{}", i)))];
                if i + 1 < n {
                    parts.push(Part::Inc(format!("f{}.ledger", i + 1), vec![i + 1]));
                    parts.push(Part::Inc(format!("f{}.ledger", i + 1), vec![i + 1]));
                }
                files.push(File { name: format!("f{}.ledger", i), parts });
            }
        }
    }
    let main = format!("DIR/{}", files[0].name);
    files_case(files, main, REG | BAL)
}
fn c12_directives(ch: &mut Ch) -> Option<Case> {
    // every kind of entry in the included file or in the main one, before or after its use
    let pool: Vec<Item> = vec![
        Item::Account { name: "Assets:Cash".into(), aliases: vec!["cash".into()], payees: vec!["shop".into()], extra: vec![] },
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec![] },
        Item::Payee { name: "The Shop".into(), aliases: vec!["^shop".into()] },
        Item::Price { date: (2019, 1, 1), com: "USD".into(), amt: am("2", "EUR") },
        Item::Price { date: (2018, 1, 1), com: "EUR".into(), amt: am("3", "USD") },
        Item::Auto(Auto {
            text: "/Exp/".into(),
            pred: acc_re("Exp"),
            comments: vec![" :auto:".into()],
            posts: vec![AutoPost { kind: Kind::Virt, acc: "cash".into(), amt: AutoAmt::Mult("3".into()) }],
        }),
        Item::Tag { name: "mine".into() },
        Item::Txn(tx(day(1), "shop 1", vec![po("cash", "5", "€"), po("Exp", "7", "USD"), el("unknown")])),
        Item::Txn(tx(day(0), "early", vec![po("Assets:CASH", "1", "eur").eq("1", "EUR"), el("Z")])),
    ];
    let mut parts: Vec<Vec<Item>> = vec![vec![], vec![], vec![]];
    for it in &pool {
        // the main file before the include, the included file, or after it
        let k = ch.pick(ch.qt(3, 3));
        parts[k].push(it.clone());
    }
    if !ch.thorough() && (parts[0].len() + 2 * parts[1].len()) % 3 != 0 {
        return None;
    }
    let mut files = vec![
        File { name: "main.ledger".into(), parts: parts[0].iter().cloned().map(Part::It).collect() },
        File { name: "sub/i.ledger".into(), parts: parts[1].iter().cloned().map(Part::It).collect() },
    ];
    files[0].parts.push(Part::Inc("sub/i.ledger".into(), vec![1]));
    files[0].parts.extend(parts[2].iter().cloned().map(Part::It));
    // a blank line between entries
    files_case(files, "DIR/main.ledger".into(), REG | LISTS | PRICES)
}
fn c12_again(ch: &mut Ch) -> Option<Case> {
    // the same account, commodity or payee declared in two or three files, with other aliases each time
    let what = ch.pick(3);
    let names = [["Assets:Bank", "assets:bank"], ["EUR", "eur"], ["The Shop", "THE SHOP"]][what];
    let all = [
        ["bank", "giro", "la caja"],
        ["euro", "ecu", "e"],
        ["^shop", "^mall", "corner$"],
    ][what];
    let shops = ["^shop", "^mall", "corner$"];
    let mk = |name: &str, aliases: Vec<String>| match what {
        0 => {
            // and the payees whose unknown postings go there
            let payees = (0..3).filter(|i| aliases.iter().any(|x| x == all[*i])).map(|i| shops[i].to_string()).collect();
            Item::Account { name: name.into(), aliases, payees, extra: vec![] }
        }
        1 => Item::Commodity { name: name.into(), aliases, extra: vec![] },
        _ => Item::Payee { name: name.into(), aliases },
    };
    let mut parts: Vec<Vec<Item>> = vec![vec![], vec![], vec![]];
    let mut owner = vec![];
    for _ in 0..3 {
        owner.push(ch.pick(3));
    }
    let mut declared = 0;
    for k in 0..3 {
        // every file declares it, with its own aliases or none; the last one may leave it out
        let mine: Vec<String> = (0..3).filter(|i| owner[*i] == k).map(|i| all[i].to_string()).collect();
        if mine.is_empty() && ch.flag() {
            continue;
        }
        declared += 1;
        let other = k > 0 && ch.flag();
        parts[k].push(mk(names[other as usize], mine));
    }
    if declared < 2 {
        return None;
    }
    let uses: Vec<&str> = match what {
        0 => vec!["bank", "giro", "la caja", "Assets:Bank", "GIRO"],
        1 => vec!["euro", "ecu", "e", "EUR", "ECU"],
        _ => vec!["shop 1", "mall 2", "the corner", "The Shop", "shop and mall"],
    };
    let place = ch.pick(3);
    for (i, u) in uses.iter().enumerate() {
        let d = day(i as u32 % 3);
        let q = format!("{}", 1 + i);
        parts[place].push(Item::Txn(match what {
            0 => tx(d, ["shop 1", "mall 2", "the corner", "x", "none"][i], vec![po(u, &q, "USD"), po("unknown", "10", "EUR"), el("Z")]),
            1 => tx(d, "x", vec![po("A", &q, u), el("Z")]),
            _ => tx(d, u, vec![po("A", &q, "USD"), el("Z")]),
        }));
    }
    // one file includes the other two, or in a chain
    let chain = ch.flag();
    let after = ch.flag();
    let mut files: Vec<File> = ["main.ledger", "one.ledger", "two.ledger"]
        .iter()
        .zip(parts)
        .map(|(n, v)| File { name: n.to_string(), parts: v.into_iter().map(Part::It).collect() })
        .collect();
    let mut put = |into: usize, name: &str, which: usize| {
        let at = if after { files[into].parts.len() } else { 0 };
        files[into].parts.insert(at, Part::Inc(name.into(), vec![which]));
    };
    if chain {
        put(0, "one.ledger", 1);
        put(1, "two.ledger", 2);
    } else {
        put(0, "one.ledger", 1);
        put(0, "two.ledger", 2);
    }
    files_case(files, "DIR/main.ledger".into(), REG | LISTS | PRICES)
}
fn c12_links(ch: &mut Ch) -> Option<Case> {
    let how = ch.pick(5);
    case(format!("links {}", how), move |env| {
        use std::os::unix::fs::symlink;
        let link = env.dir.join("ln");
        let _ = std::fs::remove_file(&link);
        let t = "2020-01-01 a\n    A  1 EUR\n    Z\n\n";
        let r = (|| match how {
            0 => {
                // a link to the including file
                let f = env.write("main.ledger", &format!("{}include ln\n", t));
                symlink("main.ledger", &link).unwrap();
                expect_rejected(env, &f, ALL, "include loop", &[])
            }
            1 => {
                // a link to a folder that has it
                let f = env.write("d/main.ledger", &format!("{}include ../ln/main.ledger\n", t));
                symlink("d", &link).unwrap();
                expect_rejected(env, &f, ALL, "include loop", &[])
            }
            2 => {
                // the main file is itself a link, to a file that includes the real one
                env.write("d/main.ledger", &format!("{}include d/main.ledger\n", t));
                symlink("d/main.ledger", &link).unwrap();
                expect_rejected(env, "ln", ALL, "include loop", &[])
            }
            3 => {
                // a link to another file is just that file
                let f = env.write("main.ledger", &format!("{}include ln\ninclude other\n", t));
                env.write("other", t);
                symlink("other", &link).unwrap();
                let j: Journal = (0..3).map(|_| Item::Txn(tx(day(0), "a", vec![po("A", "1", "EUR"), el("Z")]))).collect();
                expect_file(env, &f, &ledger(&j, false), REG | BAL, &[])
            }
            _ => {
                // main -> other -> link to main
                let f = env.write("main.ledger", &format!("{}include other\n", t));
                env.write("other", &format!("{}include ln\n", t));
                symlink("main.ledger", &link).unwrap();
                expect_rejected(env, &f, ALL, "include loop", &[])
            }
        })();
        let _ = std::fs::remove_file(&link);
        r
    })
}
fn c12_wrong(ch: &mut Ch) -> Option<Case> {
    // a wrong transaction anywhere makes everything fail
    let bad = ch.of(&[
        "2020-01-01 w\n    A  1 EUR\n    B  1 EUR\n",
        "2020-01-01 w\n    A\n    B\n",
        "2020-13-01 w\n    A  1 EUR\n    B\n",
        "nonsense\n",
        "    indented\n",
        "2020-01-01 w\n    A  1 EUR = 7 EUR\n    B\n",
        "account\n",
        "2020-01-01 w\n    A  x\n    B\n",
    ]);
    let depth = ch.pick(4);
    let place = ch.pick(3);
    let good = "2020-01-02 g\n    G  1 EUR\n    Z\n";
    let glob = ch.flag();
    case(format!("{} {} {} {}", bad, depth, place, glob), move |env| {
        let mut main = String::new();
        for i in 0..=depth {
            let name = if i == 0 { "main.ledger".to_string() } else { format!("w{}/f.ledger", i) };
            let t = if i == depth {
                match place {
                    0 => format!("{}\n{}", bad, good),
                    1 => format!("{}\n{}", good, bad),
                    _ => format!("{}\n{}\n{}", good, bad, good),
                }
            } else {
                let up = if i == 0 { "" } else { "../" };
                let inc = format!("include {}w{}/{}.ledger\n", up, i + 1, if glob { "*" } else { "f" });
                match place {
                    0 => format!("{}{}", inc, good),
                    1 => format!("{}\n{}", good, inc),
                    _ => format!("{}\n{}{}", good, inc, good),
                }
            };
            let p = env.write(&name, &t);
            if i == 0 {
                main = p;
            }
        }
        expect_rejected(env, &main, ALL, "wrong entry in a file", &[])
    })
}

// ------------------------------------------------------------------ C13

fn account(name: &str, aliases: &[&str]) -> Item {
    Item::Account {
        name: name.into(),
        aliases: aliases.iter().map(|x| x.to_string()).collect(),
        payees: vec![],
        extra: vec![],
    }
}
fn commodity(name: &str, aliases: &[&str]) -> Item {
    Item::Commodity {
        name: name.into(),
        aliases: aliases.iter().map(|x| x.to_string()).collect(),
        extra: vec![],
    }
}
fn put_in(j: &mut Journal, place: usize, it: Item) {
    let k = match place {
        0 => 0,
        1 => j.len() / 2,
        _ => j.len(),
    };
    j.insert(k, it);
}
const ACC_SPELL: [&str; 8] = [
    "Assets:Cash Box",
    "assets:cash box",
    "ASSETS:CASH BOX",
    "cb",
    "CB",
    "Señal 1",
    "SEÑAL 1",
    "Assets:Cash",
];
fn c13_accounts(ch: &mut Ch) -> Option<Case> {
    let mut j = vec![];
    let n = 2 + ch.pick(ch.qt(1, 2));
    for i in 0..n {
        let a = ch.of(&ACC_SPELL);
        let b = ch.of(&ACC_SPELL);
        let k = ch.of(&[Kind::Real, Kind::Virt]);
        let mut posts = vec![po(a, &format!("{}", i + 1), "EUR"), po(b, "10", "EUR").kind(k), el("Z")];
        if i == 1 {
            posts.swap(0, 1);
        }
        j.push(Item::Txn(tx(day(i as u32), "x", posts)));
        if i == 0 && !ch.thorough() {
            // the second one varies less
            let c = ch.of(&["cb", "assets:Cash Box", "señal 1"]);
            j.push(Item::Txn(tx(day(5), "y", vec![po(c, "100", "EUR"), el("z")])));
            break;
        }
    }
    let place = ch.pick(3);
    put_in(&mut j, 0, account("Z", &[]));
    put_in(&mut j, place, account("Assets:Cash Box", &["cb", "señal 1"]));
    put_in(&mut j, 2, account("Assets:Cash", &["cbb"]));
    journal_case(j, BAL | REG | LISTS)
}
fn c13_deep(ch: &mut Ch) -> Option<Case> {
    let mut j = vec![account("Assets:Cash Box", &["cb", "señal 1"]), account("Z", &[]), account("Assets:Cash", &[])];
    for i in 0..4 {
        let a = ch.of(&ACC_SPELL);
        j.push(Item::Txn(tx(day(i), "x", vec![po(a, &(1 << i).to_string(), "EUR"), el("z")])));
    }
    let place = ch.pick(3);
    put_in(&mut j, place, commodity("EUR", &["e"]));
    journal_case(j, BAL | REG | LISTS)
}
const COM_SPELL: [&str; 7] = ["EUR", "eur", "Eur", "€", "euros", "EUROS", "EU"];
fn c13_commodities(ch: &mut Ch) -> Option<Case> {
    let mut j: Journal = vec![];
    let a = ch.of(&COM_SPELL);
    let b = ch.of(&COM_SPELL);
    let c = ch.of(&COM_SPELL);
    let mut p = po("A", "5", a);
    p.amt.as_mut().unwrap().prefix = ch.flag();
    let e = ch.flag();
    let q = po("B", "-3", b);
    let mut posts = vec![p, q];
    if e {
        posts.push(el("C"));
    } else {
        posts.push(po("C", "-2", c));
    }
    j.push(Item::Txn(tx(day(0), "x", posts)));
    j.push(Item::Txn(tx(day(1), "y", vec![po("A", "1", c).eq(if a == "EU" || c == "EU" { "1" } else { "6" }, c), el("D")])));
    put_in(&mut j, 2, commodity("EU", &[]));
    let place = ch.pick(3);
    put_in(&mut j, place, commodity("EUR", &["€", "euros"]));
    journal_case(j, BAL | REG | LISTS)
}
fn c13_costs(ch: &mut Ch) -> Option<Case> {
    let sp = ["EUR", "eur", "€", "euros"];
    let st = ["STK", "stk", "a share"];
    let (few_p, few_t) = (ch.qt(2, 4), ch.qt(2, 3));
    let a = ch.of(&sp);
    let b = ch.of(&sp[4 - few_p..]);
    let s = ch.of(&st);
    let total = ch.flag();
    let p = po("A", "4", s);
    let p = if total { p.att("20", a) } else { p.at("5", a) };
    let mut j = vec![
        Item::Txn(tx(day(0), "x", vec![p, po("B", "-20", b)])),
        Item::Price { date: (2021, 1, 1), com: ch.of(&st[3 - few_t..]).into(), amt: am("6", ch.of(&sp[4 - few_p..])) },
    ];
    j.push(Item::Txn(tx(day(1), "y", vec![po("A", "1", "STK").eq("5", ch.of(&st[3 - few_t..])), el("C")])));
    let place = ch.pick(3);
    put_in(&mut j, place, commodity("EUR", &["€", "euros"]));
    put_in(&mut j, 2 - place, commodity("STK", &["a share"]));
    let x = ch.of(&["EUR", "eur", "€", "Euros"]);
    let t = text(&j);
    case(format!("{} {}", x, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_meaning(env, &f, &l, REG | LISTS | PRICES, &[])?;
        let o = env.run(&["bal", "-f", &f, "-X", x]);
        must_ok("bal -X", &o)?;
        check_bal(&l, &Sel::default(), &BalOpts { x: Some("EUR".into()), ..Default::default() }, &o.stdout)
    })
}
fn c13_payees(ch: &mut Ch) -> Option<Case> {
    let mut j: Journal = vec![];
    let names = [
        "The Market",
        "the market",
        "THE MARKET",
        "mkt 5th avenue",
        "corner",
        "the corner shop",
        "cornér",
        "market",
        "xmkt",
        "Other",
    ];
    let n = 2;
    for i in 0..n {
        let p = ch.of(&names);
        let bar = ch.flag();
        let mut t = tx(day(i), if bar { "what" } else { p }, vec![po("A", &(i + 1).to_string(), "EUR"), el("B")]);
        if bar {
            t = t.payee(p);
        }
        j.push(Item::Txn(t));
    }
    put_in(&mut j, 2, Item::Payee { name: "Other".into(), aliases: vec![] });
    let place = ch.pick(3);
    put_in(&mut j, place, Item::Payee { name: "The Market".into(), aliases: vec!["^mkt".into(), "corner( shop)?$".into()] });
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_meaning(env, &f, &l, REG | LISTS, &[])?;
        for (q, re) in [("@^The Market$", "(?i)^The Market$"), ("@mkt", "(?i)mkt"), ("@other", "(?i)other")] {
            let sel = Sel {
                pred: Some(bin(Op::Match, E::Payee, E::Re(re.to_string()))),
                query: vec![q.to_string()],
                ..Default::default()
            };
            expect_reports(env, &f, &l, &sel, None, true)?;
        }
        Ok(())
    })
}
fn c13_unknown(ch: &mut Ch) -> Option<Case> {
    let payees = ["shop", "Shop 2", "the baker", "nobody", "BAKER"];
    let accs = ["unknown", "Unknown", "Expenses:unknown", "Expenses:UNKNOWN", "unknown:x", "my unknown"];
    let p1 = ch.of(&payees);
    let a1 = ch.of(&accs);
    let a2 = ch.of(&accs);
    let bar = ch.flag();
    let mut t1 = tx(day(0), if bar { "d" } else { p1 }, vec![po(a1, "3", "EUR"), po(a2, "1", "EUR").kind(Kind::Virt), el("Cash")]);
    if bar {
        t1 = t1.payee(p1);
    }
    let elided = ch.flag();
    let t2 = if elided {
        tx(day(1), ch.of(&payees), vec![po("Cash", "-4", "EUR"), el("Expenses:unknown")])
    } else {
        tx(day(1), "shop", vec![po("Expenses:Food", "-4", "EUR"), el("Cash")])
    };
    let mut j = vec![Item::Txn(t1), Item::Txn(t2)];
    // declared, so that the spellings of undeclared ones do not matter
    put_in(&mut j, 2, account("unknown", &[]));
    put_in(&mut j, 2, account("Expenses:unknown", &[]));
    let place = ch.pick(3);
    put_in(
        &mut j,
        place,
        Item::Account { name: "Expenses:Food".into(), aliases: vec!["food".into()], payees: vec!["^[Ss]hop".into()], extra: vec![] },
    );
    put_in(
        &mut j,
        2 - place,
        Item::Account { name: "Expenses:Bread".into(), aliases: vec![], payees: vec!["baker$".into(), "miller".into()], extra: vec!["note bread".into()] },
    );
    let pay = ch.flag();
    if pay {
        put_in(&mut j, 2, Item::Payee { name: "shop central".into(), aliases: vec!["^Shop 2$".into(), "^nob".into()] });
    }
    journal_case(j, BAL | REG | LISTS)
}
fn c13_distinct(ch: &mut Ch) -> Option<Case> {
    let names = [
        "Cash", "Cas", "Cash1", "C ash", "Cásh", "Cash:", "Cash:a", "Cash-", "Cash.", "Ca$h", "Çash", "Cashß", "Cashss", "Caſh", "Cash_", "Casi", "Casí",
        "Kash", "K\u{430}sh",
    ];
    let i = ch.pick(names.len());
    let k = ch.pick(names.len());
    if k <= i {
        return None;
    }
    let what = ch.pick(3);
    let declared = ch.flag();
    let (a, b) = (names[i], names[k]);
    let mut j: Journal = vec![];
    match what {
        0 => {
            j.push(Item::Txn(tx(day(0), "x", vec![po(a, "1", "EUR"), po(b, "2", "EUR"), el("Zz")])));
            j.push(Item::Txn(tx(day(1), "y", vec![po(b, "4", "EUR").eq("6", "EUR"), po(a, "8", "EUR").eq("9", "EUR"), el("Zz")])));
            if declared {
                j.insert(0, account(a, &["alias one"]));
            }
        }
        1 => {
            j.push(Item::Txn(tx(day(0), "x", vec![po("A", "1", a), po("A", "2", b), el("Zz")])));
            j.push(Item::Txn(tx(day(1), "y", vec![po("A", "4", b).eq("6", b), po("A", "8", a).eq("9", a), el("Zz")])));
            if a.contains(':') || b.contains(':') {
                return None;
            }
            if declared {
                j.insert(0, commodity(a, &["uno"]));
            }
        }
        _ => {
            j.push(Item::Txn(tx(day(0), a, vec![po("A", "1", "EUR"), el("B")])));
            j.push(Item::Txn(tx(day(0), b, vec![po("A", "2", "EUR"), el("B")])));
            if declared {
                j.insert(0, Item::Payee { name: a.into(), aliases: vec!["^uno$".into()] });
            }
        }
    }
    journal_case(j, if a.ends_with(':') || b.ends_with(':') { REG | LISTS } else { BAL | REG | LISTS })
}
fn c13_undeclared(ch: &mut Ch) -> Option<Case> {
    // which of the spellings is shown is nobody's business, as long as it is one
    let what = ch.pick(3);
    let sp: [&str; 4] = ch.of(&[["abc", "ABC", "Abc", "aBc"], ["été x", "ÉTÉ X", "Été x", "été X"]]);
    let a = ch.of(&sp);
    let b = ch.of(&sp);
    let c = ch.of(&sp);
    let mut j: Journal = vec![];
    match what {
        0 => {
            j.push(Item::Txn(tx(day(0), "x", vec![po(a, "1", "EUR"), po(b, "2", "EUR"), el("Z")])));
            j.push(Item::Txn(tx(day(1), "y", vec![po(c, "4", "EUR").eq("7", "EUR"), el("Z")])));
        }
        1 => {
            j.push(Item::Txn(tx(day(0), "x", vec![po("A", "1", a), po("A", "2", b), el("Z")])));
            j.push(Item::Txn(tx(day(1), "y", vec![po("A", "4", c).eq("7", a), el("Z")])));
        }
        _ => {
            j.push(Item::Txn(tx(day(0), a, vec![po("A", "1", "EUR"), el("Z")])));
            j.push(Item::Txn(tx(day(1), b, vec![po("A", "1", "EUR"), el("Z")])));
            j.push(Item::Txn(tx(day(2), c, vec![po("A", "1", "EUR"), el("Z")])));
        }
    }
    let t = text(&j);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let mut last = Ok(());
        for s in [a, b, c] {
            let mut k = j.clone();
            k.insert(
                0,
                match what {
                    0 => account(s, &[]),
                    1 => commodity(s, &[]),
                    _ => Item::Payee { name: s.into(), aliases: vec![] },
                },
            );
            last = expect_file(env, &f, &ledger(&k, false), if what == 2 { LISTS } else { BAL | REG | LISTS }, &[]);
            if last.is_ok() {
                return Ok(());
            }
        }
        last
    })
}
fn c13_auto(ch: &mut Ch) -> Option<Case> {
    let sp = ["Assets:Cash", "cash", "CASH", "assets:cash"];
    let cm = ["EUR", "€", "eur"];
    let a = ch.of(&sp);
    let b = ch.of(&sp);
    let c = ch.of(&cm);
    let d = ch.of(&cm);
    let place = ch.pick(3);
    let how = ch.pick(3);
    let (txt, pred): (&str, E) = match how {
        0 => ("/Assets/", acc_re("Assets")),
        1 => ("Cash$", acc_re("(?i)Cash$")),
        _ => ("@shop", bin(Op::Match, E::Payee, E::Re("(?i)shop".into()))),
    };
    let mut j = vec![
        Item::Txn(tx(day(0), "shp 1", vec![po(a, "3", c), po("cashier", "-3", "EUR")])),
        Item::Auto(Auto {
            text: txt.into(),
            pred,
            comments: vec![],
            posts: vec![
                AutoPost { kind: Kind::Virt, acc: b.into(), amt: AutoAmt::Fixed(am("2", d)) },
                AutoPost { kind: Kind::Virt, acc: "Saved".into(), amt: AutoAmt::Mult("0.5".into()) },
            ],
        }),
    ];
    put_in(&mut j, place, account("Assets:Cash", &["cash"]));
    put_in(&mut j, place, commodity("EUR", &["€"]));
    put_in(&mut j, 2 - place, Item::Payee { name: "Shop".into(), aliases: vec!["^shp".into()] });
    let t = text(&j);
    let x = ch.of(&cm);
    case(format!("{} {}", x, t), move |env| {
        let f = env.write("j.ledger", &t);
        let l = ledger(&j, false)?;
        expect_meaning(env, &f, &l, REG | LISTS | BAL, &[])?;
        // amounts in an expression name their commodity in any way
        let q = format!("amount > 2 {}", x);
        let sel = Sel {
            pred: Some(bin(Op::Gt, E::Amount, E::Money("2".into(), "EUR".into()))),
            query: vec!["expr".into(), q],
            ..Default::default()
        };
        expect_reports(env, &f, &l, &sel, None, true)
    })
}
/// names with marks in them are names all the same, in the directive and wherever they are used
fn c13_marks(ch: &mut Ch) -> Option<Case> {
    let marks = [
        "a;b", "a ;b", "a;", "a#b", "a #b", "a@b", "a @ b", "a=b", "a = b", "a|b", "a | b", "a (b)", "a [b]", "a{b}", "a\"b", "a'b", "a*b", "a !b", "a-b", "a - b", "a.b",
        "a, b", "a/b", "a\\b", "a%b", "a&b", "a: b", "a::b", "a$1", "a €", "a_b", "a~b", "a+b", "a?b", "a<b>", "a^b", "1a", "12", "a 12", "default", "note x", "alias", "a alias b", "a account",
    ];
    let what = ch.pick(4);
    let m = ch.of(&marks);
    let with_alias = ch.of(&marks);
    if m == with_alias || (!ch.thorough() && m != "a;b" && with_alias != "a;b") {
        return None;
    }
    // postings don't start with a digit
    if what < 2 && (m.starts_with('1') || with_alias.starts_with('1')) {
        return None;
    }
    let late = ch.flag();
    let (d, x) = match what {
        0 => (account(m, &[with_alias]), tx(day(0), "x", vec![po(m, "1", "EUR"), po(with_alias, "2", "EUR"), el("Z")])),
        // the ones of postings in a group are between the brackets
        1 => (
            account(m, &[with_alias]),
            tx(day(0), "x", vec![po(m, "1", "EUR").kind(Kind::Virt), po(with_alias, "2", "EUR").kind(Kind::Virt), po("Y", "1", "EUR"), el("Z")]),
        ),
        // in quotes
        2 => {
            if m.contains('"') || with_alias.contains('"') {
                return None;
            }
            (commodity(m, &[with_alias]), tx(day(0), "x", vec![po("A", "1", m), po("A", "2", with_alias), el("Z")]))
        }
        // in the description of a transaction, what follows ; is a comment and what follows | a payee
        _ if m.contains(';') || m.contains('|') => return None,
        _ => (Item::Payee { name: m.into(), aliases: vec![] }, tx(day(0), m, vec![po("A", "1", "EUR"), el("Z")])),
    };
    let mut j = vec![Item::Txn(x)];
    put_in(&mut j, if late { 2 } else { 0 }, d);
    journal_case(j, BAL | REG | LISTS)
}
fn c13_several(ch: &mut Ch) -> Option<Case> {
    // three accounts with aliases, used in all orders by different names
    let decl = [("One", "uno"), ("Two", "dos"), ("Three", "tres")];
    let order = ch.perm(3);
    let uses: Vec<(usize, usize)> = (0..3).map(|_| (ch.pick(3), ch.pick(2))).collect();
    let place = ch.flag();
    let mut posts = vec![];
    for (i, (w, s)) in uses.iter().enumerate() {
        let n = if *s == 0 { decl[*w].0 } else { decl[*w].1 };
        posts.push(po(n, &format!("{}", 10i32.pow(i as u32)), "EUR"));
    }
    posts.push(el("Z"));
    let mut j: Journal = vec![];
    let d: Vec<Item> = order.iter().map(|i| account(decl[*i].0, &[decl[*i].1, &format!("{}{}", decl[*i].1, i)])).collect();
    let t = Item::Txn(tx(day(0), "x", posts));
    if place {
        j.extend(d);
        j.push(t);
    } else {
        j.push(d[0].clone());
        j.push(t);
        j.extend_from_slice(&d[1..]);
    }
    journal_case(j, BAL | REG | LISTS)
}
fn c13_twice(ch: &mut Ch) -> Option<Case> {
    // the same name declared again, here or in included files: the first spelling stays, all the aliases hold
    let commodities = ch.flag();
    let n = ch.qt(2, 3);
    let mut parts: Vec<Vec<Item>> = vec![];
    for i in 0..n {
        let name = ch.of(&["Aab", "AAB", "Other"]);
        let al = ["uno", "dos", "tres"][i];
        let d = if commodities { commodity(name, &[al]) } else { account(name, &[al]) };
        let used = ch.of(&["aab", "uno", "dos", "DOS"]);
        let t = if commodities { po("A", "1", used) } else { po(used, "1", "EUR") };
        let t = Item::Txn(tx(day(i as u32), &format!("t{}", i), vec![t, el("Z")]));
        parts.push(if ch.flag() { vec![d, t] } else { vec![t, d] });
    }
    let inc: Vec<bool> = (0..n).map(|_| ch.flag()).collect();
    let whole: Journal = parts.concat();
    let key = format!("{:?}\n{}", inc, text(&whole));
    // what is used without declaration is shown in some spelling that is not stated
    let l = ledger(&whole, false).ok()?;
    if l.accounts.contains("aab") || l.accounts.contains("DOS") || l.commodities.contains("aab") || l.commodities.contains("DOS") {
        return None;
    }
    case(key, move |env| {
        let mut main = String::new();
        for (i, p) in parts.iter().enumerate() {
            if inc[i] {
                env.write(&format!("inc{}.ledger", i), &text(p));
                main.push_str(&format!("include inc{}.ledger\n", i));
            } else {
                main.push_str(&text(p));
            }
        }
        let f = env.write("j.ledger", &main);
        expect_file(env, &f, &ledger(&whole, false), BAL | REG | LISTS, &[])
    })
}
fn c13_many(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(30, 100));
    let what = ch.pick(4);
    let mut j: Journal = vec![];
    match what {
        0 => {
            let al: Vec<String> = (0..n).map(letters).collect();
            let al: Vec<&str> = al.iter().map(|x| x.as_str()).collect();
            j.push(account("Main", &al));
            j.push(Item::Txn(tx(day(0), "x", {
                let mut v: Vec<Post> = al.iter().map(|a| po(&a.to_uppercase(), "1", "EUR")).collect();
                v.push(el("Z"));
                v
            })));
        }
        1 => {
            for i in 0..n {
                j.push(account(&format!("Acc:{}", letters(i)), &[&format!("x{}", letters(i)), &format!("y {}", letters(i))]));
            }
            j.push(Item::Txn(tx(day(0), "x", {
                let mut v: Vec<Post> = (0..n)
                    .flat_map(|i| vec![po(&format!("X{}", letters(i)), &(i + 1).to_string(), "EUR"), po(&format!("Y {}", letters(i)), "100", "EUR")])
                    .collect();
                v.push(el("Z"));
                v
            })));
        }
        2 => {
            for i in 0..n {
                j.push(commodity(&format!("C{}", letters(i)), &[&format!("x{}", letters(i))]));
            }
            j.push(Item::Txn(tx(day(0), "x", {
                let mut v: Vec<Post> = (0..n)
                    .flat_map(|i| vec![po("A", &(i + 1).to_string(), &format!("X{}", letters(i))), po("A", "100", &format!("c{}", letters(i)))])
                    .collect();
                v.push(el("Z"));
                v
            })));
        }
        _ => {
            for i in 0..n {
                j.push(Item::Payee { name: format!("Payee {}", letters(i)), aliases: vec![format!("^{}$", letters(i)), format!("^{}[0-9]+$", letters(i))] });
                j.push(Item::Txn(tx(day(i as u32 % 5), &format!("{}{}", letters((i * 7) % n), i), vec![po("A", "1", "EUR"), el("Z")])));
            }
        }
    }
    journal_case(j, REG | LISTS)
}
fn c13_assert(ch: &mut Ch) -> Option<Case> {
    // assertions and assignments through any of the names
    let sp = ["Cash", "CASH", "c", "C"];
    let cm = ["EUR", "eur", "€"];
    let mut j: Journal = vec![];
    let mut sum = 0;
    for i in 0..3 {
        let a = ch.of(&sp);
        let c = ch.of(&cm[..ch.qt(2, 3)]);
        sum += i + 1;
        let p = if i == 1 { el(a).eq(&sum.to_string(), c) } else { po(a, &(i + 1).to_string(), "€").eq(&sum.to_string(), c) };
        j.push(Item::Txn(tx(day(i as u32), "x", vec![p, el("Z")])));
    }
    let place = ch.pick(3);
    put_in(&mut j, place, account("Cash", &["c"]));
    put_in(&mut j, place, commodity("EUR", &["€"]));
    journal_case(j, CHECK | REG | LISTS)
}

// ------------------------------------------------------------------ C15

fn layout_case(j: Journal, l: Layout, what: u32) -> Option<Case> {
    let t = text_with(&j, &l);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), what, &[])
    })
}
const INDENTS: [&str; 6] = ["    ", " ", "  ", "\t", " \t", "          "];
const GAPS: [&str; 7] = ["  ", "\t", "   ", " \t", "\t\t", "  \t ", "                    "];
const TRAILS: [&str; 5] = ["", " ", "   ", "\t", " \t "];
const EOLS: [&str; 2] = ["\n", "\r\n"];
const BETWEEN: [&str; 6] = ["\n", "", "\n\n\n", "   \n", "\t\n", "\n    \n"];
const AROUND: [&str; 3] = [" ", "", "   "];
fn small() -> Journal {
    txs(vec![
        tx(day(3), "Payee x", vec![po("A:B C", "5", "STK").at("2.5", "EUR"), po("D", "-1", "EUR").eq("-1", "EUR"), el("Z z")]),
        tx(day(1), "other", vec![po("A", "1", "EUR"), el("Z z")]),
    ])
}
fn rich() -> Journal {
    let mut p = po("Assets:Cash", "12.5", "$");
    p.amt.as_mut().unwrap().prefix = true;
    vec![
        Item::Commodity { name: "EUR".into(), aliases: vec!["€".into()], extra: vec!["note the money".into()] },
        Item::Account { name: "Assets:Cash".into(), aliases: vec!["cash".into()], payees: vec![], extra: vec!["note here".into()] },
        Item::Price { date: (2019, 3, 4), com: "$".into(), amt: am("0.9", "EUR") },
        Item::Payee { name: "Shop".into(), aliases: vec!["^sh".into()] },
        Item::Txn(
            tx(day(10), "sh 1", vec![p, po("cash", "-2", "€").kind(Kind::Virt), po("Exp:Food and drink", "3", "EUR").note(" :tag:"), el("Z")])
                .hdr(" note: value")
                .pre(" another comment"),
        ),
        Item::Txn(tx(day(2), "x", vec![po("Br", "4", "STK").att("20", "EUR").kind(Kind::Brac), po("Bs", "-20", "EUR").kind(Kind::Brac), el("cash").eq("7", "EUR"), el("Q")])),
        Item::Tag { name: "tag".into() },
        Item::Auto(Auto {
            text: "/Exp/".into(),
            pred: acc_re("Exp"),
            comments: vec![" :auto:".into()],
            posts: vec![AutoPost { kind: Kind::Virt, acc: "Bud get".into(), amt: AutoAmt::Mult("-2".into()) }],
        }),
    ]
}
fn layout(ch: &mut Ch, dims: usize) -> Layout {
    let mut l = Layout::default();
    l.indent = ch.of(&INDENTS[..dims.min(INDENTS.len())]).into();
    l.gap = ch.of(&GAPS[..dims.min(GAPS.len())]).into();
    l.trail = ch.of(&TRAILS[..dims.min(TRAILS.len())]).into();
    l.eol = ch.of(&EOLS).into();
    l.final_eol = !ch.flag();
    l.between = ch.of(&BETWEEN[..dims.min(BETWEEN.len())]).into();
    l.around = ch.of(&AROUND[..dims.min(AROUND.len())]).into();
    l.date_pad = !ch.flag();
    l.date_sep = ch.of(&['-', '/', '.']);
    l
}
fn c15_small(ch: &mut Ch) -> Option<Case> {
    let d = ch.qt(2, 3);
    let l = layout(ch, d);
    layout_case(small(), l, REG)
}
fn c15_deep(ch: &mut Ch) -> Option<Case> {
    let l = layout(ch, 3);
    layout_case(rich(), l, REG)
}
fn vary(ch: &mut Ch, l: &mut Layout, dim: usize) {
    match dim {
        0 => l.indent = ch.of(&INDENTS).into(),
        1 => l.gap = ch.of(&GAPS).into(),
        2 => l.trail = ch.of(&TRAILS).into(),
        3 => l.eol = ch.of(&EOLS).into(),
        4 => l.final_eol = !ch.flag(),
        5 => l.between = ch.of(&BETWEEN).into(),
        6 => l.around = ch.of(&AROUND).into(),
        7 => l.date_pad = !ch.flag(),
        8 => l.date_sep = ch.of(&['-', '/', '.']),
        _ => l.before_comment = ch.of(&["  ", " ", "\t", "    "]).into(),
    }
}
fn c15_rich(ch: &mut Ch) -> Option<Case> {
    let a = ch.pick(10);
    let b = ch.pick(10);
    if b <= a {
        return None;
    }
    let mut l = Layout::default();
    vary(ch, &mut l, a);
    vary(ch, &mut l, b);
    // the entry that comes last, where the end of the file matters
    let mut j = rich();
    let k = ch.pick(j.len());
    j.rotate_left(k);
    layout_case(j, l, BAL | REG | LISTS | PRICES)
}
fn c15_gap(ch: &mut Ch) -> Option<Case> {
    // every string of up to four blanks that ends an account name
    let n = 1 + ch.pick(ch.qt(4, 6));
    let gap: String = (0..n).map(|_| ch.of(&[' ', '\t'])).collect();
    if gap == " " {
        return None;
    }
    let tail = ch.pick(4);
    let acc = ch.of(&["A", "A b", "A:B c d", "(V)", "[B]", "é", "(V w)", "( V )", "[ B]", "[B ]", "( V w )"]);
    let amount = match tail {
        0 => "5 EUR",
        1 => "EUR5",
        2 => "; comment",
        _ => "= 5 EUR",
    };
    if tail >= 2 && !acc.starts_with(|c: char| c.is_alphabetic()) {
        return None;
    }
    let other = if acc.starts_with('[') { "    [Q]  -5 EUR\n" } else { "" };
    let t = format!("2020-01-01 x\n    {}{}{}\n    Z  {}\n{}", acc, gap, amount, if acc.starts_with(|c: char| c.is_alphabetic()) { "-5 EUR" } else { "0 EUR" }, other);
    let kind = match acc.chars().next().unwrap() {
        '(' => Kind::Virt,
        '[' => Kind::Brac,
        _ => Kind::Real,
    };
    let name = acc.trim_matches(|c| "()[] ".contains(c)).to_string();
    let mut posts = vec![match tail {
        2 => el(&name),
        3 => el(&name).eq("5", "EUR"),
        _ => po(&name, "5", "EUR").kind(kind),
    }];
    posts.push(po("Z", if kind == Kind::Real { "-5" } else { "0" }, "EUR"));
    if kind == Kind::Brac {
        posts.push(po("Q", "-5", "EUR").kind(Kind::Brac));
    }
    let j = txs(vec![tx(day(0), "x", posts)]);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | LISTS, &[])
    })
}
fn c15_amounts(ch: &mut Ch) -> Option<Case> {
    let q = ch.of(&["5", "-5", "0.25", "-12.340", "1000000"]);
    let c = ch.of(&["EUR", "$", "€", "a b", "M&M", "x_y", "GmbH", "A/B", "元", ""]);
    let sp = ch.of(&["", " ", "  ", "\t"]);
    let prefix = ch.flag();
    let quote = ch.flag() || c.contains(' ');
    if c.is_empty() && (quote || prefix) {
        return None;
    }
    let w = if quote { format!("\"{}\"", c) } else { c.to_string() };
    let form = |lit: &str| if prefix { format!("{}{}{}", w, sp, lit) } else { format!("{}{}{}", lit, sp, w) };
    let place = ch.pick(7);
    let end = ch.of(&["", " ", "  ; c", "\t"]);
    let (line, post) = match place {
        4 => (format!("A  {} = {}", form(q), form("2")), po("A", q, c).eq("2", c)),
        5 if !c.is_empty() => return None,
        5 => (format!("A  {}{}@{}7 STK", q, sp, sp), po("A", q, c).at("7", "STK")),
        6 if !c.is_empty() => return None,
        6 => (format!("A  {}{}={}7 STK", q, sp, sp), po("A", q, c).eq("7", "STK")),
        0 => (format!("A  {}", form(q)), po("A", q, c)),
        1 => (format!("A  7 STK @ {}", form(q)), po("A", "7", "STK").at(q, c)),
        2 => (format!("A  7 STK @@ {}", form(q)), po("A", "7", "STK").att(q, c)),
        _ => (format!("A  = {}", form(q)), el("A").eq(q, c)),
    };
    if (place == 1 || place == 2) && q.starts_with('-') {
        return None;
    }
    let t = format!("2020-01-01 x\n    {}{}\n    Z\n", line, end);
    let j = txs(vec![tx(day(0), "x", vec![post, el("Z")])]);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | LISTS, &[])
    })
}
fn c15_comments(ch: &mut Ch) -> Option<Case> {
    // a comment line after any line of the journal
    let j = {
        let mut v = rich();
        v.extend(small());
        v
    };
    let base = text(&j);
    let lines: Vec<&str> = base.lines().collect();
    let at = ch.pick(lines.len() + 1);
    let indented = ch.flag();
    let c = if indented {
        // inside of an entry
        if at == 0 || at == lines.len() + 1 || lines[at - 1].is_empty() {
            return None;
        }
        // not after a price, which has no body
        if lines[at - 1].starts_with("P ") {
            return None;
        }
        ch.of(&["    ; c", "\t;c", "  ;", "    ;; x  5 EUR", "      ; 2020-01-01 x", " ;\ta  b"]).to_string()
    } else {
        // between entries
        if at > 0 && at < lines.len() && !lines[at - 1].is_empty() && lines[at].starts_with(char::is_whitespace) {
            return None;
        }
        ch.of(&["; c", ";", "# c", "% c", "* c", "! c", "#2020-01-01 x", "*", "; A  5 EUR", ";;;"]).to_string()
    };
    let mut v: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    v.insert(at, c);
    let t = v.join("\n") + "\n";
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), BAL | REG | LISTS | PRICES, &[])
    })
}
fn c15_blank(ch: &mut Ch) -> Option<Case> {
    // a blank line between any two entries, or inside of one
    let j = {
        let mut v = rich();
        v.extend(small());
        v
    };
    let base = text(&j);
    let lines: Vec<&str> = base.lines().collect();
    let at = ch.pick(lines.len() + 1);
    let b = ch.of(&["", "    ", "\t", " "]);
    let n = 1 + ch.pick(2);
    let mut v: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    for _ in 0..n {
        v.insert(at, b.to_string());
    }
    let t = v.join("\n") + if ch.flag() { "\n" } else { "" };
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | LISTS, &[])
    })
}
fn c15_dates(ch: &mut Ch) -> Option<Case> {
    let m = 1 + ch.pick(12) as u32;
    let d = ch.of(&[1u32, 2, 9, 10, 11, 19, 20, 28, 29, 30]);
    if d > days_in(2020, m) {
        return None;
    }
    let mut l = Layout::default();
    l.date_pad = !ch.flag();
    l.date_sep = ch.of(&['-', '/', '.']);
    let j = vec![
        Item::Txn(tx((2020, m, d), "x", vec![po("A", "1", "EUR"), el("B")])),
        Item::Price { date: (2020, m, d), com: "USD".into(), amt: am("2", "EUR") },
    ];
    layout_case(j, l, REG | PRICES)
}
fn c15_names(ch: &mut Ch) -> Option<Case> {
    // words separated by single spaces are one name
    let words = ["A", "b:c", "ñ", "x;y", "1", "@", "=", "5 EUR", "d-e", "(f)"];
    let n = 1 + ch.pick(3);
    let mut name = String::new();
    for i in 0..n {
        let w = ch.of(&words);
        if i == 0 && (w.starts_with(|c: char| c.is_numeric()) || w.starts_with('@') || w == "=" || w.starts_with('(')) {
            return None;
        }
        if i > 0 {
            name.push(' ');
        }
        name.push_str(w);
    }
    let elided = ch.flag();
    let mut l = Layout::default();
    l.gap = ch.of(&["  ", "\t", " \t"]).into();
    l.trail = ch.of(&["", " ", "  "]).into();
    let j = txs(vec![tx(day(0), "x", if elided { vec![po("Q", "5", "EUR"), el(&name)] } else { vec![po(&name, "5", "EUR"), el("Q")] })]);
    layout_case(j, l, REG | LISTS)
}
fn c15_headers(ch: &mut Ch) -> Option<Case> {
    let date = ch.of(&["2020-01-05", "2020/1/5", "2020.01.5", "2020-01-05=2020-01-09", "2020-1-5=2020-2-1", "2020-01-05 12:30:00"]);
    let blank = ch.of(&[" ", "  ", "\t"]);
    let mark = ch.of(&["", "*", "!"]);
    let code = ch.of(&["", "(\"12\")", "('a b')"]);
    let desc = ch.of(&["Shop", "Two  words", "Ñandú & co.", ""]);
    let payee = ch.of(&["", "| P q", "|P q", " |  P q "]);
    let trail = ch.of(&["", "  ", " ; note", "  ;c", "\t", "\t;c"]);
    let bare = ch.flag();
    let mut h = date.to_string();
    h.push_str(&blank);
    for w in [mark, code, desc, payee] {
        if !w.is_empty() {
            h.push_str(w);
            h.push_str(&blank);
        }
    }
    if bare {
        // no blank at the end of the line
        if trail != "" {
            return None;
        }
        h = h.trim_end().to_string();
    }
    let t = format!("{}{}\n    A  1 EUR\n    B\n", h, trail);
    let mut x = tx(day(4), desc, vec![po("A", "1", "EUR"), el("B")]);
    if !payee.is_empty() {
        x = x.payee("P q");
    }
    let j = txs(vec![x]);
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | LISTS, &[])
    })
}
/// Blanks before and after what a comment says: its tags and the note are the same
fn c15_notes(ch: &mut Ch) -> Option<Case> {
    let place = ch.pick(5);
    let what = ch.of(&[":t1:", "k: v", "words", "k: v  w", ":t1:k:", "é: ñ"]);
    let lead = ch.of(&["", " ", "    ", "\t", " \t"]);
    let trail = ch.of(&["", " ", "   ", "\t", " \t "]);
    let eol = ch.of(&["\n", "\r\n"]);
    let last = ch.flag();
    let make = |c: &str| {
        let mut x = tx(day(1), "x", vec![po("A", "1", "EUR"), po("B", "-1", "EUR")]);
        let mut comments = vec![];
        match place {
            0 => x = x.hdr(c),
            1 => x = x.pre(c),
            2 => x.posts[1] = x.posts[1].clone().note(c),
            3 => x.posts[1] = x.posts[1].clone().after(c),
            _ => comments.push(c.to_string()),
        }
        let a = Item::Auto(Auto {
            text: "/A/".into(),
            pred: acc_re("A"),
            comments,
            posts: vec![AutoPost { kind: Kind::Virt, acc: "V".into(), amt: AutoAmt::Mult("2".into()) }],
        });
        let y = Item::Txn(tx(day(0), "y", vec![po("A", "3", "EUR"), el("B")]));
        if last {
            vec![a, y, Item::Txn(x)]
        } else {
            vec![Item::Txn(x), a, y]
        }
    };
    let t = text(&make("MARK")).replace("MARK", &format!("{}{}{}", lead, what, trail)).replace('\n', eol);
    let l = ledger(&make(&format!(" {}", what)), false).ok()?;
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        let tag = |n: &str| Sel { query: vec![format!("%^{}$", n)], pred: Some(E::HasTag(format!("(?i)^{}$", n))), ..Default::default() };
        let ex = |e: E| Sel { query: vec!["expr".into(), e.text()], pred: Some(e), ..Default::default() };
        let sels = vec![
            tag("t1"),
            tag("k"),
            ex(bin(Op::Eq, E::TagStr("k".into()), E::Str("v".into()))),
            ex(bin(Op::Match, E::TagStr("k".into()), E::Re("^v( |$)".into()))),
            ex(bin(Op::Eq, E::TagStr("é".into()), E::Str("ñ".into()))),
            ex(bin(Op::Match, E::Note, E::Re("(:|v|w|ñ|words)$".into()))),
        ];
        for sel in &sels {
            expect_reports(env, &f, &l, sel, None, true)?;
        }
        Ok(())
    })
}
fn c15_directives(ch: &mut Ch) -> Option<Case> {
    let trail = ch.of(&["", " ", "   ", "  ; comment", "\t; c", "\t", " \t "]);
    let inner = ch.of(&["", " ", "  ", "\t"]);
    let lead = ch.of(&[" ", "   "]);
    let ind = ch.of(&["    ", "\t", " "]);
    let body = ch.pick(4);
    let blank = ch.of(&["", "\n", "    ; x\n"]);
    let d = |head: &str, items: &[&str]| {
        let mut s = format!("{}{}\n", head.replacen(' ', &lead, 1), trail);
        for i in items {
            s.push_str(&format!("{}{}{}\n{}", ind, i, inner, blank));
        }
        s
    };
    let (t, j): (String, Item) = match body {
        0 => (
            d("account Main acc", &["alias ma", "note n", "alias other name"]),
            account("Main acc", &["ma", "other name"]),
        ),
        3 => {
            if !blank.is_empty() || ind != "\t" {
                return None;
            }
            let g = if inner.is_empty() { " " } else { inner };
            (
                format!("P{0}2020-01-01{0}€{1}2.5{0}CHF{2}\n", lead, g, trail),
                Item::Price { date: (2020, 1, 1), com: "€".into(), amt: am("2.5", "CHF") },
            )
        }
        1 => (d("commodity EUR", &["alias €", "note n", "default"]), commodity("EUR", &["€"])),
        _ => (
            d("payee The Shop", &["alias ^shp", "alias x"]),
            Item::Payee { name: "The Shop".into(), aliases: vec!["^shp".into(), "x".into()] },
        ),
    };
    let x = Item::Txn(tx(day(0), "shp", vec![po("ma", "1", "€"), po("OTHER NAME", "2", "€"), el("B")]));
    let t = format!("{}{}", t, text(&[x.clone()]));
    let j = vec![j, x];
    case(t.clone(), move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), REG | LISTS | PRICES, &[])
    })
}
fn c15_widths(ch: &mut Ch) -> Option<Case> {
    let n = 1 + ch.pick(ch.qt(40, 120));
    let dim = ch.pick(6);
    let mut l = Layout::default();
    let sp = " ".repeat(n);
    let tabs = "\t".repeat(n);
    match dim {
        0 => l.indent = sp,
        1 => l.indent = tabs,
        2 => l.gap = " ".repeat(n + 1),
        3 => l.gap = tabs,
        4 => l.trail = sp,
        _ => l.between = "\n".repeat(n),
    }
    layout_case(rich(), l, REG | LISTS)
}
