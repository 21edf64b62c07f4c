//! C19: the init file

use super::*;

#[derive(Clone, Debug, Default, PartialEq)]
struct Opts {
    begin: Option<Date>,
    end: Option<Date>,
    depth: Option<usize>,
    real: bool,
    flat: bool,
    no_total: bool,
    no_check: bool,
    /// which journal
    file: Option<usize>,
}
impl Opts {
    /// what the command line leaves open comes from the file
    fn over(&self, file: &Opts) -> Opts {
        Opts {
            begin: self.begin.or(file.begin),
            end: self.end.or(file.end),
            depth: self.depth.or(file.depth),
            real: self.real || file.real,
            flat: self.flat || file.flat,
            no_total: self.no_total || file.no_total,
            no_check: self.no_check || file.no_check,
            file: self.file.or(file.file),
        }
    }
    /// lines of an init file; sep is what separates option and value
    fn lines(&self, sep: &str) -> Vec<String> {
        let mut v = vec![];
        if let Some(n) = self.file {
            v.push(format!("--file{}{}", sep, NAMES[n]));
        }
        if let Some(d) = self.begin {
            v.push(format!("--begin{}{}", sep, ds(d)));
        }
        if let Some(d) = self.end {
            v.push(format!("--end{}{}", sep, ds(d)));
        }
        if let Some(n) = self.depth {
            v.push(format!("--depth{}{}", sep, n));
        }
        for (b, s) in [(self.real, "--real"), (self.flat, "--flat"), (self.no_total, "--no-total"), (self.no_check, "--no-balance-check")] {
            if b {
                v.push(s.to_string());
            }
        }
        v
    }
    fn args(&self, form: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut put = |short: &str, long: &str, value: String| match form {
            0 => v.extend(vec![long.to_string(), value]),
            1 => v.push(format!("{}={}", long, value)),
            2 => v.extend(vec![short.to_string(), value]),
            3 => v.push(format!("{}{}", short, value)),
            _ => v.push(format!("{}={}", short, value)),
        };
        if let Some(n) = self.file {
            put("-f", "--file", NAMES[n].to_string());
        }
        if let Some(d) = self.begin {
            put("-b", "--begin", ds(d));
        }
        if let Some(d) = self.end {
            put("-e", "--end", ds(d));
        }
        if let Some(n) = self.depth {
            put("-d", "--depth", n.to_string());
        }
        for (b, s) in [(self.real, "--real"), (self.flat, "--flat"), (self.no_total, "--no-total"), (self.no_check, "--no-balance-check")] {
            if b {
                v.push(s.to_string());
            }
        }
        v
    }
    fn sel(&self) -> Sel {
        Sel {
            begin: self.begin,
            end: self.end,
            real: self.real,
            ..Default::default()
        }
    }
    fn bal(&self) -> BalOpts {
        BalOpts {
            flat: self.flat,
            depth: self.depth,
            no_total: self.no_total,
            ..Default::default()
        }
    }
}
const NAMES: [&str; 3] = ["a.ledger", "b.ledger", "two words.ledger"];

fn journals() -> Vec<Journal> {
    let rich = |k: &str| {
        let mut x = po("Bud:Get", "7", "EUR");
        x.kind = Kind::Virt;
        txs(vec![
            tx((2020, 1, 1), "one", vec![po("As:Ca:Ba", k, "EUR"), el("In:Sa")]),
            tx((2020, 2, 1), "two", vec![po("As:Ca", "2", "EUR"), el("In:Sa"), x]),
            tx((2020, 3, 1), "three", vec![po("As:Ca:Ba", "4", "EUR"), el("In:Ot:Deep")]),
        ])
    };
    vec![
        rich("1"),
        rich("16"),
        txs(vec![tx((2020, 2, 1), "w", vec![po("W:X", "1", "EUR").eq("3", "EUR"), po("Y", "-1", "EUR")])]),
    ]
}
fn set_up(env: &mut Env) {
    for (n, j) in NAMES.iter().zip(journals()) {
        env.write(n, &text(&j));
    }
}

fn run_and_compare(env: &mut Env, cmd: &str, args: &[String], o: &Opts) -> R {
    let j = &journals()[o.file.unwrap()];
    let mut a = vec![cmd.to_string()];
    a.extend(args.iter().cloned());
    match ledger(j, o.no_check) {
        Err(_) => {
            let out = env.run(&a);
            if !out.refused() {
                return Err(format!("{:?} should be refused: {:?}", a, out.status));
            }
            no_figures(cmd, &out)
        }
        Ok(l) => {
            let out = env.run(&a);
            must_ok(cmd, &out)?;
            match cmd {
                "bal" | "balance" => check_bal(&l, &o.sel(), &o.bal(), &out.stdout),
                "reg" | "register" => check_reg(&l, &o.sel(), &out.stdout),
                "accounts" => check_list(cmd, &l.accounts, &out.stdout),
                "payees" => check_list(cmd, &l.payees, &out.stdout),
                _ => check_list(cmd, &l.commodities, &out.stdout),
            }
            .map_err(|e| format!("{} with {:?}: {}", cmd, o, e))
        }
    }
}

/// where the init file is
fn place(env: &mut Env, how: usize, content: &str) -> Vec<String> {
    match how {
        0 => {
            env.write("home/.ledgerrc", content);
            vec![]
        }
        1 => {
            env.write(".ledgerrc", content);
            vec![]
        }
        2 => {
            let p = env.write("my init", content);
            vec!["--init-file".to_string(), p]
        }
        3 => {
            env.write("rel.rc", content);
            vec!["--init-file=rel.rc".to_string()]
        }
        4 => {
            env.write("rel.rc", content);
            vec!["--init-file".to_string(), "rel.rc".to_string()]
        }
        5 => {
            // home first, then the current folder
            env.write("home/.ledgerrc", content);
            env.write(".ledgerrc", "--begin 2020-02-15\n--real\n--depth 1\n");
            vec![]
        }
        _ => {
            // the one given before any other
            env.write("home/.ledgerrc", "--begin 2020-02-15\n--real\n--depth 1\n");
            env.write(".ledgerrc", "--end 2020-02-15\n");
            env.write("rel.rc", content);
            vec!["--init-file".to_string(), "rel.rc".to_string()]
        }
    }
}

fn pick_opts(ch: &mut Ch, values: usize) -> Opts {
    // value of each option, or not there
    let dates = [(2020, 2, 1), (2020, 1, 2), (2020, 3, 1)];
    let opt = |ch: &mut Ch, n: usize| match ch.pick(n + 1) {
        0 => None,
        k => Some(k - 1),
    };
    Opts {
        begin: opt(ch, values).map(|k| dates[k]),
        end: opt(ch, values).map(|k| dates[2 - k]),
        depth: opt(ch, values).map(|k| k + 1),
        real: ch.flag(),
        ..Default::default()
    }
}

/// the same options in the file or in the command line
fn c19_defaults(ch: &mut Ch) -> Option<Case> {
    let cmd = ch.of(&["bal", "reg"]);
    let mut o = pick_opts(ch, ch.qt(1, 2));
    if cmd == "bal" {
        o.flat = ch.flag();
        o.no_total = ch.flag();
    } else if o.depth.is_some() {
        return None;
    }
    o.file = Some(0);
    let how = ch.pick(7);
    let sep = ch.of(&[" ", "=", "   ", "\t"]);
    if sep == "\t" && !ch.thorough() {
        return None;
    }
    case(format!("{} {:?} {} {:?}", cmd, o, how, sep), move |env| {
        set_up(env);
        let c: String = o.lines(&sep).iter().map(|x| format!("{}\n", x)).collect();
        let extra = place(env, how, &c);
        run_and_compare(env, cmd, &extra, &o)
    })
}
/// some options in the file and some in the command line, in every form
fn c19_override(ch: &mut Ch) -> Option<Case> {
    let cmd = ch.of(&["bal", "register"]);
    let which = ch.pick(9);
    let form = ch.pick(5);
    let sep = ch.of(&[" ", "="]);
    let how = ch.of(&[0usize, 1, 2, 3]);
    let before = ch.flag();
    let mut f = Opts { file: Some(0), ..Default::default() };
    let mut c = Opts::default();
    match which {
        0 => {
            f.begin = Some((2020, 3, 1));
            c.begin = Some((2020, 1, 2));
        }
        1 => {
            f.end = Some((2020, 1, 2));
            c.end = Some((2020, 2, 2));
        }
        2 => {
            f.depth = Some(1);
            c.depth = Some(2);
        }
        3 => {
            f.real = true;
            c.real = true;
        }
        4 => c.file = Some(1),
        5 => {
            f.begin = Some((2020, 3, 1));
            f.end = Some((2020, 1, 2));
            f.real = true;
            c.begin = Some((2020, 1, 1));
            c.end = Some((2020, 2, 2));
            c.file = Some(1);
        }
        6 => {
            f.end = Some((2020, 2, 2));
            c.begin = Some((2020, 1, 2));
        }
        7 => {
            f.begin = Some((2020, 1, 2));
            c.end = Some((2020, 3, 1));
        }
        _ => {
            f.file = Some(2);
            f.no_check = true;
            c.no_check = true;
        }
    }
    if cmd == "register" && which == 2 {
        return None;
    }
    if which == 8 && sep == "=" {
        // a name with blanks
        return None;
    }
    case(format!("{} {} {} {:?} {} {}", cmd, which, form, sep, how, before), move |env| {
        set_up(env);
        let t: String = f.lines(&sep).iter().map(|x| format!("{}\n", x)).collect();
        let extra = place(env, how, &t);
        let mut a = c.args(form);
        if before {
            a.extend(extra);
        } else {
            let mut x = extra;
            x.extend(a);
            a = x;
        }
        run_and_compare(env, cmd, &a, &c.over(&f))
    })
}
/// every pair of sets of options
fn c19_pairs(ch: &mut Ch) -> Option<Case> {
    let v = ch.qt(1, 2);
    let mut f = pick_opts(ch, v);
    let mut c = pick_opts(ch, v);
    let form = ch.of(ch.qt(&[0usize, 2][..], &[0usize, 1, 2, 3, 4][..]));
    f.file = Some(0);
    // different values in both places
    if let (Some(_), Some(_)) = (f.begin, c.begin) {
        c.begin = Some((2020, 2, 2));
    }
    if f.depth.is_some() && c.depth.is_some() {
        c.depth = Some(3);
    }
    if f.end.is_some() && c.end.is_some() {
        c.end = Some((2020, 3, 2));
    }
    if ch.flag() {
        c.file = Some(1);
    }
    case(format!("{:?} {:?} {}", f, c, form), move |env| {
        set_up(env);
        let t: String = f.lines(" ").iter().map(|x| format!("{}\n", x)).collect();
        place(env, 0, &t);
        run_and_compare(env, "bal", &c.args(form), &c.over(&f))
    })
}
/// comments, blank lines, line ends
fn c19_layout(ch: &mut Ch) -> Option<Case> {
    let f = Opts { file: Some(0), begin: Some((2020, 2, 1)), real: true, ..Default::default() };
    let mut l = f.lines(" ");
    let n = ch.qt(2, 3);
    let mut any = false;
    for _ in 0..n {
        let what = ch.of(&["", "   ", "\t", "; --end 2020-01-01", "# --end 2020-01-01", "! x", "% y", ";", "#comment", "  ; indented comment", ";--depth 1"]);
        let at = ch.pick(l.len() + 1);
        l.insert(at, what.to_string());
        any = true;
    }
    let eol = ch.of(&["\n", "\r\n", " \n"]);
    let last = ch.flag();
    let _ = any;
    let mut t: String = l.iter().map(|x| format!("{}{}", x, eol)).collect();
    if !last {
        t = t.trim_end_matches(|c| c == '\n' || c == '\r').to_string();
    }
    case(t.clone(), move |env| {
        set_up(env);
        place(env, 0, &t);
        run_and_compare(env, "reg", &[], &f)?;
        run_and_compare(env, "bal", &[], &f)
    })
}
/// not an option: an error, for every command
fn c19_wrong(ch: &mut Ch) -> Option<Case> {
    let bad = ch.of(&[
        "begin 2020-01-01",
        "-b 2020-01-01",
        "nonsense",
        "real",
        "-",
        "-real",
        "$",
        "* x",
        "*",
        "@ x",
        "// x",
        "/ x",
        "' x",
        "& x",
        "[x]",
        "~ x",
        ": x",
        ". x",
        "+real",
        "?",
        "2020-01-01 x",
        "--unknown-option",
        "--begin",
        "--begin nonsense words",
        "--depth x",
        "--depth -1",
        "--begin 2020-13-01",
        "--real yes=no --x",
        "=",
        "\"--real\"",
    ]);
    let at = ch.pick(3);
    let how = ch.pick(5);
    let cmd = ch.of(&COMMANDS);
    if !ch.thorough() && how > 2 {
        return None;
    }
    // --real yes=no --x: the value becomes a query; not an error
    if bad.starts_with("--real") {
        return None;
    }
    let mut l = vec!["--file a.ledger".to_string(), "--real".to_string()];
    l.insert(at, bad.to_string());
    let t: String = l.iter().map(|x| format!("{}\n", x)).collect();
    case(format!("{} {} {}", cmd, how, t), move |env| {
        set_up(env);
        let extra = place(env, how, &t);
        let mut a = vec![cmd.to_string()];
        a.extend(extra);
        let o = env.exec(&a);
        if !o.refused() {
            return Err(format!("{:?} should be refused, status {:?}", a, o.status));
        }
        no_figures(cmd, &o)
    })
}
/// other commands take their file from it too
fn c19_commands(ch: &mut Ch) -> Option<Case> {
    let cmd = ch.of(&["accounts", "payees", "commodities", "currencies", "bal", "balance", "reg", "register"]);
    let how = ch.pick(7);
    let given = match ch.pick(4) {
        0 => None,
        k => Some(k - 1),
    };
    let form = ch.pick(5);
    let no_check = ch.flag();
    let in_file = ch.pick(3);
    if given.is_none() && form > 0 {
        return None;
    }
    let f = Opts { file: Some(in_file), no_check, ..Default::default() };
    let c = Opts { file: given, ..Default::default() };
    case(format!("{} {} {:?} {} {} {}", cmd, how, given, form, no_check, in_file), move |env| {
        set_up(env);
        let t: String = f.lines(" ").iter().map(|x| format!("{}\n", x)).collect();
        let mut a = place(env, how, &t);
        a.extend(c.args(form));
        let name = match cmd {
            "currencies" => "commodities",
            x => x,
        };
        let o = c.over(&f);
        let _ = name;
        run_and_compare(env, cmd, &a, &o)
    })
}
/// with a query; a file that is empty, or absent
fn c19_query(ch: &mut Ch) -> Option<Case> {
    let how = ch.pick(7);
    let content = ch.of(&["", "--real\n", "; c\n", "--begin 2020-02-01\n"]);
    let q = ch.of(&["As", "Bud", "deep", "zzz", "expr amount > 2"]);
    let early = ch.flag();
    let o = Opts {
        real: content.contains("real"),
        begin: if content.contains("begin") { Some((2020, 2, 1)) } else { None },
        file: Some(0),
        ..Default::default()
    };
    case(format!("{} {:?} {} {}", how, content, q, early), move |env| {
        set_up(env);
        let mut a = vec!["reg".to_string()];
        let extra = place(env, how, content);
        let words: Vec<String> = match q.strip_prefix("expr ") {
            Some(e) => vec!["expr".to_string(), e.to_string()],
            None => vec![q.to_string()],
        };
        if early {
            a.extend(words);
            a.extend(extra);
            a.extend(vec!["-f".to_string(), "a.ledger".to_string()]);
        } else {
            a.extend(extra);
            a.extend(vec!["-f".to_string(), "a.ledger".to_string()]);
            a.extend(words);
        }
        let l = ledger(&journals()[0], false)?;
        let mut sel = o.sel();
        sel.pred = Some(match q.strip_prefix("expr ") {
            Some(_) => bin(Op::Gt, E::Amount, E::Num("2".into())),
            None => acc_re(&format!("(?i){}", q)),
        });
        let out = env.run(&a);
        must_ok("reg", &out)?;
        check_reg(&l, &sel, &out.stdout)
    })
}
/// what comes after -- are not options, and the ones of the file are never part of the query
fn c19_dashes(ch: &mut Ch) -> Option<Case> {
    let how = ch.pick(7);
    let mut o = pick_opts(ch, 1);
    o.file = Some(0);
    let cmd = ch.of(&["bal", "reg"]);
    if cmd == "reg" && o.depth.is_some() {
        return None;
    }
    let q = ch.of(&["As", "Bud", "zzz", ".*", "--real", "--begin", "--begin=2020-02-01", "--depth", "-b", "-e", "--end", "--file"]);
    let in_line = ch.pick(3);
    case(format!("{} {:?} {} {} {}", how, o, cmd, q, in_line), move |env| {
        set_up(env);
        let mut f = o.clone();
        let mut c = Opts::default();
        if in_line == 1 {
            c.begin = Some((2020, 1, 2));
        }
        if in_line == 2 {
            c.real = true;
        }
        f.file = Some(0);
        let t: String = f.lines(" ").iter().map(|x| format!("{}\n", x)).collect();
        let mut a = vec![cmd.to_string()];
        a.extend(place(env, how, &t));
        a.extend(c.args(0));
        a.push("--".to_string());
        a.push(q.to_string());
        let l = ledger(&journals()[0], f.no_check)?;
        let mut sel = c.over(&f).sel();
        sel.pred = Some(acc_re(&format!("(?i){}", q)));
        let out = env.run(&a);
        must_ok(cmd, &out)?;
        if cmd == "reg" {
            check_reg(&l, &sel, &out.stdout)
        } else {
            check_bal(&l, &sel, &c.over(&f).bal(), &out.stdout)
        }
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        spaces: vec![
            space("options in the file", c19_defaults),
            space("after two dashes", c19_dashes),
            space("overridden in every form", c19_override),
            space("pairs of sets of options", c19_pairs),
            space("layout of the file", c19_layout),
            space("names of files", c19_names),
            space("wrong files", c19_wrong),
            space("commands and files", c19_commands),
            space("with a query", c19_query),
        ],
        assumptions: ASSUME.to_vec(),
    }]
}

/// The journal can have any name
fn c19_names(ch: &mut Ch) -> Option<Case> {
    let name = ch.of(&[
        "a;b.ledger", ";x", "#x", "a#b", "!x", "%x", "a%b", "x=y", "=x", "ñ 日本.dat", "one two", "a -b", "x, y", "it's", "q\"q", "$HOME", "a*b", "[a]", "(a)", "a&b", "sub/a;b", "./x", "-f", "--real", "a --real",
        "reg", "x ; y", "x #y",
    ]);
    let how = ch.pick(7);
    let sep = ch.of(&[" ", "=", "  ", "\t"]);
    // an option where a value should be, words with blanks after =
    if sep != "=" && name.starts_with('-') || sep == "=" && (name.contains(' ') || name.starts_with('=')) {
        return None;
    }
    let real = ch.flag();
    let f = Opts { file: Some(0), real, ..Default::default() };
    let t = format!("{}--file{}{}\n", if real { "--real\n" } else { "" }, sep, name);
    case(format!("{} {}", how, t), move |env| {
        env.write(name, &text(&journals()[0]));
        let a = place(env, how, &t);
        run_and_compare(env, "reg", &a, &f)?;
        run_and_compare(env, "bal", &a, &f)
    })
}
